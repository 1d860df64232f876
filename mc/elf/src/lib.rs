//! ELF images built from parts, and an interpreter of RV32IMAC machine code that
//! is written from the specification and shares nothing with the code under test.
use std::collections::BTreeMap;

pub mod image;
pub use image::*;

/// Registers, and memory as an overlay over made-up contents.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct State {
    pub x: [u32; 32],
    pub mem: BTreeMap<u32, u8>,
    pub reservation: Option<u32>,
}
/// How a piece of code is left.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Exit {
    /// at an address
    To(u32),
    /// an exception
    Trap(&'static str),
}
/// What a piece of code did.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Effect {
    pub state: State,
    pub exit: Exit,
    /// system calls with all registers at that time
    pub calls: Vec<[u32; 32]>,
}

impl State {
    pub fn new(x: [u32; 32]) -> Self {
        let mut x = x;
        x[0] = 0;
        State { x, mem: BTreeMap::new(), reservation: None }
    }
    pub fn set(&mut self, r: u32, v: u32) {
        if r != 0 {
            self.x[r as usize] = v;
        }
    }
    fn byte(&self, a: u32) -> u8 {
        // made up, so that all addresses and sizes can be told apart
        *self.mem.get(&a).unwrap_or(&((a.wrapping_mul(0x9e3779b1) >> 21) as u8 ^ 0x80))
    }
    pub fn load(&self, a: u32, bytes: u32) -> u32 {
        (0..bytes).map(|i| (self.byte(a.wrapping_add(i)) as u32) << (8 * i)).sum()
    }
    pub fn store(&mut self, a: u32, bytes: u32, v: u32) {
        for i in 0..bytes {
            self.mem.insert(a.wrapping_add(i), (v >> (8 * i)) as u8);
        }
    }
    /// The operations common to machine code and statements. `b` is the second
    /// register or the immediate.
    pub fn alu(op: &str, a: u32, b: u32) -> u32 {
        let (sa, sb) = (a as i32, b as i32);
        match op {
            "add" => a.wrapping_add(b),
            "sub" => a.wrapping_sub(b),
            "sll" => a << (b & 31),
            "slt" => (sa < sb) as u32,
            "sltu" => (a < b) as u32,
            "xor" => a ^ b,
            "srl" => a >> (b & 31),
            "sra" => (sa >> (b & 31)) as u32,
            "or" => a | b,
            "and" => a & b,
            "mul" => a.wrapping_mul(b),
            "mulh" => ((sa as i64 * sb as i64) >> 32) as u32,
            "mulhsu" => ((sa as i64 * b as i64) >> 32) as u32,
            "mulhu" => ((a as u64 * b as u64) >> 32) as u32,
            "div" => {
                if b == 0 {
                    u32::MAX
                } else {
                    sa.wrapping_div(sb) as u32
                }
            }
            "divu" => a.checked_div(b).unwrap_or(u32::MAX),
            "rem" => {
                if b == 0 {
                    a
                } else {
                    sa.wrapping_rem(sb) as u32
                }
            }
            "remu" => a.checked_rem(b).unwrap_or(a),
            _ => panic!("alu {op}"),
        }
    }
    pub fn amo(op: &str, old: u32, b: u32) -> u32 {
        match op {
            "amoswap.w" => b,
            "amoadd.w" => old.wrapping_add(b),
            "amoxor.w" => old ^ b,
            "amoand.w" => old & b,
            "amoor.w" => old | b,
            "amomin.w" => (old as i32).min(b as i32) as u32,
            "amomax.w" => (old as i32).max(b as i32) as u32,
            "amominu.w" => old.min(b),
            "amomaxu.w" => old.max(b),
            _ => panic!("amo {op}"),
        }
    }
    pub fn taken(op: &str, a: u32, b: u32) -> bool {
        match op {
            "beq" => a == b,
            "bne" => a != b,
            "blt" => (a as i32) < b as i32,
            "bge" => a as i32 >= b as i32,
            "bltu" => a < b,
            "bgeu" => a >= b,
            _ => panic!("branch {op}"),
        }
    }
    pub fn extended(&self, op: &str, a: u32) -> u32 {
        match op {
            "lb" => self.load(a, 1) as i8 as u32,
            "lh" => self.load(a, 2) as i16 as u32,
            "lw" => self.load(a, 4),
            "lbu" => self.load(a, 1),
            "lhu" => self.load(a, 2),
            _ => panic!("load {op}"),
        }
    }
}

/// A decoded instruction. Compressed ones are expanded as in the specification.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum I {
    Lui(u32, u32),
    Auipc(u32, u32),
    Jal(u32, i32),
    Jalr(u32, u32, i32),
    Branch(&'static str, u32, u32, i32),
    Load(&'static str, u32, u32, i32),
    Store(u32, u32, u32, i32), // bytes, rs2, rs1
    OpImm(&'static str, u32, u32, i32),
    Op(&'static str, u32, u32, u32),
    Fence,
    Ecall,
    Ebreak,
    Lr(u32, u32),
    Sc(u32, u32, u32),           // rd, rs2, rs1
    Amo(&'static str, u32, u32, u32), // rd, rs2, rs1
    Illegal,
}

fn bits(w: u32, hi: u32, lo: u32) -> u32 {
    (w >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32
}
fn sext(v: u32, n: u32) -> i32 {
    ((v << (32 - n)) as i32) >> (32 - n)
}

/// The instruction and its length. `None`: not an instruction of RV32IMAC and not
/// one of the two forms of `unimp`, or an encoding without effect that the
/// specification sets aside (hints).
pub fn decode(w: u32) -> Option<(I, u32)> {
    if w & 3 == 3 {
        decode32(w).map(|i| (i, 4))
    } else {
        decode16(w & 0xffff).map(|i| (i, 2))
    }
}

fn decode32(w: u32) -> Option<I> {
    let (rd, rs1, rs2, f3, f7) = (bits(w, 11, 7), bits(w, 19, 15), bits(w, 24, 20), bits(w, 14, 12), bits(w, 31, 25));
    let imm_i = (w as i32) >> 20;
    let imm_s = sext(bits(w, 31, 25) << 5 | bits(w, 11, 7), 12);
    let imm_b = sext(bits(w, 31, 31) << 12 | bits(w, 7, 7) << 11 | bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1, 13);
    let imm_j = sext(bits(w, 31, 31) << 20 | bits(w, 19, 12) << 12 | bits(w, 20, 20) << 11 | bits(w, 30, 21) << 1, 21);
    Some(match w & 0x7f {
        0x37 => I::Lui(rd, w & 0xffff_f000),
        0x17 => I::Auipc(rd, w & 0xffff_f000),
        0x6f => I::Jal(rd, imm_j),
        0x67 if f3 == 0 => I::Jalr(rd, rs1, imm_i),
        0x63 => I::Branch(*["beq", "bne", "", "", "blt", "bge", "bltu", "bgeu"].get(f3 as usize).filter(|s| !s.is_empty())?, rs1, rs2, imm_b),
        0x03 => I::Load(*["lb", "lh", "lw", "", "lbu", "lhu", "", ""].get(f3 as usize).filter(|s| !s.is_empty())?, rd, rs1, imm_i),
        0x23 if f3 < 3 => I::Store(1 << f3, rs2, rs1, imm_s),
        0x13 => {
            let op = ["add", "sll", "slt", "sltu", "xor", "srl", "or", "and"][f3 as usize];
            match (f3, f7) {
                (1, 0) | (5, 0) => I::OpImm(op, rd, rs1, rs2 as i32),
                (5, 0x20) => I::OpImm("sra", rd, rs1, rs2 as i32),
                (1 | 5, _) => return None,
                _ => I::OpImm(op, rd, rs1, imm_i),
            }
        }
        0x33 => match (f7, f3) {
            (0, _) => I::Op(["add", "sll", "slt", "sltu", "xor", "srl", "or", "and"][f3 as usize], rd, rs1, rs2),
            (0x20, 0) => I::Op("sub", rd, rs1, rs2),
            (0x20, 5) => I::Op("sra", rd, rs1, rs2),
            (1, _) => I::Op(["mul", "mulh", "mulhsu", "mulhu", "div", "divu", "rem", "remu"][f3 as usize], rd, rs1, rs2),
            _ => return None,
        },
        0x0f if f3 < 2 => I::Fence,
        0x73 => match w {
            0x0000_0073 => I::Ecall,
            0x0010_0073 => I::Ebreak,
            0xc000_1073 => I::Illegal, // csrrw x0, cycle, x0
            _ => return None,
        },
        0x2f if f3 == 2 => match bits(w, 31, 27) {
            2 if rs2 == 0 => I::Lr(rd, rs1),
            3 => I::Sc(rd, rs2, rs1),
            k => I::Amo(
                match k {
                    1 => "amoswap.w",
                    0 => "amoadd.w",
                    4 => "amoxor.w",
                    12 => "amoand.w",
                    8 => "amoor.w",
                    16 => "amomin.w",
                    20 => "amomax.w",
                    24 => "amominu.w",
                    28 => "amomaxu.w",
                    _ => return None,
                },
                rd,
                rs2,
                rs1,
            ),
        },
        _ => return None,
    })
}

fn decode16(w: u32) -> Option<I> {
    let b = |i: u32| bits(w, i, i);
    let (rd, rs2) = (bits(w, 11, 7), bits(w, 6, 2));
    let (rdp, rs1p, rs2p) = (bits(w, 9, 7) + 8, bits(w, 9, 7) + 8, bits(w, 4, 2) + 8);
    let imm6 = sext(b(12) << 5 | rs2, 6);
    let j = sext(b(12) << 11 | b(11) << 4 | bits(w, 10, 9) << 8 | b(8) << 10 | b(7) << 6 | b(6) << 7 | bits(w, 5, 3) << 1 | b(2) << 5, 12);
    let br = sext(b(12) << 8 | bits(w, 11, 10) << 3 | bits(w, 6, 5) << 6 | bits(w, 4, 3) << 1 | b(2) << 5, 9);
    let lw = (bits(w, 12, 10) << 3 | b(6) << 2 | b(5) << 6) as i32;
    Some(match (w & 3, bits(w, 15, 13)) {
        (0, 0) => {
            let imm = bits(w, 12, 11) << 4 | bits(w, 10, 7) << 6 | b(6) << 2 | b(5) << 3;
            if w == 0 {
                I::Illegal
            } else if imm == 0 {
                return None;
            } else {
                I::OpImm("add", rs2p, 2, imm as i32)
            }
        }
        (0, 2) => I::Load("lw", rs2p, rs1p, lw),
        (0, 6) => I::Store(4, rs2p, rs1p, lw),
        (1, 0) => I::OpImm("add", rd, rd, imm6),
        (1, 1) => I::Jal(1, j),
        (1, 2) => I::OpImm("add", rd, 0, imm6),
        (1, 3) if rd == 2 => {
            let imm = sext(b(12) << 9 | b(6) << 4 | b(5) << 6 | bits(w, 4, 3) << 7 | b(2) << 5, 10);
            if imm == 0 {
                return None;
            }
            I::OpImm("add", 2, 2, imm)
        }
        (1, 3) if imm6 != 0 => I::Lui(rd, (imm6 << 12) as u32),
        (1, 4) => match bits(w, 11, 10) {
            0 | 1 if b(12) == 1 => return None,
            0 => I::OpImm("srl", rdp, rdp, rs2 as i32),
            1 => I::OpImm("sra", rdp, rdp, rs2 as i32),
            2 => I::OpImm("and", rdp, rdp, imm6),
            _ if b(12) == 1 => return None,
            _ => I::Op(["sub", "xor", "or", "and"][bits(w, 6, 5) as usize], rdp, rdp, rs2p),
        },
        (1, 5) => I::Jal(0, j),
        (1, 6) => I::Branch("beq", rs1p, 0, br),
        (1, 7) => I::Branch("bne", rs1p, 0, br),
        (2, 0) if b(12) == 0 => I::OpImm("sll", rd, rd, rs2 as i32),
        (2, 2) if rd != 0 => I::Load("lw", rd, 2, (b(12) << 5 | bits(w, 6, 4) << 2 | bits(w, 3, 2) << 6) as i32),
        (2, 4) => match (b(12), rd, rs2) {
            (0, 0, 0) => return None,
            (0, _, 0) => I::Jalr(0, rd, 0),
            (1, 0, 0) => I::Ebreak,
            (1, _, 0) => I::Jalr(1, rd, 0),
            (_, 0, _) => return None, // hint
            (0, _, _) => I::Op("add", rd, 0, rs2),
            _ => I::Op("add", rd, rd, rs2),
        },
        (2, 6) => I::Store(4, rs2, 2, (bits(w, 12, 9) << 2 | bits(w, 8, 7) << 6) as i32),
        _ => return None,
    })
}

/// Executes one instruction at `pc`.
pub fn step(s: &mut State, i: I, pc: u32, len: u32, calls: &mut Vec<[u32; 32]>) -> Exit {
    let next = pc.wrapping_add(len);
    let x = s.x;
    let r = |k: u32| x[k as usize];
    match i {
        I::Lui(rd, v) => s.set(rd, v),
        I::Auipc(rd, v) => s.set(rd, pc.wrapping_add(v)),
        I::Jal(rd, o) => {
            s.set(rd, next);
            return Exit::To(pc.wrapping_add(o as u32));
        }
        I::Jalr(rd, rs1, o) => {
            s.set(rd, next);
            return Exit::To(r(rs1).wrapping_add(o as u32) & !1);
        }
        I::Branch(op, a, b, o) => {
            if State::taken(op, r(a), r(b)) {
                return Exit::To(pc.wrapping_add(o as u32));
            }
        }
        I::Load(op, rd, rs1, o) => {
            let v = s.extended(op, r(rs1).wrapping_add(o as u32));
            s.set(rd, v)
        }
        I::Store(n, rs2, rs1, o) => s.store(r(rs1).wrapping_add(o as u32), n, r(rs2)),
        I::OpImm(op, rd, rs1, imm) => s.set(rd, State::alu(op, r(rs1), imm as u32)),
        I::Op(op, rd, rs1, rs2) => s.set(rd, State::alu(op, r(rs1), r(rs2))),
        I::Fence => {}
        I::Ecall => calls.push(s.x),
        I::Ebreak => return Exit::Trap("ebreak"),
        I::Illegal => return Exit::Trap("illegal"),
        I::Lr(rd, rs1) => {
            s.reservation = Some(r(rs1));
            let v = s.load(r(rs1), 4);
            s.set(rd, v)
        }
        I::Sc(rd, rs2, rs1) => {
            let ok = s.reservation == Some(r(rs1));
            if ok {
                s.store(r(rs1), 4, r(rs2));
            }
            s.reservation = None;
            s.set(rd, !ok as u32)
        }
        I::Amo(op, rd, rs2, rs1) => {
            let old = s.load(r(rs1), 4);
            s.store(r(rs1), 4, State::amo(op, old, r(rs2)));
            s.set(rd, old)
        }
    }
    Exit::To(next)
}

// encodings
pub fn r_type(f7: u32, f3: u32, opc: u32, rd: u32, rs1: u32, rs2: u32) -> u32 {
    f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | opc
}
pub fn i_type(f3: u32, opc: u32, rd: u32, rs1: u32, imm: i32) -> u32 {
    ((imm as u32) & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | opc
}
pub fn s_type(f3: u32, rs2: u32, rs1: u32, imm: i32) -> u32 {
    let i = imm as u32;
    bits(i, 11, 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | bits(i, 4, 0) << 7 | 0x23
}
pub fn b_type(f3: u32, rs1: u32, rs2: u32, imm: i32) -> u32 {
    let i = imm as u32;
    bits(i, 12, 12) << 31 | bits(i, 10, 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | bits(i, 4, 1) << 8 | bits(i, 11, 11) << 7 | 0x63
}
pub fn u_type(opc: u32, rd: u32, v: u32) -> u32 {
    v & 0xffff_f000 | rd << 7 | opc
}
pub fn j_type(rd: u32, imm: i32) -> u32 {
    let i = imm as u32;
    bits(i, 20, 20) << 31 | bits(i, 10, 1) << 21 | bits(i, 11, 11) << 20 | bits(i, 19, 12) << 12 | rd << 7 | 0x6f
}
pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 {
    i_type(0, 0x13, rd, rs1, imm)
}
pub fn jalr(rd: u32, rs1: u32, imm: i32) -> u32 {
    i_type(0, 0x67, rd, rs1, imm)
}
/// The upper part that goes with the signed lower 12 bits.
pub fn hi20(v: u32) -> u32 {
    v.wrapping_add(0x800) & 0xffff_f000
}
pub fn lo12(v: u32) -> i32 {
    sext(v & 0xfff, 12)
}
pub fn c_li(rd: u32, imm: i32) -> u32 {
    let i = imm as u32;
    2 << 13 | bits(i, 5, 5) << 12 | rd << 7 | bits(i, 4, 0) << 2 | 1
}
pub fn c_addi(rd: u32, imm: i32) -> u32 {
    c_li(rd, imm) & !(7 << 13)
}
pub fn c_lui(rd: u32, imm: i32) -> u32 {
    c_li(rd, imm) | 1 << 13
}
pub fn c_jump(f3: u32, o: i32) -> u32 {
    let i = o as u32;
    let b = |k: u32| bits(i, k, k);
    f3 << 13 | b(11) << 12 | b(4) << 11 | bits(i, 9, 8) << 9 | b(10) << 8 | b(6) << 7 | b(7) << 6 | bits(i, 3, 1) << 3 | b(5) << 2 | 1
}
pub fn c_branch(f3: u32, rs1: u32, o: i32) -> u32 {
    let i = o as u32;
    f3 << 13 | bits(i, 8, 8) << 12 | bits(i, 4, 3) << 10 | (rs1 - 8) << 7 | bits(i, 7, 6) << 5 | bits(i, 2, 1) << 3 | bits(i, 5, 5) << 2 | 1
}

/// What the loader makes of an image.
pub mod lifted {
    use super::*;
    use powdr_riscv_types::{InstructionArgs, RiscVProgram, Statement};
    use std::collections::BTreeSet;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Args {
        None,
        L(String),
        Ri(u32, u32),
        Rr(u32, u32),
        Rl(u32, String),
        Rri(u32, u32, u32),
        Rrr(u32, u32, u32),
        Rrl(u32, u32, String),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Stmt {
        Loc(u64, u64, u64),
        Label(String),
        Op(String, Result<Args, String>),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Number(u32),
        Label(String),
    }
    #[derive(Debug)]
    pub struct Program {
        pub stmts: Vec<Stmt>,
        pub memory: Vec<(Option<String>, u32, Value)>,
        pub files: Vec<(u32, String, String)>,
        pub text_labels: BTreeSet<u32>,
        pub start: String,
        pub prover: (u32, u32),
        pub symbols: BTreeMap<u32, Vec<String>>,
    }

    /// Reads the arguments the way the operation asks for.
    fn args<A: InstructionArgs>(op: &str, a: A) -> Result<Args, String> {
        let s = |e: A::Error| e.to_string();
        let n = |r: powdr_riscv_types::Register| r.addr() as u32;
        let l = |x: &dyn AsRef<str>| x.as_ref().to_string();
        Ok(match op {
            "lui" | "li" => a.ri().map(|(r, i)| Args::Ri(n(r), i)).map_err(s)?,
            "la" | "jal" => a.rl().map(|(r, i)| Args::Rl(n(r), l(&i))).map_err(s)?,
            "tail" => a.l().map(|i| Args::L(l(&i))).map_err(s)?,
            "beq" | "bne" | "blt" | "bge" | "bltu" | "bgeu" => a.rrl().map(|(x, y, i)| Args::Rrl(n(x), n(y), l(&i))).map_err(s)?,
            "addi" | "slti" | "sltiu" | "xori" | "ori" | "andi" | "slli" | "srli" | "srai" => a.rri().map(|(x, y, i)| Args::Rri(n(x), n(y), i)).map_err(s)?,
            "lb" | "lh" | "lw" | "lbu" | "lhu" | "sb" | "sh" | "sw" | "jalr" => a.rro().map(|(x, y, i)| Args::Rri(n(x), n(y), i)).map_err(s)?,
            "lr.w" => a.rr().map(|(x, y)| Args::Rr(n(x), n(y))).map_err(s)?,
            _ if op.starts_with("amo") || op == "sc.w" => a.rrr2().map(|(x, y, z)| Args::Rrr(n(x), n(y), n(z))).map_err(s)?,
            "add" | "sub" | "sll" | "slt" | "sltu" | "xor" | "srl" | "sra" | "or" | "and" | "mul" | "mulh" | "mulhsu" | "mulhu" | "div" | "divu" | "rem" | "remu" => {
                a.rrr().map(|(x, y, z)| Args::Rrr(n(x), n(y), n(z))).map_err(s)?
            }
            _ => a.empty().map(|_| Args::None).map_err(s)?,
        })
    }

    pub fn load(bytes: &[u8]) -> Result<Program, String> {
        mc_core::quiet_catch(|| {
            let mut p = powdr_riscv_elf::load_elf_from_buffer(bytes);
            let memory = p
                .take_initial_mem()
                .map(|e| {
                    let v = match e.value {
                        powdr_isa_utils::SingleDataValue::Value(v) => Value::Number(v),
                        powdr_isa_utils::SingleDataValue::LabelReference(l) => Value::Label(l),
                        powdr_isa_utils::SingleDataValue::Offset(..) => panic!("offset in data"),
                    };
                    (e.label, e.addr, v)
                })
                .collect();
            let files = p.take_source_files_info().map(|f| (f.id, f.dir.to_string(), f.file.to_string())).collect();
            let text_labels = p.text_labels().clone();
            let start = p.start_function().as_ref().to_string();
            let prover = p.prover_data_bounds();
            let symbols = p.debug_info().symbols.table().clone();
            let stmts = p
                .take_executable_statements()
                .map(|s| match s {
                    Statement::DebugLoc { file, line, col } => Stmt::Loc(file, line, col),
                    Statement::Label(l) => Stmt::Label(l.as_ref().to_string()),
                    Statement::Instruction { op, args: a } => Stmt::Op(op.to_string(), args(op, a)),
                })
                .collect();
            Program { stmts, memory, files, text_labels, start, prover, symbols }
        })
    }

    /// Executes a statement. `next` is the address after it.
    pub fn step(s: &mut State, op: &str, a: &Args, next: u32, label: &dyn Fn(&str) -> u32, calls: &mut Vec<[u32; 32]>) -> Exit {
        let x = s.x;
        let r = |k: u32| x[k as usize];
        match (op, a) {
            ("li", Args::Ri(rd, v)) => s.set(*rd, *v),
            ("lui", Args::Ri(rd, v)) => s.set(*rd, v << 12),
            ("la", Args::Rl(rd, l)) => s.set(*rd, label(l)),
            ("jal", Args::Rl(rd, l)) => {
                s.set(*rd, next);
                return Exit::To(label(l));
            }
            ("tail", Args::L(l)) => return Exit::To(label(l)),
            ("jalr", Args::Rri(rd, rs1, i)) => {
                s.set(*rd, next);
                return Exit::To(r(*rs1).wrapping_add(*i) & !1);
            }
            (_, Args::Rrl(p, q, l)) => {
                if State::taken(op, r(*p), r(*q)) {
                    return Exit::To(label(l));
                }
            }
            ("lb" | "lh" | "lw" | "lbu" | "lhu", Args::Rri(rd, rs1, i)) => {
                let v = s.extended(op, r(*rs1).wrapping_add(*i));
                s.set(*rd, v)
            }
            ("sb", Args::Rri(rs2, rs1, i)) => s.store(r(*rs1).wrapping_add(*i), 1, r(*rs2)),
            ("sh", Args::Rri(rs2, rs1, i)) => s.store(r(*rs1).wrapping_add(*i), 2, r(*rs2)),
            ("sw", Args::Rri(rs2, rs1, i)) => s.store(r(*rs1).wrapping_add(*i), 4, r(*rs2)),
            (_, Args::Rri(rd, rs1, i)) => {
                let alu = if op == "sltiu" { "sltu" } else { op.strip_suffix('i').unwrap() };
                s.set(*rd, State::alu(alu, r(*rs1), *i))
            }
            ("lr.w", Args::Rr(rd, rs1)) => {
                s.reservation = Some(r(*rs1));
                let v = s.load(r(*rs1), 4);
                s.set(*rd, v)
            }
            ("sc.w", Args::Rrr(rd, rs2, rs1)) => {
                let ok = s.reservation == Some(r(*rs1));
                if ok {
                    s.store(r(*rs1), 4, r(*rs2));
                }
                s.reservation = None;
                s.set(*rd, !ok as u32)
            }
            (_, Args::Rrr(rd, rs2, rs1)) if op.starts_with("amo") => {
                let old = s.load(r(*rs1), 4);
                s.store(r(*rs1), 4, State::amo(op, old, r(*rs2)));
                s.set(*rd, old)
            }
            (_, Args::Rrr(rd, p, q)) => s.set(*rd, State::alu(op, r(*p), r(*q))),
            ("fence", Args::None) => {}
            ("ecall", Args::None) => calls.push(s.x),
            ("ebreak", Args::None) => return Exit::Trap("ebreak"),
            ("unimp", Args::None) => return Exit::Trap("illegal"),
            (name, Args::None) => {
                // the statement of a system call loads its number
                let call = name.parse::<powdr_syscalls::Syscall>().unwrap_or_else(|_| panic!("unknown statement {name}"));
                s.set(5, u8::from(call) as u32);
                calls.push(s.x);
            }
            _ => panic!("unknown statement {op}"),
        }
        Exit::To(next)
    }
}
