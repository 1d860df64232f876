//! A toy virtual machine: instruction circuits, an interpreter that executes them and
//! fills in their rows, and the adapter that lets the precompile generator use it.
use crate::*;
use powdr_autoprecompiles::adapter::{Adapter, AdapterApc, AdapterVmConfig};
use powdr_autoprecompiles::blocks::{Instruction, PcStep, Program};
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::evaluation::AirStats;
use powdr_autoprecompiles::execution::ExecutionState;
use powdr_autoprecompiles::trace_handler::TraceTrait;
use powdr_autoprecompiles::{DegreeBound, InstructionHandler, VmConfig};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use serde::{Deserialize, Serialize};

pub const P: u32 = 29;
pub type F = Tiny<29, 5>;
pub type AE = AlgebraicExpression<F>;
pub type Machine = SymbolicMachine<F>;

/// Values are two bits wide; registers and memory are separate address spaces.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub enum Op {
    /// rd, rs1, rs2 (register or immediate)
    Add,
    Sub,
    Xor,
    Lt,
    Mul,
    /// rs1, rs2, offset
    Beq,
    Bne,
    /// rd, offset, value
    Jal,
    /// rd, rs1, immediate
    Load,
    /// rs2, rs1, immediate
    Store,
    /// rd, rs1
    IsZero,
    /// rd, rs1: copies a register of two limbs, exchanging them; not executable here
    Wide,
    /// An instruction precompiles may not contain.
    Halt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
pub struct Ins {
    pub op: Op,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub reg: bool,
}
pub const fn ins(op: Op, a: u32, b: u32, c: u32, reg: bool) -> Ins {
    Ins { op, a, b, c, reg }
}
impl Display for Ins {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?} {} {} {}{}", self.op, self.a, self.b, if self.reg { "r" } else { "" }, self.c)
    }
}
impl PcStep for Ins {
    fn pc_step() -> u32 {
        4
    }
}
impl Instruction<F> for Ins {
    fn pc_lookup_row(&self, pc: u64) -> Vec<F> {
        [pc as i64, opcode(self.op) as i64, self.a as i64, self.b as i64, self.c as i64, self.reg as i64].map(F::new).to_vec()
    }
}

pub fn opcode(op: Op) -> u32 {
    match op {
        Add => 1,
        Sub => 2,
        Xor => 3,
        Beq => 4,
        Bne => 5,
        Load => 6,
        Store => 7,
        Lt => 8,
        Mul => 9,
        Jal => 10,
        IsZero => 11,
        Halt => 12,
        Wide => 13,
    }
}

pub fn air_id(op: Op) -> u8 {
    match op {
        Add | Sub | Xor => 0,
        Beq | Bne => 1,
        Load | Store => 2,
        Lt => 3,
        Mul => 4,
        Jal => 5,
        IsZero => 6,
        Wide => 7,
        Halt => 8,
    }
}

/// Builds a machine; columns are numbered in the order they are asked for.
struct Air {
    names: Vec<&'static str>,
    m: Machine,
}
impl Default for Air {
    fn default() -> Air {
        Air { names: vec![], m: SymbolicMachine { constraints: vec![], bus_interactions: vec![], derived_columns: vec![] } }
    }
}
fn n(v: i64) -> AE {
    AlgebraicExpression::Number(F::new(v))
}
impl Air {
    fn col(&mut self, name: &'static str) -> AE {
        self.names.push(name);
        AlgebraicExpression::Reference(AlgebraicReference { name: Arc::new(name.into()), id: self.names.len() as u64 - 1 })
    }
    fn zero(&mut self, e: AE) {
        self.m.constraints.push(SymbolicConstraint { expr: e });
    }
    fn bool(&mut self, e: &AE) {
        self.zero(e.clone() * (e.clone() - n(1)));
    }
    fn bus(&mut self, id: u32, mult: AE, args: Vec<AE>) {
        self.m.bus_interactions.push(SymbolicBusInteraction { id: id as u64, mult, args });
    }
    /// One access to a cell: what was there is received, what is there now is sent.
    #[allow(clippy::too_many_arguments)]
    fn access(&mut self, on: &AE, names: [&'static str; 3], space: AE, addr: AE, old: AE, new: AE, ts: AE) {
        let [prev, lo, hi] = names.map(|s| self.col(s));
        self.zero(on.clone() * (ts.clone() - prev.clone() - n(1) - lo.clone() - n(4) * hi.clone()));
        self.bus(VARBITS, on.clone(), vec![lo, n(2)]);
        self.bus(VARBITS, on.clone(), vec![hi, n(1)]);
        self.bus(MEM, -on.clone(), vec![space.clone(), addr.clone(), old, prev]);
        self.bus(MEM, on.clone(), vec![space, addr, new, ts]);
    }
}
const T1: [&str; 3] = ["t1", "lo1", "hi1"];
const T2: [&str; 3] = ["t2", "lo2", "hi2"];
const T3: [&str; 3] = ["t3", "lo3", "hi3"];

fn alu() -> Air {
    let mut a = Air::default();
    let [pc, ts, rd, rs1, rs2, reg, r, b, c, add, sub, xor, old] =
        ["pc", "ts", "rd", "rs1", "rs2", "reg", "r", "b", "c", "add", "sub", "xor", "old"].map(|s| a.col(s));
    let on = add.clone() + sub.clone() + xor.clone();
    for e in [&add, &sub, &xor, &on, &reg] {
        a.bool(e);
    }
    let q = AlgebraicExpression::Number(F::new(1) / F::new(4));
    let carry = q.clone() * (b.clone() + c.clone() - r.clone());
    a.zero(add.clone() * carry.clone() * (carry - n(1)));
    let carry = q * (r.clone() + c.clone() - b.clone());
    a.zero(sub.clone() * carry.clone() * (carry - n(1)));
    a.zero((n(1) - reg.clone()) * (c.clone() - rs2.clone()));
    let not = n(1) - xor.clone();
    a.bus(
        XOR,
        on.clone(),
        vec![not.clone() * r.clone() + xor.clone() * b.clone(), not * r.clone() + xor.clone() * c.clone(), xor.clone() * r.clone()],
    );
    a.bus(PC, on.clone(), vec![pc.clone(), n(1) * add + n(2) * sub + n(3) * xor, rd.clone(), rs1.clone(), rs2.clone(), reg.clone()]);
    a.access(&on, T1, n(1), rs1, b.clone(), b, ts.clone());
    a.zero(reg.clone() * (n(1) - on.clone()));
    a.access(&reg, T2, n(1), rs2, c.clone(), c, ts.clone() + n(1));
    a.access(&on, T3, n(1), rd, old, r, ts.clone() + n(2));
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(EXEC, on, vec![pc + n(4), ts + n(3)]);
    a
}

fn branch() -> Air {
    let mut a = Air::default();
    let [pc, ts, rs1, rs2, off, x, y, eq, ne, cmp, inv] = ["pc", "ts", "rs1", "rs2", "off", "x", "y", "eq", "ne", "cmp", "inv"].map(|s| a.col(s));
    let on = eq.clone() + ne.clone();
    for e in [&eq, &ne, &on, &cmp] {
        a.bool(e);
    }
    let same = cmp.clone() * eq.clone() + (n(1) - cmp.clone()) * ne.clone();
    a.zero(same.clone() * (x.clone() - y.clone()));
    a.zero(on.clone() - same - (x.clone() - y.clone()) * inv);
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(PC, on.clone(), vec![pc.clone(), n(4) * eq + n(5) * ne, rs1.clone(), rs2.clone(), off.clone(), n(0)]);
    a.access(&on, T1, n(1), rs1, x.clone(), x, ts.clone());
    a.access(&on, T2, n(1), rs2, y.clone(), y, ts.clone() + n(1));
    a.bus(EXEC, on, vec![pc + cmp.clone() * off + (n(1) - cmp) * n(4), ts + n(2)]);
    a
}

fn load_store() -> Air {
    let mut a = Air::default();
    let [old, pc, ts, rd, rs1, imm, load, store, base, data] = ["old", "pc", "ts", "rd", "rs1", "imm", "load", "store", "base", "data"].map(|s| a.col(s));
    let on = load.clone() + store.clone();
    for e in [&load, &store, &on] {
        a.bool(e);
    }
    let ptr = base.clone() + imm.clone();
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(PC, on.clone(), vec![pc.clone(), n(6) * load.clone() + n(7) * store.clone(), rd.clone(), rs1.clone(), imm, n(0)]);
    a.access(&on, T1, n(1), rs1, base.clone(), base, ts.clone());
    let from = load.clone() * ptr.clone() + store.clone() * rd.clone();
    let to = load.clone() * rd + store.clone() * ptr;
    a.access(&on, T2, n(1) + load.clone(), from, data.clone(), data.clone(), ts.clone() + n(1));
    a.access(&on, T3, n(1) + store, to, old, data, ts.clone() + n(2));
    a.bus(EXEC, on, vec![pc + n(4), ts + n(3)]);
    a
}

fn less_than() -> Air {
    let mut a = Air::default();
    let [on, pc, ts, rd, rs1, rs2, x, y, lt, marker, diff, old] = ["on", "pc", "ts", "rd", "rs1", "rs2", "x", "y", "lt", "marker", "diff", "old"].map(|s| a.col(s));
    for e in [&on, &lt, &marker] {
        a.bool(e);
    }
    a.zero((n(1) - marker.clone()) * (x.clone() - y.clone()));
    a.zero((n(1) - marker.clone()) * lt.clone());
    a.zero(marker.clone() * (diff.clone() - (n(2) * lt.clone() - n(1)) * (y.clone() - x.clone())));
    a.bus(PAIR, marker, vec![diff - n(1), n(0)]);
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(PC, on.clone(), vec![pc.clone(), n(8), rd.clone(), rs1.clone(), rs2.clone(), n(1)]);
    a.access(&on, T1, n(1), rs1, x.clone(), x, ts.clone());
    a.access(&on, T2, n(1), rs2, y.clone(), y, ts.clone() + n(1));
    a.access(&on, T3, n(1), rd, old, lt, ts.clone() + n(2));
    a.bus(EXEC, on, vec![pc + n(4), ts + n(3)]);
    a
}

fn mul() -> Air {
    let mut a = Air::default();
    let [on, pc, ts, rd, rs1, rs2, x, y, lo, hi, old] = ["on", "pc", "ts", "rd", "rs1", "rs2", "x", "y", "lo", "hi", "old"].map(|s| a.col(s));
    a.bool(&on);
    a.zero(x.clone() * y.clone() - lo.clone() - n(4) * hi.clone());
    a.bus(PAIR, on.clone(), vec![lo.clone(), hi]);
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(PC, on.clone(), vec![pc.clone(), n(9), rd.clone(), rs1.clone(), rs2.clone(), n(1)]);
    a.access(&on, T1, n(1), rs1, x.clone(), x, ts.clone());
    a.access(&on, T2, n(1), rs2, y.clone(), y, ts.clone() + n(1));
    a.access(&on, T3, n(1), rd, old, lo, ts.clone() + n(2));
    a.bus(EXEC, on, vec![pc + n(4), ts + n(3)]);
    a
}

fn jal() -> Air {
    let mut a = Air::default();
    let [on, pc, ts, rd, off, val, old] = ["on", "pc", "ts", "rd", "off", "val", "old"].map(|s| a.col(s));
    a.bool(&on);
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(PC, on.clone(), vec![pc.clone(), n(10), rd.clone(), off.clone(), val.clone(), n(0)]);
    a.bus(VARBITS, on.clone(), vec![val.clone(), n(2)]);
    a.access(&on, T1, n(1), rd, old, val, ts.clone());
    a.bus(EXEC, on, vec![pc + off, ts + n(1)]);
    a
}

fn is_zero() -> Air {
    let mut a = Air::default();
    let [x, on, pc, ts, rd, rs1, z, inv, old] = ["x", "on", "pc", "ts", "rd", "rs1", "z", "inv", "old"].map(|s| a.col(s));
    a.bool(&on);
    a.bool(&z);
    a.zero(x.clone() * z.clone());
    a.zero(on.clone() * (x.clone() * inv + z.clone() - n(1)));
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(PC, on.clone(), vec![pc.clone(), n(11), rd.clone(), rs1.clone(), n(0), n(0)]);
    a.access(&on, T1, n(1), rs1, x.clone(), x, ts.clone());
    a.access(&on, T2, n(1), rd, old, z, ts.clone() + n(1));
    a.bus(EXEC, on, vec![pc + n(4), ts + n(2)]);
    a
}

fn wide() -> Air {
    let mut a = Air::default();
    let [on, pc, ts, rd, rs1, x0, x1, o0, o1, p, q] = ["on", "pc", "ts", "rd", "rs1", "x0", "x1", "o0", "o1", "p", "q"].map(|s| a.col(s));
    a.bool(&on);
    a.bus(EXEC, -on.clone(), vec![pc.clone(), ts.clone()]);
    a.bus(PC, on.clone(), vec![pc.clone(), n(13), rd.clone(), rs1.clone(), n(0), n(0)]);
    a.bus(MEM, -on.clone(), vec![n(3), rs1.clone(), x0.clone(), x1.clone(), p]);
    a.bus(MEM, on.clone(), vec![n(3), rs1, x0.clone(), x1.clone(), ts.clone()]);
    a.bus(MEM, -on.clone(), vec![n(3), rd.clone(), o0, o1, q]);
    a.bus(MEM, on.clone(), vec![n(3), rd, x1, x0, ts.clone() + n(1)]);
    a.bus(EXEC, on, vec![pc + n(4), ts + n(2)]);
    a
}

pub struct Airs(Vec<Air>);

impl Default for Airs {
    fn default() -> Self {
        Airs(vec![alu(), branch(), load_store(), less_than(), mul(), jal(), is_zero(), wide()])
    }
}
impl Airs {
    pub fn machine(&self, op: Op) -> &Machine {
        &self.0[air_id(op) as usize].m
    }
    pub fn names(&self, op: Op) -> &[&'static str] {
        &self.0[air_id(op) as usize].names
    }
}
impl InstructionHandler for Airs {
    type Field = F;
    type Instruction = Ins;
    type AirId = u8;
    fn degree_bound(&self) -> DegreeBound {
        DegreeBound { identities: 3, bus_interactions: 2 }
    }
    fn get_instruction_air_and_id(&self, i: &Ins) -> (u8, &Machine) {
        (air_id(i.op), self.machine(i.op))
    }
    fn get_instruction_air_stats(&self, i: &Ins) -> AirStats {
        AirStats::new(self.machine(i.op))
    }
}

// ---- the interpreter ----

pub type Cell = (u32, u32);
/// A tuple on a stateful bus and its multiplicity modulo P.
pub type Net = BTreeMap<(u32, Vec<u32>), u32>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct State {
    pub pc: u32,
    pub ts: u32,
    /// contents and time of the last access
    pub cells: BTreeMap<Cell, (u32, u32)>,
}

impl ExecutionState for State {
    type RegisterAddress = u32;
    type Value = u64;
    fn pc(&self) -> u64 {
        self.pc as u64
    }
    fn value_limb(value: u64, limb: usize) -> u64 {
        value >> (8 * limb) & 0xff
    }
    fn reg(&self, a: &u32) -> u64 {
        self.cells[&(1, *a)].0 as u64
    }
    fn global_clk(&self) -> usize {
        self.ts as usize
    }
}

fn sub_p(a: u32, b: u32) -> u32 {
    (a + P - b % P) % P
}
fn inverse(a: u32) -> u32 {
    (0..P).find(|i| i * a % P == 1).unwrap_or(0)
}

pub fn add_net(net: &mut Net, id: u32, tuple: Vec<u32>, mult: u32) {
    let e = net.entry((id, tuple)).or_insert(0);
    *e = (*e + mult) % P;
}

impl State {
    /// Executes one instruction: the values of its columns, or why it cannot be executed.
    pub fn step(&mut self, airs: &Airs, i: &Ins, net: &mut Net) -> Result<Vec<u32>, &'static str> {
        let mut cols: HashMap<&'static str, u32> = HashMap::new();
        let (pc, ts) = (self.pc, self.ts);
        cols.extend([("pc", pc), ("ts", ts), ("on", 1)]);
        let mut now = ts;
        let mut k = 0;
        let mut access = |s: &mut State, cols: &mut HashMap<&'static str, u32>, skip: bool, space: u32, addr: u32, new: Option<u32>| {
            let names = [T1, T2, T3][k];
            k += 1;
            let at = now % P;
            now += 1;
            if skip {
                cols.extend(names.map(|s| (s, 0)));
                return Ok(0);
            }
            let cell = (space, addr % P);
            let (old, prev) = *s.cells.get(&cell).ok_or("unknown cell")?;
            let d = sub_p(sub_p(at, prev), 1);
            if d >= 8 {
                return Err("accessed in the future");
            }
            cols.extend([(names[0], prev), (names[1], d % 4), (names[2], d / 4)]);
            let new = new.unwrap_or(old);
            add_net(net, MEM, vec![space, cell.1, old, prev], P - 1);
            add_net(net, MEM, vec![space, cell.1, new, at], 1);
            s.cells.insert(cell, (new, at));
            Ok(old)
        };
        let mut next = pc + 4;
        match i.op {
            Add | Sub | Xor => {
                let b = access(self, &mut cols, false, 1, i.b, None)?;
                let c = access(self, &mut cols, !i.reg, 1, i.c, None)?;
                let c = if i.reg { c } else { i.c };
                let r = match i.op {
                    Add => (b + c) % 4,
                    Sub => (b + 4 - c) % 4,
                    _ => b ^ c,
                };
                let old = access(self, &mut cols, false, 1, i.a, Some(r))?;
                cols.extend([("rd", i.a), ("rs1", i.b), ("rs2", i.c), ("reg", i.reg as u32), ("r", r), ("b", b), ("c", c), ("old", old)]);
                cols.extend([("add", (i.op == Add) as u32), ("sub", (i.op == Sub) as u32), ("xor", (i.op == Xor) as u32)]);
            }
            Beq | Bne => {
                let x = access(self, &mut cols, false, 1, i.a, None)?;
                let y = access(self, &mut cols, false, 1, i.b, None)?;
                let taken = (x == y) == (i.op == Beq);
                if taken {
                    next = pc + i.c;
                }
                cols.extend([("rs1", i.a), ("rs2", i.b), ("off", i.c), ("x", x), ("y", y), ("cmp", taken as u32), ("inv", inverse(sub_p(x, y)))]);
                cols.extend([("eq", (i.op == Beq) as u32), ("ne", (i.op == Bne) as u32)]);
            }
            Load => {
                let base = access(self, &mut cols, false, 1, i.b, None)?;
                let data = access(self, &mut cols, false, 2, base + i.c, None)?;
                let old = access(self, &mut cols, false, 1, i.a, Some(data))?;
                cols.extend([("base", base), ("data", data), ("old", old), ("load", 1), ("store", 0), ("rd", i.a), ("rs1", i.b), ("imm", i.c)]);
            }
            Store => {
                let base = access(self, &mut cols, false, 1, i.b, None)?;
                let data = access(self, &mut cols, false, 1, i.a, None)?;
                let old = access(self, &mut cols, false, 2, base + i.c, Some(data))?;
                cols.extend([("base", base), ("data", data), ("old", old), ("load", 0), ("store", 1), ("rd", i.a), ("rs1", i.b), ("imm", i.c)]);
            }
            Lt | Mul => {
                let x = access(self, &mut cols, false, 1, i.b, None)?;
                let y = access(self, &mut cols, false, 1, i.c, None)?;
                let r = if i.op == Lt { (x < y) as u32 } else { x * y % 4 };
                let old = access(self, &mut cols, false, 1, i.a, Some(r))?;
                cols.extend([("rd", i.a), ("rs1", i.b), ("rs2", i.c), ("x", x), ("y", y), ("old", old), ("lt", r), ("lo", r), ("hi", x * y / 4)]);
                cols.extend([("marker", (x != y) as u32), ("diff", x.max(y) - x.min(y))]);
            }
            Jal => {
                let old = access(self, &mut cols, false, 1, i.a, Some(i.c))?;
                next = pc + i.b;
                cols.extend([("rd", i.a), ("off", i.b), ("val", i.c), ("old", old)]);
            }
            IsZero => {
                let x = access(self, &mut cols, false, 1, i.b, None)?;
                let z = (x == 0) as u32;
                let old = access(self, &mut cols, false, 1, i.a, Some(z))?;
                cols.extend([("rd", i.a), ("rs1", i.b), ("x", x), ("z", z), ("inv", inverse(x)), ("old", old)]);
            }
            Wide | Halt => return Err("halt"),
        }
        self.pc = next % P;
        self.ts = now % P;
        add_net(net, EXEC, vec![pc, ts], P - 1);
        add_net(net, EXEC, vec![self.pc, self.ts], 1);
        Ok(airs.names(i.op).iter().map(|n| cols[n]).collect())
    }
    /// Executes instructions in sequence; they must be where the program counter is.
    pub fn run<'a>(&mut self, airs: &Airs, block: impl Iterator<Item = (u64, &'a Ins)>) -> Result<(Vec<Vec<u32>>, Net), &'static str> {
        let mut net = Net::new();
        let mut rows = vec![];
        for (pc, i) in block {
            if pc != self.pc as u64 {
                return Err("control went elsewhere");
            }
            rows.push(self.step(airs, i, &mut net)?);
        }
        net.retain(|_, m| *m != 0);
        Ok((rows, net))
    }
}

// ---- the adapter ----

/// The toy buses, with the knowledge that memory holds two-bit values.
#[derive(Clone)]
pub struct VmBuses(pub Toy);

impl Default for VmBuses {
    fn default() -> Self {
        VmBuses(Toy::new(P))
    }
}
impl VmBuses {
    fn memory(&self, b: &mut BusInteraction<RangeConstraint<F>>) {
        if b.bus_id.try_to_single_value() == Some(F::new(MEM as i64)) && b.multiplicity.try_to_single_value() == Some(F::new(-1)) {
            b.payload[2] = b.payload[2].conjunction(&RangeConstraint::from_mask(3u64));
        }
    }
}
impl BusInteractionHandler<F> for VmBuses {
    fn handle_bus_interaction(&self, b: BusInteraction<RangeConstraint<F>>) -> BusInteraction<RangeConstraint<F>> {
        let mut b = self.0.handle_bus_interaction(b);
        self.memory(&mut b);
        b
    }
    fn handle_bus_interaction_checked(&self, b: BusInteraction<RangeConstraint<F>>) -> Result<BusInteraction<RangeConstraint<F>>, ViolatesBusRules> {
        let mut b = self.0.handle_bus_interaction_checked(b)?;
        self.memory(&mut b);
        Ok(b)
    }
}
impl IsBusStateful<F> for VmBuses {
    fn is_stateful(&self, id: F) -> bool {
        self.0.is_stateful(id)
    }
}
impl RangeConstraintHandler<F> for VmBuses {
    fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(&self, b: &BusInteraction<GroupedExpression<F, V>>) -> Option<RangeConstraints<F, V>> {
        self.0.pure_range_constraints(b)
    }
    fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        rcs: RangeConstraints<F, V>,
    ) -> Result<Vec<BusInteraction<GroupedExpression<F, V>>>, MakeRangeConstraintsError> {
        self.0.batch_make_range_constraints(rcs)
    }
}

pub struct Code(pub u64, pub Vec<Ins>);
impl Program<Ins> for Code {
    fn base_pc(&self) -> u64 {
        self.0
    }
    fn instructions(&self) -> Box<dyn Iterator<Item = Ins> + '_> {
        Box::new(self.1.iter().copied())
    }
    fn length(&self) -> u32 {
        self.1.len() as u32
    }
}

pub struct Vm;
impl Adapter for Vm {
    type Field = F;
    type PowdrField = F;
    type InstructionHandler = Airs;
    type BusInteractionHandler = VmBuses;
    type Program = Code;
    type Instruction = Ins;
    type MemoryBusInteraction<V: Ord + Clone + Eq + Display + Hash> = OpenVmMemoryBusInteraction<F, V>;
    type CustomBusTypes = String;
    type ApcStats = ();
    type AirId = u8;
    type ExecutionState = State;
    fn into_field(e: F) -> F {
        e
    }
    fn from_field(e: F) -> F {
        e
    }
    fn apc_stats(_: Arc<AdapterApc<Self>>, _: &Airs) {}
    fn is_branching(i: &Ins) -> bool {
        matches!(i.op, Beq | Bne | Jal)
    }
    fn is_allowed(i: &Ins) -> bool {
        i.op != Halt
    }
}

pub type VmApc = AdapterApc<Vm>;

pub fn bus_map() -> BusMap<String> {
    let tables = (BIT..=AND).map(|id| (id as u64, BusType::Other(format!("table {id}"))));
    let machine = [
        (EXEC as u64, BusType::ExecutionBridge),
        (MEM as u64, BusType::Memory),
        (PC as u64, BusType::PcLookup),
    ];
    BusMap::from_id_type_pairs(machine.into_iter().chain(tables))
}
pub fn vm_config(airs: &Airs) -> AdapterVmConfig<'_, Vm> {
    VmConfig { instruction_handler: airs, bus_interaction_handler: VmBuses::default(), bus_map: bus_map() }
}

/// A trace of one AIR.
pub struct Rows {
    pub width: usize,
    pub values: Vec<F>,
}
impl TraceTrait<F> for Rows {
    type Values = Vec<F>;
    fn width(&self) -> usize {
        self.width
    }
    fn values(&self) -> &Vec<F> {
        &self.values
    }
}

// ---- exhaustive search for the assignments of a machine's columns ----

/// A polynomial modulo P over column indices.
#[derive(Clone, Debug, Default)]
pub struct Poly {
    pub terms: Vec<(u32, Vec<usize>)>,
}
impl Poly {
    pub fn of(e: &AE, index: &dyn Fn(u64) -> usize) -> Poly {
        #[derive(Clone)]
        struct M(BTreeMap<Vec<usize>, u32>);
        impl M {
            fn scale(mut self, k: u32) -> M {
                self.0.values_mut().for_each(|v| *v = *v * k % P);
                self
            }
        }
        impl std::ops::Add for M {
            type Output = M;
            fn add(mut self, o: M) -> M {
                for (k, v) in o.0 {
                    let e = self.0.entry(k).or_insert(0);
                    *e = (*e + v) % P;
                }
                self
            }
        }
        impl std::ops::Neg for M {
            type Output = M;
            fn neg(self) -> M {
                self.scale(P - 1)
            }
        }
        impl std::ops::Sub for M {
            type Output = M;
            fn sub(self, o: M) -> M {
                self + -o
            }
        }
        impl std::ops::Mul for M {
            type Output = M;
            fn mul(self, o: M) -> M {
                let mut r = M(BTreeMap::new());
                for (a, x) in &self.0 {
                    for (b, y) in &o.0 {
                        let mut k = a.clone();
                        k.extend(b);
                        k.sort();
                        let e = r.0.entry(k).or_insert(0);
                        *e = (*e + x * y) % P;
                    }
                }
                r
            }
        }
        let m: M = e.to_expression(&|c| M(BTreeMap::from([(vec![], c.val())])), &|r| M(BTreeMap::from([(vec![index(r.id)], 1)])));
        Poly { terms: m.0.into_iter().filter(|(_, c)| *c != 0).map(|(k, c)| (c, k)).collect() }
    }
    /// With a column fixed.
    pub fn with(&self, v: usize, x: u32) -> Poly {
        let mut t: BTreeMap<Vec<usize>, u32> = BTreeMap::new();
        for (c, m) in &self.terms {
            let k = m.iter().filter(|i| **i == v).fold(*c, |c, _| c * x % P);
            let e = t.entry(m.iter().copied().filter(|i| *i != v).collect()).or_insert(0);
            *e = (*e + k) % P;
        }
        Poly { terms: t.into_iter().filter(|(_, c)| *c != 0).map(|(k, c)| (c, k)).collect() }
    }
    pub fn eval(&self, a: &[u32]) -> u32 {
        self.terms.iter().fold(0, |s, (c, m)| (s + m.iter().fold(*c, |p, v| p * a[*v] % P)) % P)
    }
    pub fn vars(&self) -> BTreeSet<usize> {
        self.terms.iter().flat_map(|(_, m)| m.iter().copied()).collect()
    }
    pub fn degree(&self) -> usize {
        self.terms.iter().map(|(_, m)| m.len()).max().unwrap_or(0)
    }
    pub fn constant(&self) -> Option<u32> {
        self.vars().is_empty().then(|| self.eval(&[]))
    }
}

/// Something an assignment has to satisfy.
pub enum Rule {
    Zero(Poly),
    NonZero(Poly),
    Among(Poly, Vec<u32>),
    /// multiplicity, fields, table
    Lookup(Poly, Vec<Poly>, Rc<HashSet<Vec<u32>>>),
}
impl Rule {
    fn vars(&self) -> BTreeSet<usize> {
        match self {
            Rule::Zero(p) | Rule::NonZero(p) | Rule::Among(p, _) => p.vars(),
            Rule::Lookup(m, a, _) => a.iter().chain([m]).flat_map(|p| p.vars()).collect(),
        }
    }
    pub fn holds(&self, a: &[u32]) -> bool {
        match self {
            Rule::Zero(p) => p.eval(a) == 0,
            Rule::NonZero(p) => p.eval(a) != 0,
            Rule::Among(p, s) => s.contains(&p.eval(a)),
            Rule::Lookup(m, f, t) => m.eval(a) == 0 || t.contains(&f.iter().map(|p| p.eval(a)).collect::<Vec<_>>()),
        }
    }
    /// What is known about a single column from this rule alone.
    fn single(&self) -> Vec<(usize, Vec<u32>)> {
        let at = |p: &Poly, ok: &dyn Fn(u32) -> bool| {
            let v = p.vars();
            if v.len() != 1 {
                return None;
            }
            let v = *v.first().unwrap();
            let mut a = vec![0; v + 1];
            Some((
                v,
                (0..P)
                    .filter(|x| {
                        a[v] = *x;
                        ok(p.eval(&a))
                    })
                    .collect(),
            ))
        };
        match self {
            Rule::Zero(p) => at(p, &|x| x == 0).into_iter().collect(),
            Rule::NonZero(p) => at(p, &|x| x != 0).into_iter().collect(),
            Rule::Among(p, s) => at(p, &|x| s.contains(&x)).into_iter().collect(),
            Rule::Lookup(m, f, t) => {
                if m.constant().is_none_or(|c| c == 0) {
                    return vec![];
                }
                let used = |i: usize| t.iter().map(|r| r[i]).collect::<HashSet<_>>();
                f.iter().enumerate().filter_map(|(i, p)| {
                    let u = used(i);
                    at(p, &|x| u.contains(&x))
                }).collect()
            }
        }
    }
}

/// All assignments to `n` columns satisfying the rules, given to `found` until it
/// returns false. Returns the number of partial assignments visited.
pub fn search(n: usize, rules: &[Rule], found: &mut dyn FnMut(&[u32]) -> bool) -> u64 {
    let mut domain: Vec<Vec<u32>> = vec![(0..P).collect(); n];
    for r in rules {
        for (v, d) in r.single() {
            domain[v].retain(|x| d.contains(x));
        }
    }
    let mut open: Vec<(usize, BTreeSet<usize>)> = rules.iter().map(|r| r.vars()).enumerate().collect();
    if open.iter().any(|(i, v)| v.is_empty() && !rules[*i].holds(&[])) {
        return 1;
    }
    open.retain(|(_, v)| !v.is_empty());
    let mut left: BTreeSet<usize> = (0..n).collect();
    let mut order: Vec<(usize, Vec<usize>)> = vec![];
    while !left.is_empty() {
        let v = *left
            .iter()
            .min_by_key(|v| {
                let smallest = open.iter().filter(|(_, s)| s.contains(v)).map(|(_, s)| s.len()).min().unwrap_or(99);
                let size = if smallest == 1 { 2 } else { domain[**v].len() };
                (domain[**v].len() > 1, size.min(8), smallest, **v)
            })
            .unwrap();
        left.remove(&v);
        open.iter_mut().for_each(|(_, s)| {
            s.remove(&v);
        });
        let done = open.iter().filter(|(_, s)| s.is_empty()).map(|(i, _)| *i).collect();
        open.retain(|(_, s)| !s.is_empty());
        order.push((v, done));
    }
    fn go(d: usize, order: &[(usize, Vec<usize>)], domain: &[Vec<u32>], rules: &[Rule], a: &mut Vec<u32>, found: &mut dyn FnMut(&[u32]) -> bool, visited: &mut u64) -> bool {
        let Some((v, done)) = order.get(d) else { return found(a) };
        for x in &domain[*v] {
            a[*v] = *x;
            *visited += 1;
            if done.iter().all(|i| rules[*i].holds(a)) && !go(d + 1, order, domain, rules, a, found, visited) {
                return false;
            }
        }
        true
    }
    let mut visited = 0;
    go(0, &order, &domain, rules, &mut vec![0; n], found, &mut visited);
    visited
}
