//! C22: small RV32 images (code, relocations, data, symbols, line tables) through
//! the real loader; each statement is compared with the machine instructions it
//! stands for, executed by an interpreter written from the specification, and the
//! labels, data and debug information with what was put into the image.
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::{subsets, thorough, tuples, Check};
use mc_elf::lifted::*;
use mc_elf::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const TEXT: u32 = 0x10000;
const DATA: u32 = 0x20000;
const DYN: u64 = 0x30000;

/// Where something refers to.
#[derive(Clone, Copy, Debug)]
enum T {
    Insn(usize),
    At(u32),
}
use T::*;

#[derive(Clone, Copy, Debug)]
enum Item {
    W(u32),
    Lui(u32, T),
    Auipc(u32, T),
    /// immediate instruction with the lower part of what the previous item refers to
    Addi(u32, u32),
    Load(u32, u32, u32),
    Store(u32, u32, u32),
    Jalr(u32, u32),
    Jal(u32, T),
    Br(u32, u32, u32, T),
    CJ(u32, T),
    CB(u32, u32, T),
}
use Item::*;

fn len_of(w: u32) -> u32 {
    if w & 3 == 3 {
        4
    } else {
        2
    }
}

/// The machine words and their addresses, the end, and which LUIs are relocated.
struct Code {
    words: Vec<(u32, u32)>,
    end: u32,
    lui: Vec<u32>,
}

fn assemble(items: &[Item], base: u32) -> Code {
    let mut at = vec![];
    let mut a = base;
    for i in items {
        at.push(a);
        a += match i {
            W(w) => len_of(*w),
            CJ(..) | CB(..) => 2,
            _ => 4,
        };
    }
    let end = a;
    let target = |t: &T| match t {
        Insn(k) => *at.get(*k).unwrap_or(&end),
        At(x) => *x,
    };
    let mut words = vec![];
    let mut lui = vec![];
    for (k, i) in items.iter().enumerate() {
        let pc = at[k];
        let low = || match k.checked_sub(1).map(|p| &items[p]) {
            Some(Lui(_, t)) => lo12(target(t)),
            Some(Auipc(_, t)) => lo12(target(t).wrapping_sub(at[k - 1])),
            _ => 4,
        };
        let rel = |t: &T| target(t).wrapping_sub(pc) as i32;
        let w = match i {
            W(w) => *w,
            Lui(rd, t) => {
                if !matches!(t, At(x) if *x > 0x40000) {
                    lui.push(pc);
                }
                u_type(0x37, *rd, hi20(target(t)))
            }
            Auipc(rd, t) => u_type(0x17, *rd, hi20(target(t).wrapping_sub(pc))),
            Addi(rd, rs1) => addi(*rd, *rs1, low()),
            Item::Load(f3, rd, rs1) => i_type(*f3, 0x03, *rd, *rs1, low()),
            Item::Store(f3, rs2, rs1) => s_type(*f3, *rs2, *rs1, low()),
            Jalr(rd, rs1) => jalr(*rd, *rs1, low()),
            Jal(rd, t) => j_type(*rd, rel(t)),
            Br(f3, x, y, t) => b_type(*f3, *x, *y, rel(t)),
            CJ(f3, t) => c_jump(*f3, rel(t)),
            CB(f3, x, t) => c_branch(*f3, *x, rel(t)),
        };
        words.push((pc, w));
    }
    Code { words, end, lui }
}

fn bytes(words: &[(u32, u32)]) -> Vec<u8> {
    words.iter().flat_map(|(_, w)| w.to_le_bytes()[..len_of(*w) as usize].to_vec()).collect()
}

/// An instruction at an address.
type At32 = (u32, I, u32);

/// What has to be found by the loader.
struct Expect {
    /// text addresses referred to
    refs: BTreeSet<u32>,
    /// pairs that make up a reference to the text
    pairs: BTreeSet<u32>,
    /// the loader may refuse the image
    refuse: bool,
    /// refers to the inside of an instruction, or the last pair
    outside: bool,
}

fn expect(insns: &[At32], relocs: &BTreeSet<u32>, text: &[(u32, u32)], refs: BTreeSet<u32>) -> Expect {
    let in_text = |a: u32| text.iter().any(|(s, e)| (*s..*e).contains(&a));
    let touches_text = |a: u32| text.iter().any(|(s, e)| (*s..=*e).contains(&a));
    let (mut refs, mut refuse, mut pairs) = (refs, false, BTreeSet::new());
    let mut joined = BTreeSet::new();
    let mut k = 0;
    while k < insns.len() {
        let (pc, i, len) = insns[k];
        let second = insns.get(k + 1).filter(|(a, ..)| *a == pc + len);
        let mut pair = |v: u32, refs: &mut BTreeSet<u32>, joined: &mut BTreeSet<u32>| {
            refs.insert(v);
            joined.insert(pc + len);
            pairs.insert(pc);
        };
        match (i, second.map(|s| s.1)) {
            (I::Lui(rd, hi), Some(I::OpImm("add", rd2, rs1, lo))) if rs1 == rd => {
                let v = hi.wrapping_add(lo as u32);
                if relocs.contains(&pc) && in_text(v) && rd2 != 3 {
                    pair(v, &mut refs, &mut joined);
                    k += 1;
                } else if touches_text(v) && relocs.contains(&pc) {
                    // the end of the text may count as text
                    joined.insert(pc + len);
                    refuse = true;
                }
            }
            (I::Auipc(rd, hi), second) => {
                let base = pc.wrapping_add(hi);
                match second {
                    None | Some(I::Illegal) => {}
                    Some(I::OpImm("add", rd2, rs1, lo)) if rs1 == rd => {
                        let v = base.wrapping_add(lo as u32);
                        if in_text(v) && rd2 != 3 {
                            pair(v, &mut refs, &mut joined);
                            k += 1;
                        } else if touches_text(v) {
                            joined.insert(pc + len);
                            refuse = true;
                        }
                    }
                    Some(I::Load(_, rd2, rs1, lo)) if rs1 == rd && rd2 == rd => {
                        refuse |= touches_text(base.wrapping_add(lo as u32));
                    }
                    Some(I::Store(_, _, rs1, lo)) if rs1 == rd => {
                        refuse |= touches_text(base.wrapping_add(lo as u32));
                    }
                    Some(I::Jalr(rd2, rs1, lo)) if rs1 == rd && (rd2 == rd || rd2 == 0 && rd == 6) => {
                        let v = base.wrapping_add(lo as u32);
                        refuse |= v & 1 == 1;
                        pair(v, &mut refs, &mut joined);
                        k += 1;
                    }
                    _ => refuse = true,
                }
            }
            (I::Jal(_, o), _) | (I::Branch(_, _, _, o), _) => {
                refs.insert(pc.wrapping_add(o as u32));
            }
            (I::Jalr(_, _, o), _) => refuse |= o != 0,
            _ => {}
        }
        k += 1;
    }
    let starts: BTreeSet<u32> = insns.iter().map(|x| x.0).collect();
    let last = text.iter().map(|t| t.1).max().unwrap();
    refuse |= refs.iter().any(|r| joined.contains(r));
    // also: into the last pair, after which the code ends
    let outside = refs.iter().any(|r| !(starts.contains(r) || *r == last) || joined.contains(r) && starts.last() == Some(r));
    Expect { refs, pairs, refuse, outside }
}

fn register_files() -> Vec<[u32; 32]> {
    let f = |g: &dyn Fn(u32) -> u32| {
        let mut x = [0; 32];
        for (i, v) in x.iter_mut().enumerate() {
            *v = g(i as u32);
        }
        x
    };
    vec![
        f(&|_| 0),
        f(&|i| DATA + 8 * i),
        f(&|i| i.wrapping_mul(0x0101_0101)),
        f(&|_| u32::MAX),
        f(&|i| if i % 2 == 0 { 0x8000_0000 } else { 0x7fff_ffff }),
        f(&|i| if i % 3 == 0 { u32::MAX } else { 0x8000_0000 }),
        f(&|_| DATA + 16),
        f(&|i| i.wrapping_mul(0x9e37_79b1) ^ (i << 3)),
    ]
}

struct Ctx {
    c: Arc<Check>,
    files: Vec<[u32; 32]>,
}

/// The lifted statements with the addresses they stand for.
struct Mapped {
    /// address, index of the statement
    labels: BTreeMap<String, u32>,
    /// (first instruction, count, op, args)
    ops: Vec<(usize, usize, String, Args)>,
}

/// Lines in the line table number the instructions.
fn map(p: &Program, insns: &[At32]) -> Result<Mapped, String> {
    let mut labels = BTreeMap::new();
    let mut ops: Vec<(usize, usize, String, Args)> = vec![];
    let (mut pending, mut lines) = (vec![], vec![]);
    for s in &p.stmts {
        match s {
            Stmt::Label(l) => pending.push(l.clone()),
            Stmt::Loc(_, line, _) => lines.push(*line as usize),
            Stmt::Op(op, args) => {
                let args = args.clone().map_err(|e| format!("{op}: {e}"))?;
                let first = ops.last().map_or(0, |o| o.0 + o.1);
                let want: Vec<usize> = (first + 1..=first + lines.len()).collect();
                if lines != want || lines.is_empty() {
                    return Err(format!("{op} comes after the locations {lines:?}, the next instruction is {}", first + 1));
                }
                if first >= insns.len() {
                    return Err("too many statements".into());
                }
                for l in pending.drain(..) {
                    if labels.insert(l.clone(), insns[first].0).is_some() {
                        return Err(format!("label {l} defined twice"));
                    }
                }
                ops.push((first, lines.len(), op.clone(), args));
                lines.clear();
            }
        }
    }
    if ops.last().map_or(0, |o| o.0 + o.1) != insns.len() || !lines.is_empty() {
        return Err(format!("instructions without statement, locations left over: {lines:?}"));
    }
    let end = insns.last().map_or(0, |(a, _, l)| a + l);
    for l in pending {
        if labels.insert(l.clone(), end).is_some() {
            return Err(format!("label {l} defined twice"));
        }
    }
    Ok(Mapped { labels, ops })
}

impl Ctx {
    /// Compares the statements with the instructions. `text`: the segments;
    /// `more`: text addresses referred to from elsewhere.
    fn code(&self, img: &Image, insns: &[At32], relocs: &BTreeSet<u32>, more: BTreeSet<u32>, show: &dyn Fn() -> String) {
        let c = &self.c;
        let text: Vec<(u32, u32)> = img.segments.iter().filter(|s| s.exec).map(|s| (s.addr as u32, (s.addr + s.size) as u32)).collect();
        let e = expect(insns, relocs, &text, more);
        // hints: the upper part is written to x0
        if e.outside || insns.iter().any(|x| matches!(x.1, I::Auipc(0, _) | I::Lui(0, _))) {
            return;
        }
        c.eval(1);
        let p = match load(&img.build()) {
            Ok(p) => p,
            Err(err) => {
                if !e.refuse {
                    c.violation("refused", format!("{}: {err}", show()));
                }
                c.count("refused", 1);
                return;
            }
        };
        let m = match map(&p, insns) {
            Ok(m) => m,
            Err(err) => {
                c.violation("statements", format!("{}: {err}", show()));
                return;
            }
        };
        if let Some(r) = e.refs.iter().find(|r| !p.text_labels.contains(r)) {
            c.violation("missing label", format!("{}: {r:x} is referred to but has no label", show()));
        }
        let at: BTreeSet<u32> = m.labels.values().copied().collect();
        if at != p.text_labels {
            c.violation("label at wrong place", format!("{}: labels at {at:x?} for {:x?}", show(), p.text_labels));
        }
        if m.labels.get(&p.start) != Some(&(img.entry as u32)) {
            c.violation("start", format!("{}: starts at {}", show(), p.start));
        }
        // each statement from each state
        for (first, n, op, args) in &m.ops {
            c.states(1);
            let part = &insns[*first..first + n];
            let next = part[n - 1].0 + part[n - 1].2;
            if *n > 1 {
                c.nontrivial(1);
            }
            if op == "li" && e.pairs.contains(&part[0].0) {
                c.violation("text address as number", format!("{}: {op} {args:x?} at {:x}", show(), part[0].0));
            }
            for x in &self.files {
                c.transitions(1);
                let mut s = State::new(*x);
                let mut calls = vec![];
                let mut exit = Exit::To(part[0].0);
                for (pc, i, len) in part {
                    if exit != Exit::To(*pc) {
                        break;
                    }
                    exit = mc_elf::step(&mut s, *i, *pc, *len, &mut calls);
                }
                let mut s2 = State::new(*x);
                let mut calls2 = vec![];
                let unknown = std::cell::RefCell::new(None);
                let label = |l: &str| match m.labels.get(l) {
                    Some(a) => *a,
                    None => {
                        *unknown.borrow_mut() = Some(l.to_string());
                        0
                    }
                };
                let exit2 = mc_elf::lifted::step(&mut s2, op, args, next, &label, &mut calls2);
                // the upper part of an address may be left out, and x6 of tail calls
                match (op.as_str(), part[0].1) {
                    ("la", I::Auipc(r, _) | I::Lui(r, _)) if matches!(part.get(1), Some((_, I::OpImm(_, rd, _, _), _)) if *rd != r) => s2.x[r as usize] = s.x[r as usize],
                    ("tail", _) => s2.x[6] = s.x[6],
                    _ => {}
                }
                if let Some(l) = unknown.into_inner() {
                    c.violation("undefined label", format!("{}: {l}", show()));
                    break;
                }
                if (&s, &exit, &calls) != (&s2, &exit2, &calls2) {
                    let regs: Vec<_> = (0..32).filter(|r| s.x[*r] != s2.x[*r]).map(|r| format!("x{r} is {:x} instead of {:x}", s2.x[r], s.x[r])).collect();
                    c.violation(
                        "behaviour",
                        format!("{}: {part:x?} became {op} {args:x?}: {regs:?} then {exit2:x?} instead of {exit:x?}, memory {:x?} instead of {:x?}, calls {} instead of {}", show(), s2.mem, s.mem, calls2.len(), calls.len()),
                    );
                    break;
                }
            }
        }
    }

    /// A program with pointers to the instructions of `ptrs` in its data.
    fn program(&self, items: &[Item], pie: bool, ptrs: &[usize], base: u32) {
        let code = assemble(items, base);
        let insns: Option<Vec<At32>> = code.words.iter().map(|(a, w)| decode(*w).map(|(i, l)| (*a, i, l))).collect();
        let Some(insns) = insns else { return };
        let addr = |k: usize| code.words.get(k).map_or(code.end, |w| w.0);
        let mut img = image(&code, pie);
        let mut data = vec![];
        let mut more = BTreeSet::from([base]);
        for (j, k) in ptrs.iter().enumerate() {
            let at = DATA as u64 + 4 * j as u64;
            data.extend(addr(*k).to_le_bytes());
            if pie {
                img.relative.push((at, addr(*k) as u64));
            } else {
                img.relocs.push((at, WORD));
            }
            more.insert(addr(*k));
        }
        data.extend([1, 2, 3, 4]);
        img.segments.push(Seg::data(DATA as u64, data));
        let relocs: BTreeSet<u32> = if pie { BTreeSet::new() } else { code.lui.iter().copied().collect() };
        self.code(&img, &insns, &relocs, more, &|| format!("{items:x?} at {base:x} pie {pie} pointers to {ptrs:?}"));
    }
}

fn line_table(words: &[(u32, u32)]) -> Dwarf {
    Dwarf {
        version: 4,
        dir: "/d".into(),
        files: vec![(0, "f.rs".into())],
        rows: words.iter().enumerate().map(|(k, (a, _))| (*a, 1, k as u32 + 1, 0, 0)).collect(),
        ..Default::default()
    }
}

fn image(code: &Code, pie: bool) -> Image {
    let base = code.words[0].0;
    Image {
        pie,
        entry: base as u64,
        segments: vec![Seg::text(base as u64, bytes(&code.words))],
        symbols: vec![("start".into(), base as u64, 2)],
        relocs: if pie { vec![] } else { code.lui.iter().map(|a| (*a as u64, HI20)).chain([(base as u64, BRANCH)]).collect() },
        dynamic_at: DYN,
        units: vec![line_table(&code.words)],
        ..Default::default()
    }
}

/// Instructions that take part in pairs, or look like it.
fn alphabet() -> Vec<Item> {
    let ecall = 0x73;
    let mut v = vec![];
    for t in [Insn(0), Insn(2), Insn(3), At(DATA), At(DATA + 0x804), At(0x1234_5fff)] {
        v.push(Lui(10, t));
        v.push(Auipc(10, t));
    }
    v.extend([Lui(5, At(DATA)), Lui(3, Insn(1)), Auipc(3, Insn(1)), Auipc(5, At(DATA)), Lui(5, Insn(2))]);
    v.extend([Auipc(1, Insn(0)), Auipc(1, Insn(3)), Auipc(6, Insn(0)), Auipc(6, Insn(2)), Auipc(7, Insn(3))]);
    v.extend([Addi(10, 10), Addi(11, 10), Addi(10, 11), Addi(5, 5), Addi(3, 3), Addi(3, 10), Addi(5, 10)]);
    v.extend([Item::Load(2, 10, 10), Item::Load(0, 10, 10), Item::Load(5, 10, 10), Item::Load(2, 11, 10), Item::Load(2, 10, 11), Item::Load(1, 5, 5)]);
    v.extend([Item::Store(2, 11, 10), Item::Store(0, 10, 10), Item::Store(1, 10, 11)]);
    v.extend([Jalr(1, 1), Jalr(0, 6), Jalr(10, 10), Jalr(0, 1), Jalr(1, 6), Jalr(7, 7), W(jalr(0, 1, 0)), W(jalr(1, 10, 0)), W(0x8082), W(0x9502)]);
    for k in [1, 2, 9, 15, 0, 16, -1, 257] {
        v.push(W(addi(5, 0, k)));
    }
    v.extend([W(addi(5, 0, 3)), W(addi(10, 0, 1)), W(addi(5, 10, 1)), W(c_li(5, 1)), W(c_li(5, 9)), W(c_li(5, 16)), W(c_li(5, -1)), W(c_li(10, 1))]);
    v.extend([W(ecall), W(0x0010_0073), W(0xc000_1073), W(0), W(0x0ff0_000f)]);
    v.extend([W(c_lui(10, 5)), W(c_lui(10, -1)), W(c_addi(10, 5)), W(c_addi(10, -3)), W(c_addi(5, 1))]);
    for t in [Insn(0), Insn(1), Insn(2), Insn(3)] {
        v.extend([Jal(1, t), CJ(5, t)]);
    }
    v.extend([Jal(0, Insn(1)), CJ(1, Insn(1)), Br(0, 10, 11, Insn(1)), Br(6, 10, 11, Insn(0)), Br(5, 5, 0, Insn(2)), CB(6, 10, Insn(1)), CB(7, 8, Insn(2))]);
    v.extend([W(r_type(0, 0, 0x33, 10, 10, 11)), W(r_type(1, 4, 0x33, 10, 10, 11)), W(i_type(2, 0x03, 10, 5, -4)), W(s_type(2, 10, 5, 8)), W(1)]);
    v
}

fn sequences(x: &Ctx) {
    let c = &x.c;
    let all = alphabet();
    c.count("instructions in the alphabet", all.len() as u64);
    c.batch("pairs", || {
        let pairs: Vec<Vec<usize>> = tuples(all.len(), 2).collect();
        pairs.par_iter().for_each(|p| {
            let items = [all[p[0]], all[p[1]], W(0x9002)];
            for pie in [false, true] {
                for ptrs in [&[][..], &[1], &[2], &[0, 1, 2]] {
                    if !c.violated() {
                        x.program(&items, pie, ptrs, TEXT);
                    }
                }
                // other positions: not a multiple of four, and around 2^31
                x.program(&[W(1), all[p[0]], all[p[1]]], pie, &[], TEXT);
                x.program(&[all[p[0]], all[p[1]], W(0x0010_0073)], pie, &[2], 0x7fff_fffc);
            }
        });
    });
    c.batch("triples", || {
        let deep = thorough();
        let triples: Vec<Vec<usize>> = tuples(all.len(), 3).collect();
        triples.par_iter().for_each(|t| {
            let items = [all[t[0]], all[t[1]], all[t[2]]];
            // one of the first two should start a pair, otherwise nothing new
            let starts = |i: &Item| matches!(i, Lui(..) | Auipc(..)) || matches!(i, W(w) if matches!(decode(*w), Some((I::OpImm("add", 5, 0, _), _)))) || matches!(i, W(w) if matches!(decode(*w), Some((I::Lui(..), _))));
            if c.violated() || !deep && !(starts(&items[0]) && starts(&items[1])) || !deep && (t[0] + t[1] + t[2]) % 1 != 0 {
                return;
            }
            for pie in [false, true] {
                let ptrs: &[&[usize]] = if deep { &[&[], &[1], &[2]] } else { &[&[], &[2]] };
                for q in ptrs {
                    x.program(&items, pie, q, TEXT);
                }
            }
        });
    });
}

/// Each encoding by itself; what it jumps to gets a segment of its own.
fn single(x: &Ctx, w: u32, base: u32) {
    let Some((i, len)) = decode(w) else { return };
    if matches!(i, I::Lui(0, _) | I::Auipc(0, _)) {
        return;
    }
    let stop = 0x9002u32;
    let mut segs = vec![vec![(base, w), (base + len, stop)]];
    if let I::Auipc(..) = i {
        segs[0][1].1 = 0;
    }
    let end = base + len + 2;
    if let I::Jal(_, o) | I::Branch(_, _, _, o) = i {
        let t = base.wrapping_add(o as u32);
        if t > end || t < base - 1 {
            segs.push(vec![(t, stop)]);
        }
    }
    segs.sort();
    let words: Vec<(u32, u32)> = segs.concat();
    let insns: Vec<At32> = words.iter().map(|(a, w)| decode(*w).map(|(i, l)| (*a, i, l)).unwrap()).collect();
    let mut img = Image {
        entry: base as u64,
        segments: segs.iter().map(|s| Seg::text(s[0].0 as u64, bytes(s))).collect(),
        symbols: vec![("start".into(), base as u64, 2)],
        relocs: vec![(base as u64, BRANCH)],
        units: vec![line_table(&words)],
        ..Default::default()
    };
    img.segments.rotate_left(1);
    x.code(&img, &insns, &BTreeSet::new(), BTreeSet::from([base]), &|| format!("{w:08x} {i:x?} at {base:x}"));
}

fn encodings(x: &Ctx) {
    let c = &x.c;
    c.batch("16 bit encodings", || {
        (0..0x1_0000u32).into_par_iter().filter(|w| w & 3 != 3).for_each(|w| {
            if !c.violated() {
                single(x, w, TEXT);
            }
        });
    });
    c.batch("32 bit encodings", || {
        let regs = [0, 1, 2, 5, 6, 8, 10, 15, 16, 31];
        let few = [0, 5, 10, 31];
        let mut imms = vec![-2048, -2047, -1365, -1024, -5, -4, -2, -1, 0, 1365, 2047];
        imms.extend((0..11).map(|k| 1 << k));
        let mut ws = vec![];
        for f3 in 0..8 {
            for &rs1 in &few {
                for &imm in &imms {
                    for &r in &few {
                        ws.push(i_type(f3, 0x13, r, rs1, imm));
                        ws.push(i_type(f3, 0x03, r, rs1, imm));
                        ws.push(s_type(f3, r, rs1, imm));
                        ws.push(jalr(r, rs1, imm));
                    }
                }
            }
            for sh in 0..32 {
                for f7 in [0, 0x20] {
                    ws.push(i_type(f3, 0x13, 10, 11, sh | f7 << 5));
                }
            }
            for f7 in [0, 1, 0x20] {
                for &rd in &regs {
                    for &rs1 in &regs {
                        for &rs2 in &regs {
                            ws.push(r_type(f7, f3, 0x33, rd, rs1, rs2));
                        }
                    }
                }
            }
            for imm in (1..13).map(|k| 1i32 << k).chain((1..13).map(|k| -(1i32 << k))).chain([0, 6, -6, 2730, -2730, 4094]) {
                for (a, b) in [(0, 0), (5, 10), (10, 5), (31, 1)] {
                    ws.push(b_type(f3, a, b, imm));
                }
            }
            ws.push(i_type(f3, 0x0f, 0, 0, 0xff));
        }
        for k in 0..32 {
            for &rd in &few {
                for &rs1 in &few {
                    for &rs2 in &few {
                        for aqrl in 0..4 {
                            ws.push(r_type(k << 2 | aqrl, 2, 0x2f, rd, rs1, rs2));
                        }
                    }
                }
            }
        }
        for rd in [1, 5, 6, 10, 31] {
            for k in 12..32 {
                ws.extend([u_type(0x37, rd, 1 << k), u_type(0x17, rd, 1 << k), u_type(0x37, rd, !(1u32 << k)), u_type(0x17, rd, !(1u32 << k))]);
            }
            ws.extend([u_type(0x37, rd, 0), u_type(0x17, rd, 0)]);
        }
        for rd in [0, 1, 5, 31] {
            for k in 1..20 {
                ws.extend([j_type(rd, 1 << k), j_type(rd, -(1 << k)), j_type(rd, (1 << k) - 2), j_type(rd, 2 - (1 << k))]);
            }
            ws.push(j_type(rd, -(1 << 20)));
        }
        ws.sort();
        ws.dedup();
        c.count("32 bit encodings", ws.len() as u64);
        ws.par_iter().for_each(|w| {
            if !c.violated() {
                single(x, *w, 0x0100_0000);
                if matches!(w & 0x7f, 0x6f | 0x63 | 0x17) {
                    single(x, *w, 0x8000_0000);
                }
            }
        });
    });
}

/// Contents, relocations, and names of data.
fn data(x: &Ctx) {
    let c = &x.c;
    c.batch("data", || {
        // text: c.nop, c.nop, ebreak
        let words = [(TEXT, 1u32), (TEXT + 2, 0x0000_0013), (TEXT + 6, 0x9002)];
        let contents = [0, 1, TEXT, TEXT + 2, TEXT + 6, DATA + 4, 0xffff_ffff, 0x8000_0000];
        let all: Vec<Vec<u32>> = (0..=3).flat_map(|n| tuples(contents.len(), n).map(|t| t.iter().map(|k| contents[*k]).collect())).collect();
        all.par_iter().for_each(|ws| {
            for relocated in subsets(ws.len(), ws.len()) {
                for pie in [false, true] {
                    for tail in 0..4usize {
                        for (second, bss) in [(false, 0), (true, 8)] {
                            if c.violated() {
                                return;
                            }
                            // the linker keeps no relocation for a zero word
                            if !pie && relocated.iter().any(|k| ws[*k] == 0) || tail > 0 && ws.len() > 2 {
                                continue;
                            }
                            c.eval(1);
                            let mut d: Vec<u8> = vec![];
                            for (k, w) in ws.iter().enumerate() {
                                // the loader does not look at what is relocated
                                let v = if pie && relocated.contains(&k) { 0xdead_0000 } else { *w };
                                d.extend(v.to_le_bytes());
                            }
                            d.extend(&[0xaa, 0, 0xcc][..tail]);
                            let mut img = Image {
                                pie,
                                entry: TEXT as u64,
                                segments: vec![Seg::text(TEXT as u64, bytes(&words)), Seg::data(DATA as u64, d.clone())],
                                symbols: vec![("start".into(), TEXT as u64, 2), ("two".into(), TEXT as u64 + 2, 2), ("var".into(), DATA as u64 + 4, 1)],
                                relocs: if pie { vec![] } else { vec![(TEXT as u64, BRANCH)] },
                                dynamic_at: DYN,
                                ..Default::default()
                            };
                            img.segments[1].size += bss;
                            let mut want: BTreeMap<u32, Value> = BTreeMap::new();
                            let mut refs = BTreeSet::from([TEXT]);
                            for (k, ch) in d.chunks(4).enumerate() {
                                let mut v = 0;
                                for (i, b) in ch.iter().enumerate() {
                                    v |= (*b as u32) << (8 * i);
                                }
                                want.insert(DATA + 4 * k as u32, Value::Number(v));
                            }
                            for k in &relocated {
                                let at = DATA + 4 * *k as u32;
                                if pie {
                                    img.relative.push((at as u64, ws[*k] as u64));
                                } else {
                                    img.relocs.push((at as u64, WORD));
                                }
                                let l = match ws[*k] {
                                    TEXT => Value::Label("start".into()),
                                    v if v == TEXT + 2 => Value::Label("two".into()),
                                    v if v == TEXT + 6 => Value::Label(String::new()),
                                    v => Value::Number(v),
                                };
                                if let Value::Label(_) = l {
                                    refs.insert(ws[*k]);
                                }
                                want.insert(at, l);
                            }
                            if second {
                                img.segments.insert(0, Seg::data(0x8000, vec![1, 2, 3, 4, 5, 6]));
                                img.segments.push(Seg { kind: 0x6000_00da, addr: 0x4_0000, size: 0x100, ..Default::default() });
                                want.insert(0x8000, Value::Number(0x0403_0201));
                                want.insert(0x8004, Value::Number(0x0605));
                            }
                            let show = || format!("{ws:x?} + {tail} relocated {relocated:?} pie {pie}");
                            let p = match load(&img.build()) {
                                Ok(p) => p,
                                Err(e) => {
                                    c.violation("data refused", format!("{}: {e}", show()));
                                    return;
                                }
                            };
                            c.states(1);
                            if !relocated.is_empty() {
                                c.nontrivial(1);
                            }
                            let mut got = BTreeMap::new();
                            for (name, a, v) in &p.memory {
                                if *a >= DYN as u32 {
                                    continue;
                                }
                                if got.insert(*a, v.clone()).is_some() {
                                    c.violation("data", format!("{}: {a:x} twice", show()));
                                }
                                if (*name == Some("var".to_string())) != (*a == DATA + 4) || name.is_some() && *a != DATA + 4 {
                                    c.violation("name of data", format!("{}: {a:x} is called {name:?}", show()));
                                }
                            }
                            // the default label of the third instruction
                            let third = p.stmts.iter().rposition(|s| matches!(s, Stmt::Op(..))).and_then(|k| match p.stmts.get(k.wrapping_sub(1)) {
                                Some(Stmt::Label(l)) => Some(l.clone()),
                                _ => None,
                            });
                            want.retain(|_, v| *v != Value::Number(0));
                            got.retain(|_, v| *v != Value::Number(0));
                            for v in want.values_mut() {
                                if *v == Value::Label(String::new()) {
                                    *v = Value::Label(third.clone().unwrap_or_default());
                                }
                            }
                            if want != got {
                                c.violation("data", format!("{}: {got:x?} instead of {want:x?}", show()));
                            }
                            if p.text_labels != refs {
                                c.violation("labels for data", format!("{}: {:x?} instead of {refs:x?}", show(), p.text_labels));
                            }
                            if p.prover != if second { (0x4_0000, 0x4_0100) } else { (0, 0) } {
                                c.violation("prover data", format!("{:x?}", p.prover));
                            }
                        }
                    }
                }
            }
        });
    });
}

/// Names of addresses: labels have to be unique, and stand for their address.
fn names(x: &Ctx) {
    let c = &x.c;
    c.batch("names", || {
        let words = [(TEXT, 1u32), (TEXT + 2, 1), (TEXT + 4, 0x9002)];
        let ns = ["a", "b", "a_00010000", "a_00010002", "a_00010000_00010002", ""];
        let mut syms: Vec<Sym> = vec![];
        for n in ns {
            for a in 0..3u64 {
                syms.push((n.to_string(), TEXT as u64 + 2 * a, 2));
            }
        }
        syms.push(("a".into(), DATA as u64, 1));
        syms.push(("a".into(), TEXT as u64, 0)); // neither function nor object
        let sets: Vec<Vec<usize>> = (0..=mc_core::tier(4, 5)).flat_map(|n| subsets(syms.len(), n).into_iter().filter(move |s| s.len() == n)).collect();
        sets.par_iter().for_each(|set| {
            for dwarf in [false, true] {
                if c.violated() {
                    return;
                }
                c.eval(1);
                c.states(1);
                let mut img = Image {
                    entry: TEXT as u64,
                    segments: vec![Seg::text(TEXT as u64, bytes(&words)), Seg::data(DATA as u64, vec![4, 0, 1, 0, 2, 0, 1, 0])],
                    symbols: set.iter().map(|k| syms[*k].clone()).collect(),
                    relocs: vec![(DATA as u64, WORD), (DATA as u64 + 4, WORD)],
                    ..Default::default()
                };
                let show = || format!("{:x?} dwarf {dwarf}", set.iter().map(|k| &syms[*k]).collect::<Vec<_>>());
                let mut here: Vec<(String, u32)> = set.iter().map(|k| &syms[*k]).filter(|s| s.2 != 0 && !s.0.is_empty()).map(|s| (s.0.clone(), s.1 as u32)).collect();
                if dwarf {
                    let mut d = line_table(&words);
                    d.functions = vec![(Some("a".into()), TEXT), (Some("d".into()), TEXT + 2), (None, TEXT + 4), (Some("far".into()), TEXT + 1)];
                    img.units = vec![d];
                    here.extend([("a".to_string(), TEXT), ("d".to_string(), TEXT + 2)]);
                }
                here.sort();
                here.dedup();
                let p = match load(&img.build()) {
                    Ok(p) => p,
                    Err(e) => {
                        c.violation("names refused", format!("{}: {e}", show()));
                        return;
                    }
                };
                // labels by address
                let mut got: BTreeMap<u32, Vec<String>> = BTreeMap::new();
                let mut k = 0;
                for s in &p.stmts {
                    match s {
                        Stmt::Label(l) => got.entry(words[k].0).or_default().push(l.clone()),
                        Stmt::Op(..) => k += 1,
                        _ => {}
                    }
                }
                let flat: Vec<&String> = got.values().flatten().collect();
                if flat.iter().collect::<BTreeSet<_>>().len() != flat.len() {
                    c.violation("label defined twice", format!("{}: {got:?}", show()));
                }
                let table: Vec<&String> = p.symbols.values().flatten().collect();
                if table.iter().collect::<BTreeSet<_>>().len() != table.len() {
                    c.violation("name used twice", format!("{}: {:?}", show(), p.symbols));
                }
                for (a, _) in &words {
                    let mine: Vec<&(String, u32)> = here.iter().filter(|s| s.1 == *a).collect();
                    let labels = got.get(a).cloned().unwrap_or_default();
                    // a name that belongs to one address stays; all begin with a name of the address
                    let ok = if mine.is_empty() {
                        labels == [format!("__.L{a:08x}")]
                    } else {
                        let of = |l: &str, n: &str| l == n || l.strip_prefix(n).is_some_and(|r| r.starts_with('_'));
                        labels.iter().all(|l| mine.iter().any(|(n, _)| of(l, n)))
                            && mine.iter().all(|(n, _)| {
                                let once = here.iter().filter(|s| s.0 == *n).count() == 1 && !here.iter().any(|s| s.0 != *n && of(n, &s.0));
                                labels.iter().any(|l| if once { l == n } else { of(l, n) })
                            })
                    };
                    if !ok {
                        c.violation("names of an address", format!("{}: {a:x} is called {labels:?}", show()));
                    }
                }
                if got.get(&TEXT).is_none_or(|l| !l.contains(&p.start)) {
                    c.violation("start", format!("{}: {}", show(), p.start));
                }
                let refer = |a: u32| p.memory.iter().find(|m| m.1 == a).map(|m| m.2.clone());
                for (a, t) in [(DATA, TEXT + 4), (DATA + 4, TEXT + 2)] {
                    if !matches!(refer(a), Some(Value::Label(l)) if got[&t].contains(&l)) {
                        c.violation("reference to a name", format!("{}: {a:x} is {:?}", show(), refer(a)));
                    }
                }
            }
        });
    });
}

/// Line tables: files, positions, and what lies outside the code.
fn lines(x: &Ctx) {
    let c = &x.c;
    c.batch("lines", || {
        // a pair in the middle
        let words = [(TEXT, 1u32), (TEXT + 2, u_type(0x37, 10, 0x12345000)), (TEXT + 6, addi(10, 10, 1)), (TEXT + 10, 0x9002)];
        let addrs = [TEXT, TEXT + 2, TEXT + 6, TEXT + 10, 0, 4, DATA, DATA + 0x1000, 0x8000, TEXT + 12, 0x14000, 0x18000];
        // row: address, file, flags
        let mut rows = vec![];
        for a in addrs {
            rows.push((a, 0usize, 0u8));
        }
        rows.extend([(TEXT, 1, 0), (TEXT + 6, 1, 1), (TEXT + 2, 2, 0)]);
        let lists: Vec<Vec<usize>> = (0..=mc_core::tier(3, 4)).flat_map(|n| tuples(rows.len(), n)).collect();
        lists.par_iter().for_each(|list| {
            for (version, units) in [(4u16, 1), (5, 1), (4, 2), (5, 2)] {
                for data_first in [false, true] {
                    if c.violated() {
                        return;
                    }
                    c.eval(1);
                    c.states(1);
                    let unit = |u: usize, v: u16, part: &[usize]| Dwarf {
                        version: v,
                        dir: format!("/u{u}"),
                        dirs: vec!["sub".into(), "/abs".into()],
                        files: vec![(0, format!("a{u}.rs")), (1, format!("b{u}.rs")), (2, format!("c{u}.rs"))],
                        rows: part.iter().enumerate().map(|(k, r)| (rows[*r].0, rows[*r].1 as u32 + (v < 5) as u32, 10 + u as u32 * 100 + k as u32, 7, rows[*r].2)).collect(),
                        functions: vec![],
                        variables: vec![],
                    };
                    let cut = if units == 2 { list.len() / 2 } else { list.len() };
                    let mut us = vec![unit(0, version, &list[..cut])];
                    if units == 2 {
                        us.push(unit(1, 9 - version, &list[cut..]));
                    }
                    let mut img = Image {
                        entry: TEXT as u64,
                        segments: vec![Seg::text(TEXT as u64, bytes(&words)), Seg::text(0x18000, bytes(&[(0x18000, 0x9002)])), Seg::data(DATA as u64, vec![1; 8])],
                        relocs: vec![(TEXT as u64, BRANCH)],
                        units: us,
                        ..Default::default()
                    };
                    if data_first {
                        img.segments.push(Seg::data(0, vec![1; 8]));
                        img.segments.push(Seg::data(0x8000, vec![1; 8]));
                    }
                    let show = || format!("rows {:x?} version {version} units {units} data first {data_first}", list.iter().map(|k| rows[*k]).collect::<Vec<_>>());
                    let p = match load(&img.build()) {
                        Ok(p) => p,
                        Err(e) => {
                            c.violation("lines refused", format!("{}: {e}", show()));
                            return;
                        }
                    };
                    // position (statement) -> what is said there
                    let place = |a: u32| match a {
                        TEXT => Some(0),
                        x if x == TEXT + 2 || x == TEXT + 6 => Some(1),
                        x if x == TEXT + 10 => Some(2),
                        0x18000 => Some(3),
                        _ => None,
                    };
                    let (mut want, mut may) = (vec![], vec![]);
                    for (k, r) in list.iter().enumerate() {
                        let (u, k) = if k < cut { (0, k) } else { (1, k - cut) };
                        let (dir, file) = [(format!("/u{u}"), format!("a{u}.rs")), (format!("/u{u}/sub"), format!("b{u}.rs")), ("/abs".into(), format!("c{u}.rs"))][rows[*r].1].clone();
                        if let Some(at) = place(rows[*r].0) {
                            let e = (at, 10 + u as u64 * 100 + k as u64, dir, file);
                            // rows that end a prologue may be left out
                            if rows[*r].2 == 0 {
                                want.push(e.clone());
                            }
                            may.push(e);
                        }
                    }
                    let mut got = vec![];
                    let mut k = 0;
                    for s in &p.stmts {
                        match s {
                            Stmt::Loc(f, l, _) => {
                                let file = p.files.iter().find(|x| x.0 as u64 == *f).map(|x| (x.1.clone(), x.2.clone())).unwrap_or_default();
                                got.push((k, *l, file.0, file.1));
                            }
                            Stmt::Op(..) => k += 1,
                            _ => {}
                        }
                    }
                    if !got.is_empty() {
                        c.nontrivial(1);
                    }
                    got.sort();
                    want.sort();
                    may.sort();
                    if want.iter().any(|w| !got.contains(w)) || got.iter().any(|g| !may.contains(g)) || got.len() > may.len() || k != 4 {
                        c.violation("lines", format!("{}: {got:?} instead of {want:?}", show()));
                    }
                }
            }
        });
    });
    c.batch("variables", || {
        let words = [(TEXT, 1u32), (TEXT + 2, 0x9002)];
        let paths: [&[&str]; 3] = [&[], &["m"], &["m", "n"]];
        let mut vars = vec![];
        for p in paths {
            for l in [None, Some("_ZN1x")] {
                for d in [None, Some((1u8, 33u8))] {
                    for a in [DATA, DATA + 4, DATA + 64] {
                        vars.push((p.iter().map(|s| s.to_string()).collect::<Vec<_>>(), "v".to_string(), l.map(|s: &str| s.to_string()), d, a));
                    }
                }
            }
        }
        tuples(vars.len(), 2).collect::<Vec<_>>().par_iter().for_each(|t| {
            for version in [4u16, 5] {
                if c.violated() || vars[t[0]].4 == vars[t[1]].4 {
                    return;
                }
                c.eval(1);
                c.states(1);
                let mut d0 = line_table(&words);
                d0.files = vec![(0, "other.rs".into())];
                let mut d = line_table(&words);
                d.version = version;
                d.rows.clear();
                d.files = vec![(0, "f0.rs".into()), (0, "f1.rs".into())];
                d.variables = t.iter().map(|k| vars[*k].clone()).collect();
                let img = Image {
                    entry: TEXT as u64,
                    segments: vec![Seg::text(TEXT as u64, bytes(&words)), Seg::data(DATA as u64, vec![1; 8])],
                    relocs: vec![(TEXT as u64, BRANCH)],
                    units: vec![d0, d],
                    ..Default::default()
                };
                let show = || format!("{:x?} version {version}", t.iter().map(|k| &vars[*k]).collect::<Vec<_>>());
                let p = match load(&img.build()) {
                    Ok(p) => p,
                    Err(e) => {
                        c.violation("variables refused", format!("{}: {e}", show()));
                        return;
                    }
                };
                for (name, a, v) in &p.memory {
                    let var = t.iter().map(|k| &vars[*k]).find(|v| v.4 == *a);
                    let ok = *v == Value::Number(0x0101_0101)
                        && match (var, name) {
                            (None, None) => true,
                            (Some(x), Some(n)) => {
                                // the file of the declaration by its number in the list
                                let file = if version == 5 { "f1.rs" } else { "f0.rs" };
                                let id = p.files.iter().find(|f| f.2 == file).map_or(0, |f| f.0);
                                let tail = x.3.map_or(String::new(), |(_, l)| format!(" at file {id} line {l}"));
                                n.ends_with(&format!("{}::v{tail}", if x.0.is_empty() { "unit".to_string() } else { x.0.join("::") }))
                            }
                            _ => false,
                        };
                    if !ok {
                        c.violation("variables", format!("{}: {a:x} {v:?} is called {name:?}", show()));
                    }
                }
            }
        });
    });
}

fn main() {
    let c = Check::new(
        "C22",
        "model_checking",
        "every statement executed from every register file gives the registers, memory, system calls and next address of the machine instructions it stands for; every referenced code address has a label exactly there; data and line information appear at their addresses",
        &["RV32IMAC without hint encodings", "a statement named after a system call loads its number into t0", "the register left out of an address pair and x6 after a tail call are free"],
    );
    let x = Ctx { c: c.clone(), files: register_files() };
    // names of the tables
    c.batch("system calls and registers", || {
        let mut seen = BTreeSet::new();
        for k in 0..=255u8 {
            c.eval(1);
            if let Ok(s) = powdr_syscalls::Syscall::try_from(k) {
                let n = s.name().to_string();
                let back = n.parse::<powdr_syscalls::Syscall>().map(u8::from);
                if u8::from(s) != k || back != Ok(k) || s.to_string() != n || !seen.insert(n.clone()) {
                    c.violation("system calls", format!("{k}: {n} {back:?}"));
                }
            }
        }
        for (k, n) in powdr_riscv_types::REGISTER_MEMORY_NAMES.iter().enumerate() {
            let r = powdr_riscv_types::Register::from(*n);
            if r.addr() as usize != k || r.to_string() != *n || r.is_zero() != (k == 0) {
                c.violation("registers", format!("{n} is {}", r.addr()));
            }
        }
    });
    encodings(&x);
    sequences(&x);
    data(&x);
    names(&x);
    lines(&x);
    c.sample(json!({"code": "auipc a0; addi a1, a0; j to the second", "expect": "la a1 or refused"}));
    c.finish()
}
