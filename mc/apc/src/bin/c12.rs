//! C12: removing matching memory sends and receives preserves the observable memory
//! history.
//!
//! Every sequence of half-accesses (receive the previous content of a cell, send its
//! new content) up to a bounded length, over symbolic addresses that may or may not
//! coincide, is optimised by the real code. Its executions are then enumerated: every
//! choice of addresses and initial memory content that gives a valid history of a
//! reference memory has to satisfy the added equations, and whatever was removed has
//! to cancel out in every solution of the new system.
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use mc_cs::*;
use mc_field::Tiny;
use powdr_autoprecompiles::memory_optimizer::optimize_memory;
use powdr_constraint_solver::constraint_system::BusInteraction;
use powdr_constraint_solver::solver::{new_solver, Solver};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use std::collections::{BTreeMap, BTreeSet};

const P: u32 = 7;
const NB: usize = 3;
type T = Tiny<P, NB>;
type E = GE<P, NB>;
const MEM: u32 = 1;
const BYTE: u32 = 5;

const A: u32 = 0;
const B: u32 = 1;
const M: u32 = 2;
fn d(i: usize) -> u32 {
    3 + 3 * i as u32
}
fn d2(i: usize) -> u32 {
    4 + 3 * i as u32
}
fn t(i: usize) -> u32 {
    5 + 3 * i as u32
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Recv,
    /// send a constant
    Send,
    /// send what the last receive got
    Write,
    CondRecv,
    CondSend,
    /// something on another bus
    Other,
}
type Op = (What, usize);

fn addr(i: usize) -> (u32, E) {
    match i {
        0 => (1, num(0)),
        1 => (1, var(A)),
        2 => (1, var(A) + num(1)),
        3 => (1, var(B)),
        4 => (2, var(A)),
        5 => (1, var(A) * num(2)),
        6 => (1, var(A) + var(B)),
        _ => (1, num(3)),
    }
}

fn build(ops: &[Op], limbs: usize) -> Vec<BI<P, NB>> {
    let mut recvs = 0;
    let mut out = vec![];
    for (i, (what, ad)) in ops.iter().enumerate() {
        let (sp, e) = addr(*ad);
        let mut payload = vec![num(sp as i64), e];
        let mult = match what {
            What::Recv | What::CondRecv => {
                payload.push(var(d(recvs)));
                if limbs == 2 {
                    payload.push(var(d2(recvs)));
                }
                payload.push(var(t(recvs)));
                recvs += 1;
                if *what == What::Recv {
                    num(-1)
                } else {
                    -var::<T>(M)
                }
            }
            What::Other => {
                out.push(bus(6, num(1), vec![var(A)]));
                continue;
            }
            _ => {
                if *what == What::Write && recvs > 0 {
                    payload.push(var(d(recvs - 1)));
                    if limbs == 2 {
                        payload.push(var(d2(recvs - 1)));
                    }
                } else {
                    payload.push(num(1));
                    if limbs == 2 {
                        payload.push(num(0));
                    }
                }
                payload.push(num(i as i64));
                if *what == What::CondSend {
                    var(M)
                } else {
                    num(1)
                }
            }
        };
        out.push(bus(MEM as i64, mult, payload));
    }
    out
}

fn context(i: usize) -> (Vec<E>, Vec<BI<P, NB>>) {
    match i {
        0 => (vec![], vec![]),
        1 => (vec![var(B) - var(A) - num(1)], vec![]),
        2 => (vec![], vec![bus(BYTE as i64, num(1), vec![var(A)]), bus(BYTE as i64 + 2, num(1), vec![var(B)])]),
        3 => (vec![var(A) * (var(A) - num(1)), (var(B) - num(3)) * (var(B) - var(A))], vec![]),
        4 => (vec![(var(A) - var(B)) * (var(A) - var(B) - num(1))], vec![bus(BYTE as i64, num(1), vec![var(A)])]),
        _ => (vec![var(A) - var(B)], vec![]),
    }
}
const CONTEXTS: usize = 6;

fn tables() -> Tables {
    let one = |v: &[u32]| v.iter().map(|x| vec![*x]).collect::<Vec<_>>();
    Tables::new([(BYTE, one(&[0, 1])), (BYTE + 2, one(&[3, 4]))].into(), 2)
}

/// The tuple an interaction stands for, with its multiplicity.
fn concrete(b: &BI<P, NB>, a: &[T]) -> (u32, Vec<u32>) {
    let (_, m, p) = eval_bus(b, a);
    (m, p)
}

/// The values of a and b (as a + P b) that the context admits.
fn points(ctx: usize) -> Vec<u32> {
    static POINTS: std::sync::OnceLock<Vec<Vec<u32>>> = std::sync::OnceLock::new();
    POINTS.get_or_init(|| {
        (0..CONTEXTS)
            .map(|i| {
                let (cs, bs) = context(i);
                let s = system(cs, bs);
                (0..P * P)
                    .filter(|ab| satisfies(&s, &tables(), &[Tiny::new((ab % P) as i64), Tiny::new((ab / P) as i64)]))
                    .collect()
            })
            .collect()
    })[ctx]
        .clone()
}

struct Case<'a> {
    ops: &'a [Op],
    context: usize,
    limbs: usize,
}

/// Runs the reference memory along the sequence, filling in what each receive gets.
/// None if this is not a valid history.
fn history(bis: &[BI<P, NB>], ops: &[Op], limbs: usize, a: &mut [T], init: u32) -> Option<u32> {
    let mut cells: BTreeMap<(u32, u32), Option<Vec<u32>>> = BTreeMap::new();
    let mut recvs = 0;
    for (b, (what, _)) in bis.iter().zip(ops) {
        if *what == What::Other {
            continue;
        }
        let (m, p) = concrete(b, a);
        let active = match m {
            0 => false,
            1 => true,
            m if m == P - 1 => true,
            _ => return None,
        };
        let receiving = matches!(what, What::Recv | What::CondRecv);
        if active && receiving != (m == P - 1) {
            return None;
        }
        let n = cells.len() as u32;
        if receiving {
            let slot = recvs;
            recvs += 1;
            if !active {
                continue;
            }
            let bit = init >> n & 1;
            let cell = cells.entry((p[0], p[1])).or_insert_with(|| {
                let mut v = vec![bit];
                if limbs == 2 {
                    v.push(1 - bit);
                }
                v.push(P - 1);
                Some(v)
            });
            // nothing there to receive: not a history
            let content = cell.take()?;
            a[d(slot) as usize] = Tiny::new(content[0] as i64);
            if limbs == 2 {
                a[d2(slot) as usize] = Tiny::new(content[1] as i64);
            }
            a[t(slot) as usize] = Tiny::new(content[limbs] as i64);
        } else {
            if !active {
                continue;
            }
            // the cell still holds its content: a second one would be live
            if !matches!(cells.get(&(p[0], p[1])), Some(None)) {
                return None;
            }
            cells.insert((p[0], p[1]), Some(p[2..].to_vec()));
        }
    }
    Some(cells.len() as u32)
}

fn net<'a>(bis: impl Iterator<Item = &'a BI<P, NB>>, a: &[T]) -> BTreeMap<Vec<u32>, u32> {
    let mut r: BTreeMap<Vec<u32>, u32> = BTreeMap::new();
    for b in bis {
        let (m, p) = concrete(b, a);
        let e = r.entry(p).or_default();
        *e = (*e + m) % P;
    }
    r.retain(|_, m| *m != 0);
    r
}

fn check(c: &Check, case: Case) {
    let Case { ops, context: ctx, limbs } = case;
    let bis = build(ops, limbs);
    let (cs, cbs) = context(ctx);
    let nctx = cbs.len();
    let mut all = cbs.clone();
    all.extend(bis.iter().cloned());
    let system = system(cs.clone(), all.clone());
    let ts = tables();
    let show = || {
        format!(
            "constraints [{}] buses [{}]",
            cs.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", "),
            all.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ")
        )
    };
    let (ops2, all2) = (ops.to_vec(), format!("{:?}", ops));
    let _ = ops2;
    let run = c.run(
        move || all2.clone(),
        || {
            let mut solver = new_solver(system.clone(), ts.clone());
            solver.solve().ok()?;
            Some(optimize_memory::<T, Var, OpenVmMemoryBusInteraction<T, Var>>(system.clone(), &mut solver, Some(MEM as u64)))
        },
    );
    c.eval(1);
    c.transitions(ops.len() as u64);
    let new = match run {
        Err(e) => return c.violation("panic", format!("{}: {e}", show())),
        Ok(None) => return,
        Ok(Some(n)) => n,
    };
    // what is left is part of what was there, in the same order
    let mut removed: Vec<&BI<P, NB>> = vec![];
    let mut it = new.bus_interactions.iter().peekable();
    for (i, b) in all.iter().enumerate() {
        if it.peek() == Some(&b) {
            it.next();
        } else if i < nctx {
            return c.violation("not memory", format!("{}: {b} was removed", show()));
        } else {
            removed.push(b);
        }
    }
    if it.next().is_some() {
        return c.violation("order", format!("{}: what is left is not a subsequence: {new}", show()));
    }
    if let Some(b) = removed.iter().find(|b| b.bus_id.try_to_number() != Some(Tiny::new(MEM as i64))) {
        return c.violation("not memory", format!("{}: {b} was removed", show()));
    }
    let old_cs: Vec<_> = system_constraints(&cs);
    let added: Vec<&E> = new.algebraic_constraints.iter().map(|k| &k.expression).filter(|e| !old_cs.contains(e)).collect();
    for o in &old_cs {
        if !new.algebraic_constraints.iter().any(|k| &k.expression == o) {
            return c.violation("constraint lost", format!("{}: {o}", show()));
        }
    }
    if removed.is_empty() && added.is_empty() {
        return;
    }
    c.nontrivial(1);
    c.count("interactions removed", removed.len() as u64);
    let shown = || format!("{} removed [{}] added [{}]", show(), removed.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", "), added.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", "));
    let nvars = 3 + 3 * ops.len();
    let conditional = ops.iter().any(|(w, _)| matches!(w, What::CondRecv | What::CondSend));
    let mut a = vec![Tiny::new(0); nvars];
    let mut valid = 0;
    for ab in points(ctx) {
        a[A as usize] = Tiny::new((ab % P) as i64);
        a[B as usize] = Tiny::new((ab / P) as i64);
        // every valid history
        for m in 0..if conditional { 2 } else { 1 } {
            a[M as usize] = Tiny::new(m);
            let mut init = 0;
            loop {
                let Some(cells) = history(&bis, ops, limbs, &mut a, init) else { break };
                valid += 1;
                for e in &added {
                    if eval(e, &a).val() != 0 {
                        return c.violation("valid history excluded", format!("{}: a={} b={} initial content {init:b}: {e} is not zero", shown(), ab % P, ab / P));
                    }
                }
                init += 1;
                if init >> cells != 0 {
                    break;
                }
            }
        }
    }
    c.count("valid histories", valid);
    // every solution of the new system: what was removed cancels out
    let mut used: BTreeSet<u32> = BTreeSet::new();
    for b in &removed {
        used.extend(b.referenced_unknown_variables().map(|v| v.0));
    }
    for e in &added {
        used.extend(e.referenced_unknown_variables().map(|v| v.0));
    }
    used.remove(&A);
    used.remove(&B);
    let used: Vec<u32> = used.into_iter().collect();
    let dom = |v: u32| -> Vec<i64> {
        match v {
            M => vec![0, 1, 2],
            v if v % 3 == 2 => (-1..ops.len() as i64).collect(),
            _ => vec![0, 1],
        }
    };
    let doms: Vec<Vec<i64>> = used.iter().map(|v| dom(*v)).collect();
    for ab in points(ctx) {
        let mut a = vec![Tiny::new(0); nvars];
        a[A as usize] = Tiny::new((ab % P) as i64);
        a[B as usize] = Tiny::new((ab / P) as i64);
        // depth first, so that an equation that fails early cuts the search
        fn go(c: &Check, i: usize, used: &[u32], doms: &[Vec<i64>], a: &mut Vec<T>, added: &[&E], removed: &[&BI<P, NB>]) -> Option<String> {
            let set = |v: u32| v == A || v == B || used[..i].contains(&v);
            for e in added {
                if e.referenced_unknown_variables().all(|v| set(v.0)) && eval(e, a).val() != 0 {
                    return None;
                }
            }
            if i == used.len() {
                c.states(1);
                let n = net(removed.iter().copied(), a);
                if !n.is_empty() {
                    return Some(format!("{n:?} at {a:?}"));
                }
                return None;
            }
            for x in &doms[i] {
                a[used[i] as usize] = Tiny::new(*x);
                if let Some(r) = go(c, i + 1, used, doms, a, added, removed) {
                    return Some(r);
                }
            }
            None
        }
        if let Some(r) = go(c, 0, &used, &doms, &mut a, &added, &removed) {
            return c.violation("visible accesses changed", format!("{}: {r}", shown()));
        }
    }
}

fn system_constraints(cs: &[E]) -> Vec<E> {
    mc_cs::system::<P, NB>(cs.to_vec(), vec![]).algebraic_constraints.into_iter().map(|c| c.expression).collect()
}

fn alphabet(addrs: &[usize], conds: &[usize], write: bool, other: bool) -> Vec<Op> {
    let mut r = vec![];
    for a in addrs {
        r.push((What::Recv, *a));
        r.push((What::Send, *a));
        if write {
            r.push((What::Write, *a));
        }
    }
    for a in conds {
        r.push((What::CondRecv, *a));
        r.push((What::CondSend, *a));
    }
    if other {
        r.push((What::Other, 0));
    }
    r
}

fn sequences(c: &Check, name: &str, al: &[Op], len: usize, limbs: usize, contexts: &[usize]) {
    let n = (al.len() as u64).pow(len as u32);
    c.batch(name, || {
        (0..n).into_par_iter().for_each(|mut i| {
            if c.violated() {
                return;
            }
            let mut ops = vec![];
            for _ in 0..len {
                ops.push(al[(i % al.len() as u64) as usize]);
                i /= al.len() as u64;
            }
            // at least one send before a receive, or there is nothing to match
            let first = ops.iter().position(|(w, _)| matches!(w, What::Send | What::Write));
            if first.is_none_or(|f| !ops[f..].iter().any(|(w, _)| *w == What::Recv)) && len > 2 {
                return;
            }
            for ctx in contexts {
                check(c, Case { ops: &ops, context: *ctx, limbs });
            }
        });
    });
}

fn main() {
    let c = Check::new(
        "C12",
        "model_checking",
        "all sequences of half-accesses up to a bounded length over symbolic addresses, optimised by the code and compared with every history of a reference memory",
        &["accesses are listed in chronological order, as the optimiser requires"],
    );
    c.batch("no memory bus", || {
        let s = system(vec![], build(&[(What::Send, 1), (What::Recv, 1)], 1));
        let mut solver = new_solver(s.clone(), tables());
        let n = optimize_memory::<T, Var, OpenVmMemoryBusInteraction<T, Var>>(s.clone(), &mut solver, None);
        c.eval(1);
        if n.bus_interactions != s.bus_interactions {
            c.violation("no memory bus", n.to_string());
        }
    });
    let every: Vec<usize> = (0..CONTEXTS).collect();
    for len in 1..=3 {
        let al = alphabet(&[0, 1, 2, 3, 4, 5, 6, 7], &[1, 3], true, true);
        sequences(&c, &format!("length {len}, all addresses"), &al, len, 1, &every);
    }
    sequences(&c, "length 3, two limbs", &alphabet(&[1, 2, 3], &[3], true, false), 3, 2, &every);
    sequences(&c, "length 4", &alphabet(&[0, 1, 2, 3, 4], tier(&[3], &[1, 3]), true, thorough()), 4, 1, tier(&[0, 1, 2, 3], &every));
    sequences(&c, "length 5", &alphabet(&[1, 2, 3], &[], true, false), 5, 1, tier(&[0, 1, 4], &every));
    sequences(&c, "length 6", &alphabet(&[1, 3], tier(&[], &[1]), true, false), 6, 1, tier(&[0, 2], &every));
    if thorough() {
        sequences(&c, "length 4, two limbs", &alphabet(&[0, 1, 2, 3, 4], &[3], true, false), 4, 2, &every);
        sequences(&c, "length 5, more addresses", &alphabet(&[0, 1, 2, 3, 4], &[3], false, true), 5, 1, &every);
        sequences(&c, "length 7", &alphabet(&[1, 3], &[], true, false), 7, 1, &[0, 1, 2]);
        sequences(&c, "length 8", &alphabet(&[1, 3], &[], false, false), 8, 1, &every);
    }
    c.sample(json!({"sequence": "recv (1,a) d0 t0; send (1,a) 1; recv (1,b) d1 t1; send (1,b) d1; recv (1,a) d2 t2", "context": "a in {0,1}, b in {3,4}"}));
    c.finish()
}
