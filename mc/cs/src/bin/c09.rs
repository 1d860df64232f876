//! C09: all histories of edits of the indexed constraint system (with and without
//! the work queue) against plain lists of value tables; reachability and splitting
//! against graph search, on the states reached and on all small systems.
use mc_core::rayon::prelude::*;
use mc_core::{tier, Check};
use mc_cs::*;
use mc_field::Tiny;
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, ComputationMethod, ConstraintRef, ConstraintSystem, DerivedVariable};
use powdr_constraint_solver::indexed_constraint_system::{apply_substitutions, apply_substitutions_to_expressions, IndexedConstraintSystem, IndexedConstraintSystemWithQueue};
use powdr_constraint_solver::reachability::{reachable_variables, reachable_variables_except_blocked};
use powdr_constraint_solver::system_splitter::split_system;
use std::collections::{BTreeSet, HashSet};

const P: u32 = 3;
const NB: usize = 4;
const N: usize = 3;
type T = Tiny<P, NB>;
type E = GE<P, NB>;
type Ics = IndexedConstraintSystem<T, Var>;
type Icq = IndexedConstraintSystemWithQueue<T, Var>;
type Sys = CS<P, NB>;

/// The value of an expression at every point.
type Table = Vec<u8>;

struct Pts(Vec<Vec<T>>);
impl Pts {
    fn table(&self, e: &E) -> Table {
        self.0.iter().map(|a| eval(e, a).val() as u8).collect()
    }
    fn index(&self, a: &[u8]) -> usize {
        a.iter().enumerate().map(|(i, v)| *v as usize * (P as usize).pow(i as u32)).sum()
    }
    /// The table after replacing variable v by the expression with table e.
    fn subst(&self, t: &Table, v: usize, e: &Table) -> Table {
        (0..t.len())
            .map(|i| {
                let mut a: Vec<u8> = self.0[i].iter().map(|x| x.val() as u8).collect();
                a[v] = e[i];
                t[self.index(&a)]
            })
            .collect()
    }
}

/// The plain lists: one list of tables per item, for the three kinds of items.
#[derive(Clone, Default)]
struct Lists([Vec<Vec<Table>>; 3]);

fn item_tables(p: &Pts, s: &Sys) -> Lists {
    Lists([
        s.algebraic_constraints.iter().map(|c| vec![p.table(&c.expression)]).collect(),
        s.bus_interactions.iter().map(|b| b.fields().map(|f| p.table(f)).collect()).collect(),
        s.derived_variables
            .iter()
            .map(|d| {
                let mut r = vec![vec![d.variable.0 as u8]];
                match &d.computation_method {
                    ComputationMethod::Constant(c) => r.push(vec![c.val() as u8; p.0.len()]),
                    ComputationMethod::QuotientOrZero(a, b) => {
                        r.push(p.table(a));
                        r.push(p.table(b));
                    }
                }
                r
            })
            .collect(),
    ])
}

fn vars_of(e: &E) -> BTreeSet<Var> {
    e.referenced_unknown_variables().cloned().collect()
}
/// Variables of every algebraic constraint and bus interaction.
fn mentions(s: &Sys) -> [Vec<BTreeSet<Var>>; 2] {
    [
        s.algebraic_constraints.iter().map(|c| vars_of(&c.expression)).collect(),
        s.bus_interactions.iter().map(|b| b.fields().flat_map(vars_of).collect()).collect(),
    ]
}

/// Which item a reference points at.
fn locate(s: &Sys, r: &ConstraintRef<T, Var>) -> Option<(usize, usize)> {
    match r {
        ConstraintRef::AlgebraicConstraint(c) => {
            s.algebraic_constraints.iter().position(|d| std::ptr::eq(&d.expression, c.expression)).map(|i| (0, i))
        }
        ConstraintRef::BusInteraction(b) => s.bus_interactions.iter().position(|d| std::ptr::eq(d, *b)).map(|i| (1, i)),
    }
}

#[derive(Clone)]
enum Op {
    AddA(Vec<E>),
    AddB(Vec<BI<P, NB>>),
    Extend(Sys),
    Retain(usize, Pred),
    Known(Var, u32),
    Unknown(Var, E),
    Updated(Var),
    Pop(usize),
}
#[derive(Clone, Copy, PartialEq)]
enum Pred {
    Without(Var),
    NonConstant,
    None,
}
fn show(o: &Op) -> String {
    match o {
        Op::AddA(v) => format!("add constraints {}", v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" ; ")),
        Op::AddB(v) => format!("add {}", v.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" ; ")),
        Op::Extend(s) => format!("extend by {s}"),
        Op::Retain(k, p) => format!(
            "retain {} {}",
            ["constraints", "bus interactions", "derived variables"][*k],
            match p {
                Pred::Without(v) => format!("not mentioning {v}"),
                Pred::NonConstant => "that are not constant".into(),
                Pred::None => "(none)".into(),
            }
        ),
        Op::Known(v, c) => format!("{v} := {c} (known)"),
        Op::Unknown(v, e) => format!("{v} := {e}"),
        Op::Updated(v) => format!("{v} updated"),
        Op::Pop(n) => format!("pop {n}"),
    }
}
fn keep(p: Pred, vars: &BTreeSet<Var>) -> bool {
    match p {
        Pred::Without(v) => !vars.contains(&v),
        Pred::NonConstant => !vars.is_empty(),
        Pred::None => false,
    }
}
fn method_vars(d: &DerivedVariable<T, Var, E>) -> BTreeSet<Var> {
    match &d.computation_method {
        ComputationMethod::Constant(_) => BTreeSet::new(),
        ComputationMethod::QuotientOrZero(a, b) => vars_of(a).into_iter().chain(vars_of(b)).collect(),
    }
}

#[derive(Clone)]
enum Real {
    Plain(Ics),
    Queue(Icq),
}
impl Real {
    fn ics(&self) -> &Ics {
        match self {
            Real::Plain(s) => s,
            Real::Queue(q) => q.system(),
        }
    }
}

#[derive(Clone)]
struct State {
    real: Real,
    lists: Lists,
    /// items that must still be yielded
    pending: BTreeSet<(usize, usize)>,
}

struct World {
    pts: Pts,
    check: std::sync::Arc<Check>,
}

impl World {
    /// Applies an operation; None if it does not apply to this kind of system.
    fn step(&self, s: &State, op: &Op) -> Result<Option<State>, String> {
        let p = &self.pts;
        let mut s = s.clone();
        let before = mentions(s.real.ics().system());
        match op {
            Op::AddA(es) => {
                let n = s.lists.0[0].len();
                let cs = es.iter().cloned().map(AlgebraicConstraint::assert_zero);
                match &mut s.real {
                    Real::Plain(r) => r.add_algebraic_constraints(cs),
                    Real::Queue(r) => r.add_algebraic_constraints(cs),
                }
                s.lists.0[0].extend(es.iter().map(|e| vec![p.table(e)]));
                s.pending.extend((0..es.len()).map(|i| (0, n + i)));
            }
            Op::AddB(bs) => {
                let n = s.lists.0[1].len();
                match &mut s.real {
                    Real::Plain(r) => r.add_bus_interactions(bs.iter().cloned()),
                    Real::Queue(r) => r.add_bus_interactions(bs.iter().cloned()),
                }
                s.lists.0[1].extend(bs.iter().map(|b| b.fields().map(|f| p.table(f)).collect::<Vec<_>>()));
                s.pending.extend((0..bs.len()).map(|i| (1, n + i)));
            }
            Op::Extend(t) => {
                let Real::Plain(r) = &mut s.real else { return Ok(None) };
                r.extend(t.clone());
                for (l, m) in s.lists.0.iter_mut().zip(item_tables(p, t).0) {
                    l.extend(m);
                }
            }
            Op::Retain(k, pr) => {
                let keeps: Vec<bool> = match k {
                    0 | 1 => before[*k].iter().map(|v| keep(*pr, v)).collect(),
                    _ => s.real.ics().system().derived_variables.iter().map(|d| keep(*pr, &method_vars(d))).collect(),
                };
                let fa = |c: &AlgebraicConstraint<E>| keep(*pr, &vars_of(&c.expression));
                let fb = |b: &BI<P, NB>| keep(*pr, &b.fields().flat_map(vars_of).collect());
                match (&mut s.real, k) {
                    (Real::Plain(r), 0) => r.retain_algebraic_constraints(fa),
                    (Real::Queue(r), 0) => r.retain_algebraic_constraints(fa),
                    (Real::Plain(r), 1) => r.retain_bus_interactions(fb),
                    (Real::Queue(r), 1) => r.retain_bus_interactions(fb),
                    (Real::Plain(r), _) => r.retain_derived_variables(|d| keep(*pr, &method_vars(d))),
                    (Real::Queue(_), _) => return Ok(None),
                }
                let mut map = vec![];
                let mut n = 0;
                for k in &keeps {
                    map.push(k.then_some(n));
                    n += *k as usize;
                }
                let mut it = keeps.iter();
                s.lists.0[*k].retain(|_| *it.next().unwrap());
                s.pending = s
                    .pending
                    .iter()
                    .filter_map(|(kk, i)| if kk == k { map[*i].map(|j| (*kk, j)) } else { Some((*kk, *i)) })
                    .collect();
            }
            Op::Known(v, c) => {
                let Real::Plain(r) = &mut s.real else { return Ok(None) };
                r.substitute_by_known(v, &Tiny::new(*c as i64));
                let t = p.table(&num(*c as i64));
                self.subst(&mut s.lists, *v, &t);
            }
            Op::Unknown(v, e) => {
                match &mut s.real {
                    Real::Plain(r) => r.substitute_by_unknown(v, e),
                    Real::Queue(r) => r.substitute_by_unknown(v, e),
                }
                self.subst(&mut s.lists, *v, &p.table(e));
                s.pending.extend((0..2).flat_map(|k| {
                    before[k].iter().enumerate().filter(|(_, vs)| vs.contains(v)).map(move |(i, _)| (k, i))
                }));
            }
            Op::Updated(v) => {
                let Real::Queue(r) = &mut s.real else { return Ok(None) };
                r.variable_updated(v);
                s.pending.extend((0..2).flat_map(|k| {
                    before[k].iter().enumerate().filter(|(_, vs)| vs.contains(v)).map(move |(i, _)| (k, i))
                }));
            }
            Op::Pop(n) => {
                let Real::Queue(_) = s.real else { return Ok(None) };
                for _ in 0..*n {
                    if let Some(i) = self.pop(&mut s.real)? {
                        s.pending.remove(&i);
                    }
                }
            }
        }
        Ok(Some(s))
    }

    fn pop(&self, r: &mut Real) -> Result<Option<(usize, usize)>, String> {
        let Real::Queue(q) = r else { unreachable!() };
        // The address tells which item the reference points at.
        let addr = q.pop_front().map(|c| match c {
            ConstraintRef::AlgebraicConstraint(c) => (0, c.expression as *const E as usize),
            ConstraintRef::BusInteraction(b) => (1, b as *const BI<P, NB> as usize),
        });
        let s = q.system().system();
        let Some((k, a)) = addr else { return Ok(None) };
        let i = match k {
            0 => s.algebraic_constraints.iter().position(|c| &c.expression as *const E as usize == a),
            _ => s.bus_interactions.iter().position(|c| c as *const BI<P, NB> as usize == a),
        };
        match i {
            Some(i) => Ok(Some((k, i))),
            None => Err("the queue yielded something that is not in the system".into()),
        }
    }

    fn subst(&self, l: &mut Lists, v: Var, e: &Table) {
        for (k, kind) in l.0.iter_mut().enumerate() {
            for item in kind {
                for t in item.iter_mut().skip((k == 2) as usize) {
                    *t = self.pts.subst(t, v.0 as usize, e);
                }
            }
        }
    }

    fn compare(&self, s: &State) -> Result<(), String> {
        let ics = s.real.ics();
        let sys = ics.system();
        let now = item_tables(&self.pts, sys);
        for k in 0..3 {
            let name = ["constraint", "bus interaction", "derived variable"][k];
            if now.0[k].len() != s.lists.0[k].len() {
                return Err(format!("{} {name}s instead of {}", now.0[k].len(), s.lists.0[k].len()));
            }
            for (i, (a, b)) in now.0[k].iter().zip(&s.lists.0[k]).enumerate() {
                if a != b {
                    return Err(format!("{name} number {i} has the wrong value:\n{sys}"));
                }
            }
        }
        let m = mentions(sys);
        let all: BTreeSet<Var> = m.iter().flatten().flatten().cloned().collect();
        let listed: Vec<Var> = ics.variables().cloned().collect();
        let set: BTreeSet<Var> = listed.iter().cloned().collect();
        if set.len() != listed.len() {
            return Err("variables() repeats a variable".into());
        }
        if !all.is_subset(&set) {
            return Err(format!("variables() misses one of {all:?}"));
        }
        let named: BTreeSet<Var> = ics.referenced_unknown_variables().cloned().collect();
        if named != all {
            return Err(format!("referenced_unknown_variables is {named:?}, not {all:?}"));
        }
        let fresh = IndexedConstraintSystem::from(sys.clone());
        for mask in 1..1u32 << N {
            let q: Vec<Var> = (0..N as u32).filter(|i| mask >> i & 1 == 1).map(Var).collect();
            let expect: BTreeSet<(usize, usize)> = (0..2)
                .flat_map(|k| m[k].iter().enumerate().filter(|(_, vs)| q.iter().any(|v| vs.contains(v))).map(move |(i, _)| (k, i)))
                .collect();
            for (exact, ix) in [(false, ics), (true, &fresh)] {
                let mut got = BTreeSet::new();
                for r in ix.constraints_referencing_variables(&q) {
                    let Some(l) = locate(ix.system(), &r) else {
                        return Err("lookup returned something that is not in the system".into());
                    };
                    if !got.insert(l) {
                        return Err(format!("lookup of {q:?} returned item {l:?} twice"));
                    }
                }
                if !expect.is_subset(&got) || exact && expect != got {
                    return Err(format!("lookup of {q:?} returned {got:?} instead of {expect:?} (kind, index) in\n{sys}"));
                }
            }
        }
        if let Real::Queue(_) = s.real {
            let mut r = s.real.clone();
            let mut got = BTreeSet::new();
            while let Some(i) = self.pop(&mut r)? {
                if !got.insert(i) {
                    return Err(format!("the queue yields item {i:?} twice"));
                }
            }
            if let Some(i) = s.pending.difference(&got).next() {
                return Err(format!("item {i:?} (kind, index) needs handling, but the queue yields only {got:?} in\n{sys}"));
            }
        }
        self.connectivity(ics)
    }

    fn connectivity(&self, ics: &Ics) -> Result<(), String> {
        let sys = ics.system();
        let m: Vec<BTreeSet<Var>> = mentions(sys).into_iter().flatten().collect();
        let vars: Vec<Var> = (0..N as u32).map(Var).collect();
        graph(ics, &m, &vars)?;
        split(ics, &m)
    }

    fn dfs(&self, s: &State, ops: &[Op], depth: usize, trail: &mut Vec<usize>) {
        if self.check.violated() {
            return;
        }
        for (i, op) in ops.iter().enumerate() {
            trail.push(i);
            let r = mc_core::quiet_catch(|| -> Result<Option<State>, String> {
                let Some(t) = self.step(s, op)? else { return Ok(None) };
                self.compare(&t)?;
                Ok(Some(t))
            })
            .and_then(|r| r);
            match r {
                Err(e) => {
                    let h: Vec<String> = trail.iter().map(|i| show(&ops[*i])).collect();
                    self.check.violation("history", format!("after {}: {e}", h.join(" | ")));
                }
                Ok(None) => {}
                Ok(Some(t)) => {
                    self.check.states(1);
                    self.check.transitions(1);
                    self.check.eval(1);
                    if !t.pending.is_empty() || matches!(t.real, Real::Plain(_)) {
                        self.check.nontrivial(1);
                    }
                    if depth > 1 {
                        self.dfs(&t, ops, depth - 1, trail);
                    }
                }
            }
            trail.pop();
        }
    }
}

/// Reachability against the definition.
fn graph(ics: &Ics, m: &[BTreeSet<Var>], vars: &[Var]) -> Result<(), String> {
    let n = vars.len();
    for init in 1..1usize << n {
        if init.count_ones() > 2 {
            continue;
        }
        for block in 0..1usize << n {
            let start: Vec<Var> = (0..n).filter(|i| init >> i & 1 == 1).map(|i| vars[i]).collect();
            let blocked: BTreeSet<Var> = (0..n).filter(|i| block >> i & 1 == 1).map(|i| vars[i]).collect();
            let mut want: BTreeSet<Var> = start.iter().cloned().collect();
            loop {
                let mut more = want.clone();
                for c in m {
                    if c.iter().any(|v| want.contains(v) && !blocked.contains(v)) {
                        more.extend(c.iter().cloned());
                    }
                }
                if more == want {
                    break;
                }
                want = more;
            }
            let got: HashSet<Var> = reachable_variables_except_blocked(start.clone(), blocked.clone(), ics);
            if got.iter().cloned().collect::<BTreeSet<_>>() != want {
                return Err(format!("reachable from {start:?} without passing {blocked:?}: {got:?} instead of {want:?} in\n{ics}"));
            }
            if block == 0 {
                let got = reachable_variables(start.clone(), ics);
                if got.iter().cloned().collect::<BTreeSet<_>>() != want {
                    return Err(format!("reachable from {start:?}: {got:?} instead of {want:?} in\n{ics}"));
                }
            }
        }
    }
    Ok(())
}

/// Splitting: every constraint with variables is in exactly one part, parts share no
/// variable and are connected.
fn split(ics: &Ics, m: &[BTreeSet<Var>]) -> Result<(), String> {
    let parts = split_system(ics.clone());
    let sys = ics.system();
    let mut original: Vec<String> = sys
        .algebraic_constraints
        .iter()
        .map(|c| c.to_string())
        .chain(sys.bus_interactions.iter().map(|b| b.to_string()))
        .zip(m)
        .filter(|(_, v)| !v.is_empty())
        .map(|(s, _)| s)
        .collect();
    original.sort();
    let mut found = vec![];
    let mut seen: BTreeSet<Var> = BTreeSet::new();
    for part in &parts {
        let pm: Vec<BTreeSet<Var>> = mentions(part).into_iter().flatten().collect();
        let names = part
            .algebraic_constraints
            .iter()
            .map(|c| c.to_string())
            .chain(part.bus_interactions.iter().map(|b| b.to_string()));
        found.extend(names.zip(&pm).filter(|(_, v)| !v.is_empty()).map(|(s, _)| s));
        let vs: BTreeSet<Var> = pm.iter().flatten().cloned().collect();
        if vs.iter().any(|v| !seen.insert(*v)) {
            return Err(format!("a variable of {vs:?} is in two parts of\n{sys}"));
        }
        if let Some(v) = vs.first() {
            let mut r = BTreeSet::from([*v]);
            loop {
                let k = r.len();
                for c in &pm {
                    if c.iter().any(|v| r.contains(v)) {
                        r.extend(c.iter().cloned());
                    }
                }
                if r.len() == k {
                    break;
                }
            }
            if r != vs {
                return Err(format!("the part with {vs:?} is not connected in\n{sys}"));
            }
        }
    }
    found.sort();
    if found != original {
        return Err(format!("the parts contain {found:?}\ninstead of {original:?}"));
    }
    Ok(())
}

fn derived(v: u32, a: E, b: E) -> DerivedVariable<T, Var, E> {
    DerivedVariable::new(Var(v), ComputationMethod::QuotientOrZero(a, b))
}

fn main() {
    let check = Check::new(
        "C09",
        "model_checking",
        "non-trivial: a history after which at least one item must still be handled, or an edit of the system without a queue",
        &["the code is generic in the field; GF(3) is explored", "expression arithmetic itself is the subject of C04"],
    );
    let pts = Pts(assignments::<P, NB>(N));
    let w = World { pts, check: check.clone() };
    let [x, y, z]: [E; 3] = [var(0), var(1), var(2)];
    let one: E = num(1);
    let b = |m: E, p: Vec<E>| bus::<P, NB>(1, m, p);
    let start = ConstraintSystem {
        algebraic_constraints: [x.clone() - y.clone(), x.clone() * z.clone() + one.clone(), y.clone() - z.clone() - one.clone()]
            .into_iter()
            .map(AlgebraicConstraint::assert_zero)
            .collect(),
        bus_interactions: vec![b(y.clone(), vec![x.clone()]), b(one.clone(), vec![z.clone(), one.clone()])],
        derived_variables: vec![derived(2, x.clone(), y.clone() + one.clone()), derived(1, x.clone(), one.clone())],
    };
    let small = ConstraintSystem {
        algebraic_constraints: vec![AlgebraicConstraint::assert_zero(y.clone() * z.clone())],
        bus_interactions: vec![b(one.clone(), vec![y.clone() + z.clone()])],
        derived_variables: vec![derived(0, z.clone(), y.clone())],
    };
    let v = |i| Var(i);
    let mut ops = vec![
        Op::AddA(vec![x.clone() + y.clone() + z.clone()]),
        Op::AddA(vec![x.clone() * x.clone() - x.clone(), z.clone() - one.clone()]),
        Op::AddA(vec![]),
        Op::AddB(vec![b(z.clone(), vec![x.clone() - y.clone(), one.clone()])]),
        Op::AddB(vec![b(one.clone(), vec![y.clone()]), b(x.clone(), vec![])]),
        Op::Extend(small.clone()),
        Op::Retain(0, Pred::Without(v(0))),
        Op::Retain(0, Pred::NonConstant),
        Op::Retain(1, Pred::Without(v(2))),
        Op::Retain(1, Pred::Without(v(0))),
        Op::Retain(1, Pred::None),
        Op::Retain(2, Pred::Without(v(1))),
        Op::Retain(2, Pred::Without(v(2))),
        Op::Known(v(0), 1),
        Op::Known(v(1), 0),
        Op::Unknown(v(0), y.clone() + one.clone()),
        Op::Unknown(v(0), y.clone() * z.clone()),
        Op::Unknown(v(1), z.clone()),
        Op::Unknown(v(1), x.clone() - z.clone()),
        Op::Unknown(v(2), num(2)),
        Op::Unknown(v(2), x.clone()),
        Op::Updated(v(0)),
        Op::Updated(v(1)),
        Op::Updated(v(2)),
        Op::Pop(1),
        Op::Pop(2),
        Op::Pop(100),
    ];
    if mc_core::thorough() {
        ops.push(Op::Retain(0, Pred::Without(v(1))));
        ops.push(Op::Unknown(v(2), x.clone() * y.clone() + one.clone()));
    }
    // All histories, from a filled and from an empty system, with and without a queue.
    let mut starts = vec![];
    for s in [start.clone(), ConstraintSystem::default()] {
        let lists = item_tables(&w.pts, &s);
        let pending = (0..2).flat_map(|k| (0..lists.0[k].len()).map(move |i| (k, i))).collect();
        let ics = IndexedConstraintSystem::from(s.clone());
        starts.push(State { real: Real::Plain(ics), lists: lists.clone(), pending: BTreeSet::new() });
        starts.push(State { real: Real::Queue(IndexedConstraintSystemWithQueue::from(s)), lists, pending });
    }
    let depth = tier(3, 4);
    let mut roots = vec![];
    for s in &starts {
        if let Err(e) = mc_core::quiet_catch(|| w.compare(s)).and_then(|r| r) {
            check.violation("start", e);
        }
        for i in 0..ops.len() {
            for j in 0..ops.len() {
                roots.push((s, i, j));
            }
        }
    }
    for s in &starts {
        // prefixes of length one are checked here, longer ones below
        w.dfs(s, &ops, 1, &mut vec![]);
    }
    roots.par_iter().for_each(|(s, i, j)| {
        let step = |s: &State, i: usize| mc_core::quiet_catch(|| w.step(s, &ops[i])).and_then(|r| r);
        let Ok(Some(t)) = step(s, *i) else { return };
        match step(&t, *j).and_then(|u| match u {
            None => Ok(None),
            Some(u) => mc_core::quiet_catch(|| w.compare(&u)).and_then(|r| r).map(|_| Some(u)),
        }) {
            Err(e) => check.violation("history", format!("after {} | {}: {e}", show(&ops[*i]), show(&ops[*j]))),
            Ok(None) => {}
            Ok(Some(u)) => {
                check.states(1);
                check.transitions(2);
                check.eval(1);
                check.nontrivial(1);
                w.dfs(&u, &ops, depth - 2 + 1, &mut vec![*i, *j]);
            }
        }
    });
    check.sample(mc_core::serde_json::json!({"operations": ops.iter().map(show).collect::<Vec<_>>(), "start": start.to_string()}));

    // Reachability and splitting on all hypergraphs: 4 variables, up to 3 edges.
    let vars: Vec<Var> = (0..4).map(Var).collect();
    let edge = |mask: usize, form: usize| -> (Option<E>, Option<BI<P, NB>>) {
        let vs: Vec<E> = (0..4u32).filter(|i| mask >> i & 1 == 1).map(var).collect();
        match form {
            0 => (Some(vs.into_iter().fold(num(1), |a, b| a + b)), None),
            1 => (Some(vs.into_iter().fold(num(1), |a, b| a * b) - num(1)), None),
            2 => (None, Some(bus(1, num(1), vs))),
            _ => {
                let m = vs.first().cloned().unwrap_or(num(1));
                (None, Some(bus(1, m, vec![vs.into_iter().skip(1).fold(num(2), |a, b| a + b)])))
            }
        }
    };
    let edges: Vec<(usize, usize)> = (1..16).flat_map(|m| (0..4).map(move |f| (m, f))).collect();
    for k in 1..=tier(2, 3) {
        mc_core::multisets(edges.len(), k).par_iter().for_each(|c| {
            if check.violated() {
                return;
            }
            let (mut a, mut bs) = (vec![], vec![]);
            for i in c {
                let (e, b) = edge(edges[*i].0, edges[*i].1);
                a.extend(e);
                bs.extend(b);
            }
            let s: Sys = system(a, bs);
            let m: Vec<BTreeSet<Var>> = mentions(&s).into_iter().flatten().collect();
            let ics = IndexedConstraintSystem::from(s.clone());
            let r = mc_core::quiet_catch(|| graph(&ics, &m, &vars).and_then(|_| split(&ics, &m))).and_then(|r| r);
            check.eval(1);
            check.states(1);
            check.nontrivial(1);
            if let Err(e) = r {
                check.violation("connectivity", e);
            }
        });
    }

    // Substitution lists applied at once: one after the other.
    let subs: Vec<(Var, E)> = vec![
        (v(0), y.clone()),
        (v(0), y.clone() * z.clone() + one.clone()),
        (v(1), z.clone() + one.clone()),
        (v(1), x.clone() + z.clone()),
        (v(2), num(2)),
        (v(2), x.clone() * y.clone()),
    ];
    let all: Vec<Vec<usize>> = (0..=3).flat_map(|n| mc_core::tuples(subs.len(), n).collect::<Vec<_>>()).collect();
    all.par_iter().for_each(|t| {
        let list: Vec<(Var, E)> = t.iter().map(|i| subs[*i].clone()).collect();
        let mut want = item_tables(&w.pts, &start);
        for (v, e) in &list {
            w.subst(&mut want, *v, &w.pts.table(e));
        }
        check.eval(1);
        check.states(1);
        check.transitions(list.len() as u64);
        let r = mc_core::quiet_catch(|| {
            let got = apply_substitutions(start.clone(), list.clone());
            if item_tables(&w.pts, &got).0 != want.0 {
                return Err(format!("{got}"));
            }
            let es = start.algebraic_constraints.iter().map(|c| c.expression.clone());
            let got = apply_substitutions_to_expressions(es, list.clone());
            let t: Vec<Vec<Table>> = got.iter().map(|e| vec![w.pts.table(e)]).collect();
            if t != want.0[0] {
                return Err(got.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" ; "));
            }
            Ok(())
        })
        .and_then(|r| r);
        if let Err(e) = r {
            let l: Vec<String> = list.iter().map(|(v, e)| format!("{v} := {e}")).collect();
            check.violation("substitutions", format!("{} gives {e}", l.join(", ")));
        }
    });
    check.finish();
}
