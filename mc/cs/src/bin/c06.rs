//! C06: everything the constraint solver reports holds in every solution.
//!
//! All sequences of actions (add a constraint, a bus interaction or a range, solve,
//! retain variables) up to the bound; after every `solve` all reported facts are
//! compared with the exact solution set of what was added so far.
use mc_core::*;
use mc_cs::*;
use mc_field::Tiny;
use powdr_constraint_solver::constraint_system::AlgebraicConstraint;
use powdr_constraint_solver::grouped_expression::RangeConstraintProvider;
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::solver::exhaustive_search::{exhaustive_search_on_variable_set, get_brute_force_candidates};
use powdr_constraint_solver::solver::{new_solver, solve_system, Solver};
use powdr_constraint_solver::utils;
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Clone)]
enum Act<const P: u32, const NB: usize> {
    C(GE<P, NB>),
    B(BI<P, NB>),
    R(Var, RC<P, NB>),
}
impl<const P: u32, const NB: usize> Act<P, NB> {
    fn show(&self) -> String {
        match self {
            Act::C(e) => format!("{e} = 0"),
            Act::B(b) => b.to_string(),
            Act::R(v, r) => format!("{v} in {r}"),
        }
    }
}

struct World<const P: u32, const NB: usize> {
    sp: Space,
    handler: Tables,
    acts: Vec<(Act<P, NB>, Bits)>,
    queries: Vec<GE<P, NB>>,
    /// byval[q][x]: the points where query q has value x
    byval: Vec<Vec<Bits>>,
}

fn v<const P: u32, const NB: usize>(i: u32) -> GE<P, NB> {
    var(i)
}

impl<const P: u32, const NB: usize> World<P, NB> {
    fn new(n: usize, handler: Tables, acts: Vec<Act<P, NB>>, queries: Vec<GE<P, NB>>) -> Self {
        let sp = Space::new(P as usize, n);
        let acts = acts
            .into_par_iter()
            .map(|a| {
                let b = match &a {
                    Act::C(e) => {
                        let vals = sp.values(e);
                        Bits::from_fn(sp.size, |i| vals[i] == 0)
                    }
                    Act::B(b) => Bits::from_fn(sp.size, |i| {
                        let (id, m, p) = eval_bus(b, &sp.point(i));
                        handler.accepts(id, m, &p)
                    }),
                    Act::R(v, r) => sp.within(v.0 as usize, r),
                };
                (a, b)
            })
            .collect();
        let byval = queries
            .par_iter()
            .map(|q| {
                let vals = sp.values(q);
                (0..P).map(|x| Bits::from_fn(sp.size, |i| vals[i] == x)).collect()
            })
            .collect();
        World { sp, handler, acts, queries, byval }
    }

    /// Runs one sequence. `rounds`: after how many actions to solve.
    fn run(&self, seq: &[usize], solve_each: bool, retain: Option<u32>) -> Result<bool, String> {
        let sp = &self.sp;
        let mut live = sp.all();
        let mut solver = new_solver(system::<P, NB>(vec![], vec![]), self.handler.clone());
        let mut assigned: Vec<(Var, GE<P, NB>)> = vec![];
        let mut said = false;
        for (k, i) in seq.iter().enumerate() {
            let (a, sol) = &self.acts[*i];
            live = live.and(sol);
            match a {
                Act::C(e) => solver.add_algebraic_constraints([AlgebraicConstraint::assert_zero(e.clone())]),
                Act::B(b) => solver.add_bus_interactions([b.clone()]),
                Act::R(v, r) => solver.add_range_constraint(v, *r),
            }
            if !solve_each && k + 1 < seq.len() {
                continue;
            }
            match solver.solve() {
                Err(e) => {
                    return match live.first() {
                        Some(i) => Err(format!("unsatisfiable ({e:?}) but {} is a solution", sp.show(i))),
                        None => Ok(true),
                    }
                }
                Ok(list) => {
                    for (x, e) in list {
                        said = true;
                        let vals = sp.values(&e);
                        let ok = Bits::from_fn(sp.size, |i| vals[i] as usize == sp.digit(i, x.0 as usize));
                        if let Some(i) = live.minus(&ok).first() {
                            return Err(format!("assigned {x} = {e} but {} is a solution", sp.show(i)));
                        }
                        assigned.push((x, e));
                    }
                }
            }
            said |= self.query(&mut solver, &live, &assigned)?;
            if k == 0 {
                if let Some(keep) = retain {
                    let keep: HashSet<Var> = (0..sp.n as u32).filter(|j| keep >> j & 1 == 1).map(Var).collect();
                    solver.retain_variables(&keep);
                    said |= self.query(&mut solver, &live, &assigned)?;
                }
            }
        }
        Ok(said)
    }

    fn query(&self, solver: &mut impl Solver<Tiny<P, NB>, Var>, live: &Bits, assigned: &[(Var, GE<P, NB>)]) -> Result<bool, String> {
        let sp = &self.sp;
        let mut said = false;
        for x in 0..sp.n {
            let rc = solver.get(&Var(x as u32));
            let ok = sp.within(x, &rc);
            if let Some(i) = live.minus(&ok).first() {
                return Err(format!("range {rc} for {} but {} is a solution", Var(x as u32), sp.show(i)));
            }
            said |= !rc.is_unconstrained();
        }
        // The user applies the assignments to expressions before asking about them.
        let qs: Vec<GE<P, NB>> = self
            .queries
            .iter()
            .map(|q| {
                let mut q = q.clone();
                for (x, e) in assigned {
                    q.substitute_by_unknown(x, e);
                }
                q
            })
            .collect();
        for (q, by) in qs.iter().zip(&self.byval) {
            let rc = solver.range_constraint_for_expression(q);
            let k = solver.try_to_equivalent_constant(q);
            let al = allowed(&rc);
            for x in 0..P {
                let bad_range = !al.contains(&Tiny::new(x as i64));
                if bad_range || k.is_some_and(|k| k.val() != x) {
                    if let Some(i) = live.and(&by[x as usize]).first() {
                        return Err(format!("({q}) has range {rc} and constant {k:?} but {} is a solution", sp.show(i)));
                    }
                }
            }
        }
        for (a, qa) in qs.iter().enumerate() {
            for (b, qb) in qs.iter().enumerate().take(6) {
                if solver.are_expressions_known_to_be_different(qa, qb) {
                    said = true;
                    for x in 0..P as usize {
                        if let Some(i) = live.and(&self.byval[a][x]).and(&self.byval[b][x]).first() {
                            return Err(format!("({qa}) and ({qb}) called different but {} is a solution", sp.show(i)));
                        }
                    }
                }
            }
        }
        Ok(said)
    }

    fn go(&self, c: &Check, seq: &[usize], solve_each: bool, retain: Option<u32>) {
        if c.violated() {
            return;
        }
        let text: Vec<String> = seq.iter().map(|i| self.acts[*i].0.show()).collect();
        let text = format!("[{}] (mod {P}, solve each {solve_each}, retain {retain:?})", text.join("; "));
        let t2 = text.clone();
        let r = c.run(move || t2.clone(), || self.run(seq, solve_each, retain));
        c.eval(1);
        c.transitions(seq.len() as u64);
        match r {
            Ok(Ok(true)) => c.nontrivial(1),
            Ok(Ok(false)) => {}
            Ok(Err(m)) => c.violation("solver", format!("{text}: {m}")),
            Err(m) => c.violation("panic", format!("{text}: {m}")),
        }
    }
}

fn alphabet<const P: u32, const NB: usize>() -> Vec<Act<P, NB>> {
    let n = |k: i64| num::<P, NB>(k);
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let s = |e: GE<P, NB>, k: i64| e * Tiny::<P, NB>::new(k);
    let mut a: Vec<Act<P, NB>> = [
        x() * (x() - n(1)),
        y() * (y() - n(1)),
        z() * (z() - n(1)),
        x() * (x() - n(2)),
        (x() - n(1)) * (x() - n(3)),
        x() + y() - n(1),
        x() + y() + z() - n(1),
        x() - y(),
        y() - z(),
        x() + s(y(), 2) - z(),
        x() + s(y(), 4) - z(),
        x() + s(y(), 2) + s(z(), 4) - n(5),
        x() - s(y(), 3) - n(2),
        s(x(), 2) - y(),
        s(x(), 2) + s(y(), 2) - n(2),
        x() * y(),
        x() * (y() - n(1)),
        x() * y() - z(),
        x() * y() + z() - n(1),
        (x() + y()) * (x() + y() - n(1)),
        (x() + y()) * (x() + y() - n(4)),
        (s(x(), 2) + s(y(), 2)) * (x() + y() + n(5)),
        (x() - y()) * (x() - y()),
        (x() + y()) * (z() - n(1)),
        (x() + y() - n(1)) * (y() + z() - n(1)),
        (x() - y()) * z() - n(1),
        x() * z() - n(1),
        (x() - n(1)) * (y() - n(1)) * (z() - n(1)),
        x() * (x() * y() - z()),
        x() * y() + y() * z() - n(1),
        z() * (x() - y()),
        (n(1) - z()) * (x() - y() - n(1)),
        (x() * y()) * (x() * y() - n(1)),
        (x() * y() + z()) * (x() * y() + z() - n(2)),
        x() * (n(1) - x() * z()),
        s(x() * x(), 1) - y(),
    ]
    .into_iter()
    .map(Act::C)
    .collect();
    let b = |id: i64, m: GE<P, NB>, p: Vec<GE<P, NB>>| Act::B(bus(id, m, p));
    a.extend([
        b(1, n(1), vec![x(), y()]),
        b(1, n(1), vec![x() + y(), z()]),
        b(1, z(), vec![x(), n(1)]),
        b(2, n(1), vec![x(), y(), z()]),
        b(2, n(1), vec![x(), y(), n(0)]),
        b(2, n(1), vec![x(), n(3), z()]),
        b(2, n(1), vec![x() * y(), z(), n(1)]),
        b(2, n(-1), vec![x() - n(1), x() - n(1), y()]),
        b(3, n(1), vec![x() - y()]),
        b(4, z(), vec![x(), y()]),
        b(1, x() + y(), vec![n(3), z()]),
    ]);
    let r = |a: i64, b: i64| RC::<P, NB>::from_range(Tiny::new(a), Tiny::new(b));
    a.extend([
        Act::R(Var(0), r(0, 1)),
        Act::R(Var(0), r(0, 3)),
        Act::R(Var(1), r(0, 3)),
        Act::R(Var(2), r(0, 2)),
        Act::R(Var(1), r(-1, 1)),
        Act::R(Var(0), RC::from_mask(6u64)),
        Act::R(Var(2), r(1, 2)),
        Act::R(Var(1), r(-2, -1)),
    ]);
    a
}

fn tables<const P: u32>() -> Tables {
    let mut t: BTreeMap<u32, Vec<Vec<u32>>> = BTreeMap::new();
    t.insert(1, (0..4).flat_map(|a| (0..2).map(move |b| vec![a, b])).collect());
    t.insert(2, (0..4).flat_map(|a| (0..4).map(move |b| vec![a, b, a ^ b])).collect());
    t.insert(3, vec![vec![1], vec![2], vec![P - 1]]);
    Tables::new(t, 2)
}

fn queries<const P: u32, const NB: usize>() -> Vec<GE<P, NB>> {
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let n = |k: i64| num::<P, NB>(k);
    vec![
        x(),
        y(),
        z(),
        n(0),
        n(2),
        x() + y(),
        x() + y() - n(1),
        x() * y(),
        x() + y() + z(),
        x() - y(),
        z() * (x() - y()),
        x() * y() + z(),
        (x() + y()) * (z() - n(1)),
        x() + y() * Tiny::<P, NB>::new(2),
        (x() - n(1)) * (y() - n(1)) * (z() - n(1)),
        x() * x(),
    ]
}

fn explore<const P: u32, const NB: usize>(c: &Arc<Check>, triples: bool) {
    let w = World::<P, NB>::new(3, tables::<P>(), alphabet(), queries());
    let k = w.acts.len();
    c.count("actions", k as u64);
    let mut seqs: Vec<(Vec<usize>, bool, Option<u32>)> = vec![];
    for i in 0..k {
        seqs.push((vec![i], true, None));
        for j in 0..k {
            seqs.push((vec![i, j], true, None));
            seqs.push((vec![i, j], false, None));
            if (i + j) % 3 == 0 || thorough() {
                seqs.push((vec![i, j], true, Some(1 + ((i * 7 + j) % 7) as u32)));
            }
        }
    }
    if triples {
        for t in subsets(k, 3) {
            seqs.push((t.clone(), false, None));
            if thorough() {
                seqs.push((t.clone(), true, None));
                seqs.push((vec![t[2], t[1], t[0]], true, None));
                seqs.push((vec![t[1], t[0], t[2]], true, Some(6)));
            }
        }
    }
    if thorough() && P <= 7 {
        for t in subsets(k, 4) {
            seqs.push((t.clone(), false, None));
        }
    }
    c.states(seqs.len() as u64);
    c.sample(json!({"modulus": P, "sequence": seqs[seqs.len() / 2].0.iter().map(|i| w.acts[*i].0.show()).collect::<Vec<_>>()}));
    seqs.par_iter().for_each(|(s, e, r)| w.go(c, s, *e, *r));
}

/// Affine constraints under all ranges of an alphabet: where splitting by bit areas applies.
fn splitting<const P: u32, const NB: usize>(c: &Arc<Check>) {
    let sp = Space::new(P as usize, 3);
    let r = |a: i64, b: i64| RC::<P, NB>::from_range(Tiny::new(a), Tiny::new(b));
    let rcs = [r(0, 1), r(0, 3), r(-1, 1), r(-1, 2), r(1, 2), RC::from_mask(5u64)];
    let coeffs: Vec<i64> = vec![1, 2, 3, 4, 8, -1, -2, -4];
    let boxes: Vec<(Vec<RC<P, NB>>, Vec<usize>)> = tuples(rcs.len(), 3)
        .map(|t| {
            let r: Vec<RC<P, NB>> = t.iter().map(|i| rcs[*i]).collect();
            let b = sp.boxed(&r);
            (r, (0..sp.size).filter(|i| b.get(*i)).collect())
        })
        .collect();
    let jobs: Vec<(i64, i64, i64)> = coeffs
        .iter()
        .flat_map(|a| coeffs.iter().filter(move |b| thorough() || **b >= *a).flat_map(move |b| (0..P as i64).map(move |k| (*a, *b, k))))
        .collect();
    let n = AtomicU64::new(0);
    jobs.par_iter().for_each(|&(a, b, k)| {
        if c.violated() {
            return;
        }
        let e: GE<P, NB> = v::<P, NB>(0) + v::<P, NB>(1) * Tiny::<P, NB>::new(a) + v::<P, NB>(2) * Tiny::<P, NB>::new(b) + num(k);
        let shown = e.to_string();
        let res = c.run(move || shown.clone(), || {
            for (rc, pts) in &boxes {
                n.fetch_add(1, Ordering::Relaxed);
                let sols: Vec<usize> = pts
                    .iter()
                    .copied()
                    .filter(|i| {
                        let s = sp.digit(*i, 0) as i64 + a * sp.digit(*i, 1) as i64 + b * sp.digit(*i, 2) as i64 + k;
                        s.rem_euclid(P as i64) == 0
                    })
                    .collect();
                let mut solver = new_solver(system::<P, NB>(vec![], vec![]), Tables::new(Default::default(), 0));
                for (i, r) in rc.iter().enumerate() {
                    solver.add_range_constraint(&Var(i as u32), *r);
                }
                solver.add_algebraic_constraints([AlgebraicConstraint::assert_zero(e.clone())]);
                let fail = |m: String| Err(format!("{e} = 0 with {} {} {}: {m} (mod {P})", rc[0], rc[1], rc[2]));
                match solver.solve() {
                    Err(m) => {
                        if let Some(i) = sols.first() {
                            return fail(format!("unsatisfiable ({m:?}) but {} is a solution", sp.show(*i)));
                        }
                        c.nontrivial(1);
                    }
                    Ok(list) => {
                        if !list.is_empty() {
                            c.nontrivial(1);
                        }
                        for i in &sols {
                            let pt = sp.point::<P, NB>(*i);
                            for (x, ex) in &list {
                                if eval(ex, &pt) != pt[x.0 as usize] {
                                    return fail(format!("assigned {x} = {ex} but {} is a solution", sp.show(*i)));
                                }
                            }
                            for x in 0..3u32 {
                                if !solver.get(&Var(x)).allows_value(pt[x as usize]) {
                                    return fail(format!("range {} for {} but {} is a solution", solver.get(&Var(x)), Var(x), sp.show(*i)));
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        match res {
            Ok(Ok(())) => {}
            Ok(Err(m)) => c.violation("splitting", m),
            Err(m) => c.violation("panic", format!("{e}: {m}")),
        }
    });
    let n = n.into_inner();
    c.eval(n);
    c.states(n);
    c.transitions(n);
    c.count("affine_constraints_with_ranges", n);
}

/// The enumeration helpers behind exhaustive search.
fn enumeration<const P: u32, const NB: usize>(c: &Arc<Check>) {
    let w = World::<P, NB>::new(3, tables::<P>(), alphabet(), vec![]);
    let r = |a: i64, b: i64| RC::<P, NB>::from_range(Tiny::new(a), Tiny::new(b));
    let rcs: Vec<RC<P, NB>> = vec![r(0, 1), r(-1, 1), RC::from_mask(5u64), r(2, 2), r(0, 4)];
    let boxes: Vec<HashMap<Var, RC<P, NB>>> = tuples(rcs.len(), 3)
        .map(|t| t.iter().enumerate().map(|(i, k)| (Var(i as u32), rcs[*k])).collect())
        .collect();
    let sp = &w.sp;
    let pairs: Vec<Vec<usize>> = subsets(w.acts.len(), 2).into_iter().filter(|p| p.iter().all(|i| !matches!(w.acts[*i].0, Act::R(..)))).collect();
    boxes.par_iter().for_each(|rc| {
        if c.violated() {
            return;
        }
        let inside = sp.boxed(&[rc[&Var(0)], rc[&Var(1)], rc[&Var(2)]]);
        let sets: Vec<BTreeSet<Var>> = (0..8u32).map(|m| (0..3).filter(|i| m >> i & 1 == 1).map(Var).collect()).collect();
        let show = format!("{rc:?}");
        let res = c.run(move || show.clone(), || -> Result<(), String> {
            for set in &sets {
                let mut want: Vec<BTreeMap<Var, Tiny<P, NB>>> = vec![BTreeMap::new()];
                for x in set {
                    want = want
                        .into_iter()
                        .flat_map(|m| {
                            allowed(&rc[x]).into_iter().map(move |k| {
                                let mut m = m.clone();
                                m.insert(*x, k);
                                m
                            })
                        })
                        .collect();
                }
                if !set.is_empty() {
                    let got: Vec<_> = utils::get_all_possible_assignments(set.iter().copied(), rc).collect();
                    let g: BTreeSet<_> = got.iter().cloned().collect();
                    if g.len() != got.len() || g != want.iter().cloned().collect() {
                        return Err(format!("assignments of {set:?} within {rc:?}: {} listed, {} exist", got.len(), want.len()));
                    }
                }
                for th in [0u64, 1, 2, 4, 8, 20, 1000] {
                    c.eval(1);
                    if utils::has_few_possible_assignments(set.iter().copied(), rc, th) && want.len() as u64 > th {
                        return Err(format!("{set:?} within {rc:?}: {} assignments called at most {th}", want.len()));
                    }
                }
            }
            for (a, _) in &w.acts {
                if let Act::C(e) = a {
                    c.eval(1);
                    if let Some(vals) = utils::possible_concrete_values(e, rc, 100) {
                        let got: BTreeSet<u32> = vals.map(|k| k.val()).collect();
                        let want: BTreeSet<u32> = (0..sp.size).filter(|i| inside.get(*i)).map(|i| eval(e, &sp.point::<P, NB>(i)).val()).collect();
                        if got != want {
                            return Err(format!("values of {e} within {rc:?}: {got:?}, possible are {want:?}"));
                        }
                    }
                }
            }
            for p in pairs.iter().filter(|p| thorough() || (p[0] + p[1]) % 2 == 0) {
                let mut s = system::<P, NB>(vec![], vec![]);
                let mut live = inside.clone();
                for i in p {
                    match &w.acts[*i].0 {
                        Act::C(e) => s.algebraic_constraints.push(AlgebraicConstraint::assert_zero(e.clone())),
                        Act::B(b) => s.bus_interactions.push(b.clone()),
                        _ => unreachable!(),
                    }
                    live = live.and(&w.acts[*i].1);
                }
                let text = s.to_string();
                let ix = IndexedConstraintSystem::from(s);
                for set in get_brute_force_candidates(&ix, rc) {
                    c.eval(1);
                    match exhaustive_search_on_variable_set(&ix, &set, rc, &w.handler) {
                        Err(_) => {
                            if let Some(i) = live.first() {
                                return Err(format!("{text}\nsearch over {set:?} found a contradiction but {} is a solution", sp.show(i)));
                            }
                        }
                        Ok(m) => {
                            for (x, r) in m {
                                c.nontrivial(1);
                                if let Some(i) = live.minus(&sp.within(x.0 as usize, &r)).first() {
                                    return Err(format!("{text}\nsearch over {set:?} within {rc:?} found {x} in {r} but {} is a solution", sp.show(i)));
                                }
                            }
                        }
                    }
                }
            }
            Ok(())
        });
        match res {
            Ok(Ok(())) => {}
            Ok(Err(m)) => c.violation("search", m),
            Err(m) => c.violation("panic", format!("{rc:?}: {m}")),
        }
    });
}

fn main() {
    let c = Check::new(
        "C06",
        "model_checking",
        "all sequences of solver actions within the bound; every assignment, range, constant, disequality and error compared with the exact solution set; non-trivial: the solver deduced something",
        &["fields of 7, 13 and 31 elements", "lookup buses refine ranges exactly", "new constraints mention variables the solver may have assigned before"],
    );
    explore::<7, 3>(&c, true);
    explore::<31, 5>(&c, true);
    explore::<13, 5>(&c, thorough());
    splitting::<31, 5>(&c);
    if thorough() {
        splitting::<61, 6>(&c);
    }
    enumeration::<7, 3>(&c);
    // Whole systems through the one-shot entry point.
    let w = World::<7, 3>::new(3, tables::<7>(), alphabet(), vec![]);
    let k = w.acts.len();
    subsets(k, 2).par_iter().for_each(|p| {
        let mut s = system::<7, 3>(vec![], vec![]);
        let mut live = w.sp.all();
        for i in p {
            match &w.acts[*i].0 {
                Act::C(e) => s.algebraic_constraints.push(AlgebraicConstraint::assert_zero(e.clone())),
                Act::B(b) => s.bus_interactions.push(b.clone()),
                Act::R(..) => return,
            }
            live = live.and(&w.acts[*i].1);
        }
        c.eval(1);
        let text = s.to_string();
        match quiet_catch(|| solve_system(s, w.handler.clone())) {
            Err(m) => c.violation("panic", format!("{text}: {m}")),
            Ok(Err(_)) => {
                if !live.empty() {
                    c.violation("solve_system", format!("{text}: unsatisfiable"));
                }
            }
            Ok(Ok(list)) => {
                for (x, e) in list {
                    let vals = w.sp.values(&e);
                    let ok = Bits::from_fn(w.sp.size, |i| vals[i] as usize == w.sp.digit(i, x.0 as usize));
                    if !live.subset(&ok) {
                        c.violation("solve_system", format!("{text}: {x} = {e}"));
                    }
                }
            }
        }
    });
    c.finish()
}
