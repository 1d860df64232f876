//! C11: every optimisation pass on its own keeps a system's behaviour.
//!
//! All systems of an alphabet made for each pass, with several stateful interactions,
//! go through the real pass (with the solver in the state the optimiser would have it
//! in); the result is compared with the input at every assignment.
use mc_apc::alphabet::*;
use mc_apc::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use mc_cs::*;
use powdr_autoprecompiles::constraint_optimizer::{remove_disconnected_columns, simplify_constraints_using_exhaustive_search};
use powdr_autoprecompiles::low_degree_bus_interaction_optimizer::LowDegreeBusInteractionOptimizer;
use powdr_autoprecompiles::optimizer::optimize_exec_bus;
use powdr_autoprecompiles::range_constraint_optimizer::optimize_range_constraints;
use powdr_autoprecompiles::DegreeBound;
use powdr_constraint_solver::constraint_system::ConstraintSystem;
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::solver::{new_solver, Solver};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pass {
    Disconnected,
    Exhaustive,
    Ranges,
    LowDegree,
    /// low degree and then ranges, as the optimiser does
    LowDegreeThenRanges,
}

struct World2<'a, const P: u32, const NB: usize> {
    c: &'a Check,
    w: &'a World<P, NB>,
}

impl<const P: u32, const NB: usize> World2<'_, P, NB> {
    /// Runs one pass. `Ok(None)`: the solver found that there is no solution.
    fn apply(&self, sys: &CS<P, NB>, pass: Pass, bound: DegreeBound, solve: bool) -> Result<Option<CS<P, NB>>, String> {
        let toy = self.w.toy.clone();
        let what = format!("{pass:?} {sys}");
        self.c.run(
            move || what.clone(),
            || {
                if pass == Pass::Ranges {
                    return Some(optimize_range_constraints(sys.clone(), toy, bound));
                }
                let mut s: IndexedConstraintSystem<_, _> = sys.clone().into();
                let mut solver = new_solver(sys.clone(), toy.clone());
                if solve {
                    s.apply_substitutions(solver.solve().ok()?);
                }
                Some(match pass {
                    Pass::Disconnected => remove_disconnected_columns(s, &mut solver, toy).system().clone(),
                    Pass::Exhaustive => simplify_constraints_using_exhaustive_search(s, &solver).system().clone(),
                    Pass::LowDegree | Pass::LowDegreeThenRanges => {
                        let mut s: ConstraintSystem<_, _> = s.system().clone();
                        // the optimiser puts known values into the fields first
                        for b in &mut s.bus_interactions {
                            for f in b.fields_mut() {
                                let known = solver.range_constraint_for_expression(f).try_to_single_value();
                                if let (Some(n), None) = (known, f.try_to_number()) {
                                    let n = powdr_constraint_solver::grouped_expression::GroupedExpression::from_number(n);
                                    s.algebraic_constraints.push(zero_constraint(f.clone() - n.clone()));
                                    *f = n;
                                }
                            }
                        }
                        let s = LowDegreeBusInteractionOptimizer::new(&mut solver, toy.clone(), bound).optimize(s);
                        if pass == Pass::LowDegree {
                            s
                        } else {
                            optimize_range_constraints(s, toy, bound)
                        }
                    }
                    Pass::Ranges => unreachable!(),
                })
            },
        )
    }

    fn check(&self, sys: &CS<P, NB>, pass: Pass, bound: DegreeBound, solve: bool, cache: &mut Cache<P, NB>) {
        let c = self.c;
        let in_bound = |s: &CS<P, NB>| {
            s.algebraic_constraints.iter().all(|e| degree(&e.expression) <= bound.identities)
                && s.bus_interactions.iter().all(|b| b.fields().all(|f| degree(f) <= bound.bus_interactions))
        };
        if !in_bound(sys) {
            return;
        }
        let text = || format!("{pass:?} (mod {P}, bound {bound:?}, solved first: {solve})\n{sys}");
        c.eval(1);
        c.states(1);
        let new = match self.apply(sys, pass, bound, solve) {
            Ok(Some(new)) => new,
            r => {
                if !self.w.solutions(sys, cache).empty() {
                    c.violation("panic", format!("{}: {:?} but there are solutions", text(), r.err()));
                }
                c.count("no solution: gave up", 1);
                return;
            }
        };
        c.transitions(1);
        match self.w.compare(sys, &new, None, cache) {
            Ok(true) => c.nontrivial((new.to_string() != sys.to_string()) as u64),
            Ok(false) => c.count("no solution, nothing compared", 1),
            Err((kind, m)) => c.violation(kind, format!("{}\nbecame\n{new}\n{m}", text())),
        }
        if !in_bound(&new) {
            c.violation("degree", format!("{}\nbecame\n{new}", text()));
        }
    }
}

const BOUND: DegreeBound = DegreeBound { identities: 3, bus_interactions: 2 };

/// Systems of the general alphabet through all passes.
fn general<const P: u32, const NB: usize>(c: &Check, n: u32, size: usize, keep: impl Fn(&[usize], usize) -> bool + Sync) {
    let w = World::<P, NB>::new(n as usize, Toy::new(P));
    let items = items::<P, NB>(n);
    let outs = stateful::<P, NB>();
    c.batch(&format!("general mod {P}, {n} variables, {size} items"), || {
        subsets(items.len(), size).par_chunks(16).for_each(|chunk| {
            cached(n as usize, |cache| {
                let w = World2 { c, w: &w };
                for sel in chunk {
                    for (oi, out) in outs.iter().enumerate() {
                        if !keep(sel, oi) || c.violated() {
                            continue;
                        }
                        let cs = sel.iter().filter_map(|i| items[*i].clone().ok()).collect();
                        let mut bs: Vec<_> = sel.iter().filter_map(|i| items[*i].clone().err()).collect();
                        bs.extend(out.iter().cloned());
                        let sys = system(cs, bs);
                        for pass in [Pass::Disconnected, Pass::Exhaustive, Pass::LowDegreeThenRanges] {
                            w.check(&sys, pass, BOUND, true, cache);
                        }
                        for pass in [Pass::Disconnected, Pass::Exhaustive, Pass::Ranges] {
                            w.check(&sys, pass, BOUND, false, cache);
                        }
                    }
                }
            });
        });
    });
}

/// Range checks in all combinations through the range optimiser.
fn ranges<const P: u32, const NB: usize>(c: &Check, size: usize, keep: impl Fn(&[usize]) -> bool + Sync) {
    let w = World::<P, NB>::new(3, Toy::new(P));
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let two = || mc_field::Tiny::<P, NB>::new(2);
    let exprs = [x(), y(), z(), x() + y(), x() * two(), x() * y(), x() - k(1), k(1), k(3)];
    let mut bs: Vec<BI<P, NB>> = vec![];
    for (i, e) in exprs.iter().enumerate() {
        bs.push(bus(BIT as i64, k(1), vec![e.clone()]));
        bs.push(bus(PAIR as i64, k(1), vec![e.clone(), exprs[(i + 1) % 5].clone()]));
        bs.push(bus(PAIR as i64, k(1), vec![e.clone(), k(0)]));
        for b in 0..3 {
            bs.push(bus(VARBITS as i64, k(1), vec![e.clone(), k(b)]));
        }
        if TUPLE < P && i < 6 {
            bs.push(bus(TUPLE as i64, k(1), vec![e.clone(), exprs[(i + 2) % 5].clone()]));
        }
        if i < 4 {
            bs.push(bus(XOR as i64, k(1), vec![e.clone(), e.clone(), k(0)]));
            bs.push(bus(XOR as i64, k(1), vec![e.clone(), e.clone(), y()]));
            bs.push(bus(VARBITS as i64, k(1), vec![e.clone(), z()]));
            bs.push(bus(BIT as i64, z(), vec![e.clone()]));
            bs.push(bus(VARBITS as i64, k(2), vec![e.clone(), k(1)]));
        }
    }
    let outs = [vec![bus(OUT as i64, k(1), vec![x(), y()])], vec![bus(OUT as i64, z(), vec![x() + y()])]];
    c.batch(&format!("ranges mod {P}, {size} checks of {}", bs.len()), || {
        subsets(bs.len(), size).par_chunks(16).for_each(|chunk| {
            cached(3, |cache| {
                let w = World2 { c, w: &w };
                for sel in chunk.iter().filter(|s| keep(s)) {
                    for (i, out) in outs.iter().enumerate() {
                        if c.violated() {
                            return;
                        }
                        let mut b: Vec<_> = sel.iter().map(|i| bs[*i].clone()).collect();
                        b.extend(out.iter().cloned());
                        let cs = if i == 0 { vec![] } else { vec![x() * (x() - k(1)) * (x() - k(2))] };
                        w.check(&system(cs.clone(), b.clone()), Pass::Ranges, BOUND, false, cache);
                        if i == 0 {
                            w.check(&system(cs, b), Pass::Ranges, DegreeBound { identities: 1, bus_interactions: 2 }, false, cache);
                        }
                    }
                }
            });
        });
    });
}

/// One lookup with every payload, in every context of ranges, through the low-degree
/// replacement.
fn low_degree<const P: u32, const NB: usize>(c: &Check) {
    let w = World::<P, NB>::new(3, Toy::new(P));
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let two = || mc_field::Tiny::<P, NB>::new(2);
    let exprs = [x(), y(), z(), x() + y(), x() - y(), z() + k(1), x() * two(), x() * y(), k(0), k(1), k(3)];
    let range = |i: usize, e: GE<P, NB>| -> (Vec<GE<P, NB>>, Vec<BI<P, NB>>) {
        match i {
            0 => (vec![], vec![]),
            1 => (vec![e.clone() * (e - k(1))], vec![]),
            2 => (vec![], vec![bus(PAIR as i64, k(1), vec![e, k(0)])]),
            3 => (vec![], vec![bus(ONETWO as i64, k(1), vec![e])]),
            _ => (vec![e.clone() * (e - k(3))], vec![]),
        }
    };
    let mut lookups: Vec<BI<P, NB>> = vec![];
    for id in [XOR, OR, AND, NOT, ODD, PAIR, VARBITS] {
        if id >= P {
            continue;
        }
        let arity = if matches!(id, XOR | OR | AND) { 3 } else { 2 };
        for t in tuples(exprs.len(), arity) {
            let e: Vec<_> = t.iter().map(|i| exprs[*i].clone()).collect();
            if t.iter().collect::<std::collections::BTreeSet<_>>().len() == 1 && t[0] > 2 {
                continue;
            }
            for m in [k(1), z()] {
                if m == z() && t.iter().any(|i| matches!(i, 3..=7)) {
                    continue;
                }
                lookups.push(bus(id as i64, m, e.clone()));
            }
        }
    }
    let out = bus(OUT as i64, k(1), vec![x(), y(), z()]);
    c.batch(&format!("low degree mod {P}, {} lookups", lookups.len()), || {
        lookups.par_iter().for_each(|l| {
            cached(3, |cache| {
                let w = World2 { c, w: &w };
                for r in tuples(5, 3) {
                    if c.violated() {
                        return;
                    }
                    // all combinations for x and y, and each of z's with some
                    if !thorough() && r[2] > 0 && (r[0] != r[1]) && (r[0] + r[1] + r[2]) % 3 != 0 {
                        continue;
                    }
                    let (mut cs, mut bs) = (vec![], vec![l.clone()]);
                    for (i, e) in [(r[0], x()), (r[1], y()), (r[2], z())] {
                        let (a, b) = range(i, e);
                        cs.extend(a);
                        bs.extend(b);
                    }
                    bs.push(out.clone());
                    let sys = system(cs, bs);
                    w.check(&sys, Pass::LowDegree, BOUND, true, cache);
                }
            });
        });
    });
}

/// Sequences of instructions' interactions with the execution bus.
fn execution<const P: u32, const NB: usize>(c: &Check, steps: usize) {
    let w = World::<P, NB>::new(3, Toy::new(P));
    let (x, y, z) = (|| v::<P, NB>(0), || v::<P, NB>(1), || v::<P, NB>(2));
    let args = [
        vec![k(0), x()],
        vec![k(4), x() + k(1)],
        vec![k(4), y()],
        vec![y() + k(1), x() + k(1)],
        vec![z(), x() + k(1)],
        vec![z(), y()],
        vec![k(5), k(2)],
    ];
    let other = bus(PAIR as i64, k(1), vec![x(), z()]);
    c.batch(&format!("execution bus mod {P}, {steps} steps"), || {
        tuples(args.len(), 2 * steps).collect::<Vec<_>>().par_chunks(64).for_each(|chunk| {
            cached(3, |cache| {
                for t in chunk {
                    if c.violated() {
                        return;
                    }
                    let mut hist: Vec<BI<P, NB>> = vec![];
                    for (i, a) in t.iter().enumerate() {
                        hist.push(bus(EXEC as i64, k(if i % 2 == 0 { -1 } else { 1 }), args[*a].clone()));
                    }
                    let mut bs = hist.clone();
                    bs.insert(1, other.clone());
                    bs.push(bus(MEM as i64, k(1), vec![x(), y(), z()]));
                    let sys = system(vec![x() * (x() - k(1))], bs);
                    c.eval(1);
                    c.states(1);
                    let t2 = sys.to_string();
                    let new = match c.run(move || t2.clone(), || from_machine(&optimize_exec_bus(to_machine(&sys), EXEC as u64))) {
                        Ok(new) => new,
                        Err(e) => {
                            c.violation("panic", format!("{sys}: {e}"));
                            continue;
                        }
                    };
                    c.transitions(steps as u64);
                    // Consecutive steps: what is received is what was sent last.
                    let valid = |a: &[mc_field::Tiny<P, NB>]| is_history(&hist, a);
                    // An execution only makes sense if some history is valid.
                    match w.compare(&sys, &new, Some(&valid), cache) {
                        Ok(true) => c.nontrivial(1),
                        Ok(false) => c.count("no valid history", 1),
                        Err((kind, m)) => c.violation(kind, format!("{sys}\nbecame\n{new}\n{m}")),
                    }
                    let left = new.bus_interactions.iter().filter(|b| b.bus_id.try_to_number().unwrap().val() == EXEC).count();
                    if left != 2 {
                        c.violation("execution bus", format!("{sys}\nbecame\n{new}: {left} interactions are left"));
                    }
                }
            });
        });
    });
}

fn main() {
    let c = Check::new(
        "C11",
        "model_checking",
        "for each pass, all systems of its alphabet with several stateful interactions, compared at every assignment",
        &["the system has a solution (disconnected parts are removed under that assumption)"],
    );
    let deep = thorough();
    for size in 0..=2 {
        general::<13, 4>(&c, 3, size, |_, _| true);
        general::<11, 4>(&c, 4, size, |_, _| true);
    }
    general::<11, 4>(&c, 3, 3, |s, o| deep || (s.iter().sum::<usize>() + o) % 14 == 0);
    for size in 1..=2 {
        ranges::<13, 4>(&c, size, |_| true);
    }
    ranges::<13, 4>(&c, 3, |s| deep || s.iter().sum::<usize>() % 4 == 0);
    low_degree::<13, 4>(&c);
    if deep {
        low_degree::<17, 5>(&c);
        general::<13, 4>(&c, 3, 3, |_, _| true);
    }
    for steps in 1..=tier(2, 3) {
        execution::<7, 3>(&c, steps);
    }
    c.sample(json!({"system": "XOR(x, y, z), x*(x-1) = 0, y*(y-1) = 0, OUT(x, y, z)", "pass": "low degree", "compared at": "all 13^3 assignments"}));
    c.finish()
}
