//! C13: optimising a whole machine keeps its behaviour.
//!
//! All machines of up to three constraints or lookups from an alphabet with each of a
//! set of stateful interactions go through the whole optimiser; the solutions and what
//! the outside can see are compared at every assignment.
use mc_apc::alphabet::*;
use mc_apc::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::json;
use mc_core::*;
use mc_cs::*;
use mc_field::Tiny;
use powdr_autoprecompiles::bus_map::BusMap;
use powdr_autoprecompiles::export::ExportOptions;
use powdr_autoprecompiles::optimizer::optimize;
use powdr_autoprecompiles::{ColumnAllocator, DegreeBound};
use powdr_openvm_bus_interaction_handler::memory_bus_interaction::OpenVmMemoryBusInteraction;
use powdr_autoprecompiles::expression::AlgebraicReference;

struct Run<'a, const P: u32, const NB: usize> {
    c: &'a Check,
    w: &'a World<P, NB>,
    bound: DegreeBound,
    map: &'a BusMap<u8>,
    valid: Option<&'a dyn Fn(&[Tiny<P, NB>]) -> bool>,
}

impl<const P: u32, const NB: usize> Run<'_, P, NB> {
    fn check(&self, sys: &CS<P, NB>, cache: &mut Cache<P, NB>) {
        let c = self.c;
        let n = self.w.sp.n as u64;
        let machine = to_machine(sys);
        let (ids, inter) = (self.bound.identities, self.bound.bus_interactions);
        if sys.algebraic_constraints.iter().any(|e| degree(&e.expression) > ids)
            || sys.bus_interactions.iter().any(|b| b.fields().any(|f| degree(f) > inter))
        {
            return;
        }
        let text = format!("{sys}\n(mod {P}, bound {:?})", self.bound);
        let t2 = text.clone();
        c.eval(1);
        c.states(1);
        let run = c.run(
            move || t2.clone(),
            || {
                let mut alloc = ColumnAllocator::from_max_poly_id_of_machine(&machine);
                while !alloc.is_known_id(n - 1) {
                    alloc.issue_next_poly_id();
                }
                optimize::<Tiny<P, NB>, Toy, u8, OpenVmMemoryBusInteraction<Tiny<P, NB>, AlgebraicReference>>(
                    machine.clone(),
                    self.w.toy.clone(),
                    self.bound,
                    self.map,
                    alloc,
                    &mut ExportOptions::default(),
                )
                .map(|(m, _)| from_machine(&m))
            },
        );
        let satisfiable = || match self.valid {
            None => !self.w.solutions(sys, &mut Cache::default()).empty(),
            Some(f) => {
                let s = self.w.solutions(sys, &mut Cache::default());
                (0..self.w.sp.size).any(|i| s.get(i) && f(&self.w.pts[i]))
            }
        };
        let new = match run {
            Ok(Ok(new)) => new,
            Ok(Err(e)) => {
                if satisfiable() {
                    c.violation("unsatisfiable", format!("{text}: reported as {e:?} but has solutions"));
                }
                c.count("reported as unsatisfiable", 1);
                return;
            }
            Err(e) => {
                if satisfiable() {
                    let site = e.split(" at ").nth(1).unwrap_or("").split(".rs").next().unwrap_or("").to_string();
                    c.violation(&format!("panic {}", site.rsplit('/').next().unwrap_or("")), format!("{text}: {e}"));
                }
                c.count("gave up on an unsatisfiable machine", 1);
                return;
            }
        };
        match self.w.compare(sys, &new, self.valid, cache) {
            Ok(true) => c.nontrivial(1),
            Ok(false) => c.count("no solution, nothing compared", 1),
            Err((kind, m)) => c.violation(kind, format!("{text}\nbecame\n{new}\n{m}")),
        }
        c.transitions(1);
        for e in &new.algebraic_constraints {
            if degree(&e.expression) > ids {
                c.violation("degree", format!("{text}\nbecame\n{new}: {} has degree {}", e.expression, degree(&e.expression)));
            }
        }
        for b in &new.bus_interactions {
            if b.fields().any(|f| degree(f) > inter) {
                c.violation("degree of a bus interaction", format!("{text}\nbecame\n{new}: {b}"));
            }
        }
    }
}

/// Every choice of `size` items with every context.
fn explore<const P: u32, const NB: usize>(
    c: &Check,
    n: u32,
    size: usize,
    (identities, bus_interactions): (usize, usize),
    with_history: bool,
    keep: impl Fn(&[usize], usize) -> bool + Sync,
) {
    let w = World::<P, NB>::new(n as usize, Toy::new(P));
    let items = items::<P, NB>(n);
    let contexts = if with_history { histories::<P, NB>(n) } else { stateful() };
    let valid: Vec<Bits> = contexts.iter().map(|bs| Bits::from_fn(w.sp.size, |i| !with_history || is_history(bs, &w.pts[i]))).collect();
    let name = format!("mod {P}, {n} variables, {size} items, bounds {identities}/{bus_interactions}{}", if with_history { ", histories" } else { "" });
    c.batch(&name, || {
        subsets(items.len(), size).par_chunks(16).for_each(|chunk| {
            cached(n as usize, |cache| {
                for sel in chunk {
                    for (oi, out) in contexts.iter().enumerate() {
                        if !keep(sel, oi) || c.violated() {
                            continue;
                        }
                        let cs = sel.iter().filter_map(|i| items[*i].clone().ok()).collect();
                        let mut bs: Vec<_> = sel.iter().filter_map(|i| items[*i].clone().err()).collect();
                        bs.extend(out.iter().cloned());
                        let has = |id: u32| out.iter().any(|b| b.bus_id.try_to_number().unwrap().val() == id);
                        let map = map(has(MEM), with_history && has(EXEC));
                        let sp = &w.sp;
                        let index = |a: &[Tiny<P, NB>]| a[..n as usize].iter().rev().fold(0usize, |i, d| i * sp.p + d.val() as usize);
                        let ok = |a: &[Tiny<P, NB>]| valid[oi].get(index(a));
                        let run = Run { c, w: &w, bound: DegreeBound { identities, bus_interactions }, map: &map, valid: with_history.then_some(&ok) };
                        run.check(&system(cs, bs), cache);
                    }
                }
            });
        });
    });
}

fn main() {
    let c = Check::new(
        "C13",
        "model_checking",
        "all machines of up to three constraints and lookups of an alphabet with each of several sets of stateful interactions, the visible interactions compared at every assignment",
        &["the machine has a solution (the optimiser removes disconnected parts under that assumption)"],
    );
    let all = |_: &[usize], _: usize| true;
    let deep = thorough();
    for size in 0..=2 {
        explore::<11, 4>(&c, 3, size, (3, 2), false, all);
        explore::<13, 4>(&c, 3, size, (3, 2), false, all);
        explore::<11, 4>(&c, 3, size, (3, 2), true, all);
        explore::<11, 4>(&c, 4, size, (3, 2), false, all);
        explore::<11, 4>(&c, 4, size, (3, 2), true, all);
        for bounds in [(2, 1), (4, 3), (8, 8)] {
            explore::<13, 4>(&c, 3, size, bounds, false, all);
        }
    }
    c.sample(json!({"machine": "x*(x-1) = 0, XOR(x, y, z), OUT(y)", "transformation": "the whole optimiser", "compared at": "all 13^3 assignments"}));
    explore::<11, 4>(&c, 3, 3, (3, 2), false, |sel, o| deep || (sel.iter().sum::<usize>() + o) % 4 == 0);
    if deep {
        explore::<13, 4>(&c, 3, 3, (3, 2), false, all);
        explore::<11, 4>(&c, 3, 3, (3, 2), true, all);
        explore::<11, 4>(&c, 4, 3, (3, 2), false, |sel, o| (sel.iter().sum::<usize>() + o) % 4 == 0);
    }
    c.finish()
}
