//! C07: inlining keeps the solutions of the system, what the buses see, the protected
//! variables and the degree bound.
//!
//! All systems of up to three constraints of an alphabet x bus interactions x protected
//! sets x degree bounds; the result is compared point by point over all assignments.
use mc_core::*;
use mc_cs::*;
use mc_field::Tiny;
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::inliner::{
    inline_everything_below_degree_bound, replace_constrained_witness_columns,
    substitution_would_not_violate_degree_bound, DegreeBound,
};
use rayon::prelude::*;
use serde_json::json;

const P: u32 = 5;
const NB: usize = 3;
const N: usize = 4;
type G = GE<P, NB>;

fn v(i: u32) -> G {
    var(i)
}
fn k(i: i64) -> G {
    num(i)
}
fn s(e: G, c: i64) -> G {
    e * Tiny::<P, NB>::new(c)
}

fn alphabet() -> Vec<G> {
    let (x, y, z, w) = (|| v(0), || v(1), || v(2), || v(3));
    vec![
        x() - k(3),
        x() - y(),
        y() - z() - k(1),
        z() - w(),
        x() + y() + z(),
        s(x(), 2) + s(y(), 3) - w(),
        w() - x() - k(2),
        x() + y() + z() + w() - k(1),
        s(w(), 2) - z(),
        x() - y() * z(),
        y() - z() * w(),
        z() - x() * x(),
        w() - y() * y() - x(),
        y() + w() * w() * w(),
        z() + x() * (y() + k(1)) - k(1),
        x() * (x() - k(1)),
        y() * (y() - k(1)),
        x() * y(),
        x() * y() - k(1),
        x() * y() + x() - z(),
        x() * y() + y() + x(),
        (x() + y()) * (z() + w()) + y(),
        x() * y() * z() - w(),
        x() * y() * z() * w() - k(1),
        (x() + y()) * (x() + y()) - z() + w(),
        y() * (w() - k(1)) + w(),
        s(z() * w(), 3) - s(x(), 2),
        y() - y() * z() - x(),
        w() * w() - z() * z() + x() + z(),
        k(0),
        k(2),
        x() - x() * w() + w(),
    ]
}

fn buses() -> Vec<BI<P, NB>> {
    let (x, y, z, w) = (|| v(0), || v(1), || v(2), || v(3));
    vec![
        bus(9, k(1), vec![x(), y()]),
        bus(9, w(), vec![z() * y(), x() + w()]),
        bus(9, x(), vec![k(1), y() * y() + z()]),
        bus(1, z(), vec![x() * w(), y()]),
    ]
}

fn derived() -> Vec<DerivedVariable<Tiny<P, NB>, Var, G>> {
    vec![
        DerivedVariable { variable: Var(3), computation_method: ComputationMethod::QuotientOrZero(v(0) + v(1), v(2) - v(1)) },
        DerivedVariable { variable: Var(2), computation_method: ComputationMethod::Constant(Tiny::new(3)) },
    ]
}

fn method(m: &ComputationMethod<Tiny<P, NB>, G>, pt: &[Tiny<P, NB>]) -> u32 {
    match m {
        ComputationMethod::Constant(c) => c.val(),
        ComputationMethod::QuotientOrZero(a, b) => {
            let (a, b) = (eval(a, pt).val(), eval(b, pt).val());
            (0..P).find(|q| b != 0 && q * b % P == a).unwrap_or(0)
        }
    }
}

struct World {
    sp: Space,
    pts: Vec<Vec<Tiny<P, NB>>>,
    cons: Vec<(G, Bits)>,
    buses: Vec<BI<P, NB>>,
}

impl World {
    fn zeros(&self, e: &G) -> Bits {
        Bits::from_fn(self.sp.size, |i| eval(e, &self.pts[i]).val() == 0)
    }

    fn check(&self, sel: &[usize], bs: &[usize], protect: u32, bound: Option<DegreeBound>, api: bool) -> Result<bool, String> {
        let mut sys = system::<P, NB>(
            sel.iter().map(|i| self.cons[*i].0.clone()).collect(),
            bs.iter().map(|i| self.buses[*i].clone()).collect(),
        );
        sys.derived_variables = derived();
        let orig = sys.clone();
        let ix = IndexedConstraintSystem::from(sys);
        let (new, subs) = match (bound, api) {
            (Some(b), true) => replace_constrained_witness_columns(ix, inline_everything_below_degree_bound(b)),
            (Some(b), false) => replace_constrained_witness_columns(ix, |x, e, s| {
                protect >> x.0 & 1 == 0 && substitution_would_not_violate_degree_bound(x, e, s, b)
            }),
            (None, _) => replace_constrained_witness_columns(ix, |x, _, _| protect >> x.0 & 1 == 0),
        };
        let sp = &self.sp;
        let mut before = sp.all();
        for i in sel {
            before = before.and(&self.cons[*i].1);
        }
        let mut after = sp.all();
        for c in new.algebraic_constraints() {
            after = after.and(&self.zeros(&c.expression));
        }
        for (x, e) in &subs {
            if !api && protect >> x.0 & 1 == 1 {
                return Err(format!("protected variable {x} was inlined"));
            }
            if e.referenced_unknown_variables().any(|y| y == x) {
                return Err(format!("{x} is replaced by {e}, which contains it"));
            }
            after = after.and(&Bits::from_fn(sp.size, |i| eval(e, &self.pts[i]) == self.pts[i][x.0 as usize]));
        }
        if let Some(i) = before.minus(&after).first() {
            return Err(format!("solution {} was lost\nresult:\n{new}\ninlined {subs:?}", sp.show(i)));
        }
        if let Some(i) = after.minus(&before).first() {
            return Err(format!("{} became a solution\nresult:\n{new}\ninlined {subs:?}", sp.show(i)));
        }
        let sys: CS<P, NB> = new.into();
        let removed = |e: &G| e.referenced_unknown_variables().find(|y| subs.contains_key(y)).copied();
        for e in sys.algebraic_constraints.iter().map(|c| &c.expression).chain(sys.bus_interactions.iter().flat_map(|b| b.fields())) {
            if let Some(y) = removed(e) {
                return Err(format!("{y} was inlined but {e} still mentions it"));
            }
        }
        if sys.bus_interactions.len() != orig.bus_interactions.len() || sys.derived_variables.len() != orig.derived_variables.len() {
            return Err(format!("bus interactions or derived variables lost\n{sys}"));
        }
        for i in (0..sp.size).filter(|i| before.get(*i)) {
            for (a, b) in orig.bus_interactions.iter().zip(&sys.bus_interactions) {
                if eval_bus(a, &self.pts[i]) != eval_bus(b, &self.pts[i]) {
                    return Err(format!("bus interaction {a} became {b}: they differ at {}", sp.show(i)));
                }
            }
            for (a, b) in orig.derived_variables.iter().zip(&sys.derived_variables) {
                if a.variable != b.variable || method(&a.computation_method, &self.pts[i]) != method(&b.computation_method, &self.pts[i]) {
                    return Err(format!("definition {} := {} became {} := {}: they differ at {}", a.variable, a.computation_method, b.variable, b.computation_method, sp.show(i)));
                }
            }
        }
        if let Some(b) = bound {
            let old: Vec<&G> = orig.algebraic_constraints.iter().map(|c| &c.expression).collect();
            for c in &sys.algebraic_constraints {
                if degree(&c.expression) > b.identities && !old.contains(&&c.expression) {
                    return Err(format!("{} = 0 exceeds the degree bound {b:?}", c.expression));
                }
            }
            for (a, o) in sys.bus_interactions.iter().zip(&orig.bus_interactions) {
                for (e, f) in a.fields().zip(o.fields()) {
                    if degree(e) > b.bus_interactions && e != f {
                        return Err(format!("{e} in {a} exceeds the degree bound {b:?}"));
                    }
                }
            }
        }
        Ok(!subs.is_empty())
    }
}

/// The degree, computed from the structure alone.
fn degree(e: &G) -> usize {
    let l = e.linear_components().count().min(1);
    e.quadratic_components().iter().map(|(a, b)| degree(a) + degree(b)).max().unwrap_or(0).max(l)
}

fn main() {
    let c = Check::new(
        "C07",
        "model_checking",
        "all systems of up to 3 constraints of the alphabet x bus interactions x protected sets x degree bounds; solutions, bus fields and definitions compared at all 625 assignments; non-trivial: at least one variable was inlined",
        &["fields of 5 elements, four variables"],
    );
    let sp = Space::new(P as usize, N);
    let pts: Vec<_> = (0..sp.size).map(|i| sp.point::<P, NB>(i)).collect();
    let mut w = World { sp, pts, cons: vec![], buses: buses() };
    w.cons = alphabet().into_iter().map(|e| { let b = w.zeros(&e); (e, b) }).collect();
    let n = w.cons.len();
    let bounds: Vec<(usize, usize)> = vec![(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 4)];
    let mut jobs: Vec<Vec<usize>> = vec![];
    for a in 0..n {
        jobs.push(vec![a]);
        for b in 0..n {
            jobs.push(vec![a, b]);
            for d in 0..n {
                if thorough() || (a < d && (b < a || b > d || (a + b + d) % 2 == 0)) {
                    jobs.push(vec![a, b, d]);
                }
            }
        }
    }
    if thorough() {
        jobs.extend(subsets(n, 4));
        jobs.extend(subsets(n, 4).into_iter().map(|t| vec![t[2], t[0], t[3], t[1]]));
    }
    c.sample(json!({"constraints": jobs[jobs.len() / 2].iter().map(|i| w.cons[*i].0.to_string()).collect::<Vec<_>>(), "bounds": bounds}));
    jobs.par_iter().for_each(|sel| {
        if c.violated() {
            return;
        }
        let h: usize = sel.iter().enumerate().map(|(i, s)| s * (i + 1)).sum();
        let few = sel.len() <= 2 || thorough();
        for bset in 0..3usize {
            let bs: Vec<usize> = match bset { 0 => vec![], 1 => vec![0, 1], _ => vec![2, 3] };
            if !few && bset != h % 3 {
                continue;
            }
            for protect in 0..16u32 {
                if !few && protect != 0 && (h as u32 + protect) % 5 != 0 {
                    continue;
                }
                let mut configs: Vec<(Option<DegreeBound>, bool)> = bounds
                    .iter()
                    .map(|(i, b)| (Some(DegreeBound { identities: *i, bus_interactions: *b }), protect == 0))
                    .collect();
                configs.push((None, false));
                for (bound, api) in configs {
                    let text = format!(
                        "{} with buses {}; protected {protect:04b}, bound {bound:?}",
                        sel.iter().map(|i| format!("{} = 0", w.cons[*i].0)).collect::<Vec<_>>().join("; "),
                        bs.iter().map(|i| w.buses[*i].to_string()).collect::<Vec<_>>().join("; "),
                    );
                    let t2 = text.clone();
                    c.eval(1);
                    c.states(1);
                    match c.run(move || t2.clone(), || w.check(sel, &bs, protect, bound, api)) {
                        Ok(Ok(true)) => {
                            c.nontrivial(1);
                            c.transitions(1)
                        }
                        Ok(Ok(false)) => {}
                        Ok(Err(m)) => c.violation("inlining", format!("{text}: {m}")),
                        Err(m) => c.violation("panic", format!("{text}: {m}")),
                    }
                }
            }
        }
    });
    c.finish()
}
