//! C08: rule-based rewriting keeps the solutions of the system.
//!
//! All systems of up to three constraints of an alphabet with bus interactions that give
//! the variables ranges, plus all single perturbations of the zero-comparison pattern;
//! the solutions before and after are compared at every assignment.
use mc_core::*;
use mc_cs::*;
use mc_field::Tiny;
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_constraint_solver::grouped_expression::NoRangeConstraints;
use powdr_constraint_solver::indexed_constraint_system::IndexedConstraintSystem;
use powdr_constraint_solver::inliner::DegreeBound;
use powdr_constraint_solver::rule_based_optimizer::rule_based_optimization;
use powdr_constraint_solver::solver::{new_solver, Solver};
use rayon::prelude::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

type Sys<const P: u32, const NB: usize> = CS<P, NB>;

fn degree<const P: u32, const NB: usize>(e: &GE<P, NB>) -> usize {
    let l = e.linear_components().count().min(1);
    e.quadratic_components().iter().map(|(a, b)| degree(a) + degree(b)).max().unwrap_or(0).max(l)
}

fn compute<const P: u32, const NB: usize>(m: &ComputationMethod<Tiny<P, NB>, GE<P, NB>>, a: &[Tiny<P, NB>]) -> Tiny<P, NB> {
    match m {
        ComputationMethod::Constant(c) => *c,
        ComputationMethod::QuotientOrZero(n, d) => {
            let (n, d) = (eval(n, a).val() as u64, eval(d, a).val() as u64);
            Tiny::new((0..P as u64).find(|q| d != 0 && q * d % P as u64 == n).unwrap_or(0) as i64)
        }
    }
}

fn vars_of<const P: u32, const NB: usize>(s: &Sys<P, NB>) -> BTreeSet<Var> {
    s.referenced_unknown_variables().copied().collect()
}

struct World<const P: u32, const NB: usize> {
    sp: Space,
    pts: Vec<Vec<Tiny<P, NB>>>,
    tables: Tables,
}

struct Cache<const P: u32, const NB: usize> {
    cons: HashMap<GE<P, NB>, Rc<Bits>>,
    buses: HashMap<String, Rc<Bits>>,
}

impl<const P: u32, const NB: usize> Cache<P, NB> {
    fn con(&mut self, w: &World<P, NB>, e: &GE<P, NB>) -> Rc<Bits> {
        self.cons
            .entry(e.clone())
            .or_insert_with(|| Rc::new(Bits::from_fn(w.sp.size, |i| eval(e, &w.pts[i]).val() == 0)))
            .clone()
    }
    fn bus(&mut self, w: &World<P, NB>, b: &BI<P, NB>) -> Rc<Bits> {
        self.buses
            .entry(b.to_string())
            .or_insert_with(|| {
                Rc::new(Bits::from_fn(w.sp.size, |i| {
                    let (id, m, p) = eval_bus(b, &w.pts[i]);
                    w.tables.accepts(id, m, &p)
                }))
            })
            .clone()
    }
}

#[derive(Clone, Copy, Debug)]
enum Ranges {
    Nothing,
    Solver,
}

impl<const P: u32, const NB: usize> World<P, NB> {
    fn new(n: usize, tables: Tables) -> Self {
        let sp = Space::new(P as usize, n);
        let pts = (0..sp.size).map(|i| sp.point(i)).collect();
        World { sp, pts, tables }
    }

    fn solutions(&self, s: &Sys<P, NB>, cache: &mut Cache<P, NB>) -> Bits {
        let mut r = self.sp.all();
        for c in &s.algebraic_constraints {
            r = r.and(&cache.con(self, &c.expression));
        }
        for b in &s.bus_interactions {
            r = r.and(&cache.bus(self, b));
        }
        r
    }

    /// All points that agree with some point of `b` outside the variables `free`.
    fn cylinder(&self, b: &Bits, free: &BTreeSet<usize>) -> Bits {
        if free.is_empty() {
            return b.clone();
        }
        let key = |i: usize| {
            let mut k = i;
            for v in free {
                k -= self.sp.digit(i, *v) * self.sp.p.pow(*v as u32);
            }
            k
        };
        let keys: HashSet<usize> = (0..self.sp.size).filter(|i| b.get(*i)).map(key).collect();
        Bits::from_fn(self.sp.size, |i| keys.contains(&key(i)))
    }

    /// Ok(true): the system changed. Err((kind, message)).
    fn check(
        &self,
        sys: &Sys<P, NB>,
        ranges: Ranges,
        bound: Option<DegreeBound>,
        cache: &mut Cache<P, NB>,
    ) -> Result<bool, (&'static str, String)> {
        let sp = &self.sp;
        let n = sp.n;
        // As in production: the solver runs first and its assignments are applied.
        let mut solver = None;
        let mut solved = IndexedConstraintSystem::from(sys.clone());
        if let Ranges::Solver = ranges {
            let mut s = new_solver(sys.clone(), self.tables.clone());
            match s.solve() {
                Ok(list) => solved.apply_substitutions(list),
                Err(_) => return Ok(false),
            }
            solver = Some(s);
        }
        let ix = solved.clone();
        let sys: &Sys<P, NB> = &solved.into();
        let before = self.solutions(sys, cache);
        let mut made = vec![];
        let mut new_var = |prefix: &str| {
            let v = Var((n + made.len()) as u32);
            made.push(prefix.to_string());
            v
        };
        let (new, assigned) = match solver {
            None => rule_based_optimization(ix, NoRangeConstraints, self.tables.clone(), &mut new_var, bound),
            Some(s) => rule_based_optimization(ix, s, self.tables.clone(), &mut new_var, bound),
        };
        let made = made.len();
        let new: Sys<P, NB> = new.into();
        let after_vars = vars_of(&new);
        let used: Vec<usize> = after_vars.iter().map(|x| x.0 as usize).filter(|x| *x >= n).collect();
        let show = || {
            format!(
                "result:\n{new}\nassigned {:?}, definitions {:?}",
                assigned.iter().map(|(v, e)| format!("{v} = {e}")).collect::<Vec<_>>(),
                new.derived_variables.iter().map(|d| format!("{} := {}", d.variable, d.computation_method)).collect::<Vec<_>>()
            )
        };
        if used.len() > 2 {
            return Err(("new variables", format!("more new variables than expected\n{}", show())));
        }
        // Assignments hold in every solution, and say what replaced the variable.
        let mut after = sp.all();
        let mut gone: BTreeSet<Var> = BTreeSet::new();
        for (x, e) in &assigned {
            if x.0 as usize >= n {
                // A new variable that was eliminated again.
                continue;
            }
            if e.referenced_unknown_variables().any(|y| y.0 as usize >= n) {
                return Err(("assignment", format!("{x} = {e} mentions a new variable")));
            }
            after = after.and(&cache.con(self, &(var::<Tiny<P, NB>>(x.0) - e.clone())));
            gone.insert(*x);
        }
        if let Some(i) = before.minus(&after).first() {
            return Err(("assignment", format!("an assignment fails for the solution {}\n{}", sp.show(i), show())));
        }
        // A variable may be assigned several times over (to a variable and to a value).
        if let Some(x) = gone.iter().find(|x| after_vars.contains(x)) {
            return Err(("assignment", format!("{x} was replaced but still occurs\n{}", show())));
        }
        let vars = vars_of(sys);
        let removed: BTreeSet<usize> =
            vars.iter().filter(|x| !after_vars.contains(x) && !gone.contains(x)).map(|x| x.0 as usize).collect();
        if let Some(y) = after_vars.iter().find(|y| (y.0 as usize) < n && !vars.contains(y)) {
            return Err(("new variables", format!("{y} appeared out of nowhere\n{}", show())));
        }
        if new.bus_interactions.len() != sys.bus_interactions.len() {
            return Err(("bus", format!("bus interactions were lost\n{}", show())));
        }
        let mut with_new = vec![];
        for c in &new.algebraic_constraints {
            if c.expression.referenced_unknown_variables().any(|y| y.0 as usize >= n) {
                with_new.push(&c.expression);
            } else {
                after = after.and(&cache.con(self, &c.expression));
            }
        }
        for (a, b) in sys.bus_interactions.iter().zip(&new.bus_interactions) {
            after = after.and(&cache.bus(self, b));
            if a != b {
                for i in (0..sp.size).filter(|i| before.get(*i)) {
                    if eval_bus(a, &self.pts[i]) != eval_bus(b, &self.pts[i]) {
                        return Err(("bus", format!("{a} became {b}: they differ at {}\n{}", sp.show(i), show())));
                    }
                }
            }
        }
        // Every old solution extends to a new one, with the new variables as defined.
        let defs: Vec<&DerivedVariable<Tiny<P, NB>, Var, GE<P, NB>>> = new.derived_variables.iter().collect();
        if let Some(i) = before.minus(&after).first() {
            return Err(("lost solution", format!("solution {} was lost\n{}", sp.show(i), show())));
        }
        if !with_new.is_empty() {
            for i in (0..sp.size).filter(|i| before.get(*i)) {
                let mut pt = self.pts[i].clone();
                pt.resize(n + made, Tiny::new(0));
                let mut known: BTreeSet<Var> = (0..n as u32).map(Var).collect();
                for _ in 0..made {
                    for d in &defs {
                        if !known.contains(&d.variable) && d.computation_method.referenced_unknown_variables().all(|y| known.contains(y)) {
                            pt[d.variable.0 as usize] = compute(&d.computation_method, &pt);
                            known.insert(d.variable);
                        }
                    }
                }
                if let Some(y) = after_vars.iter().find(|y| !known.contains(y)) {
                    return Err(("definition", format!("new variable {y} cannot be computed\n{}", show())));
                }
                if let Some(e) = with_new.iter().find(|e| eval(e, &pt).val() != 0) {
                    return Err(("definition", format!("solution {} with the new variables computed violates {e} = 0\n{}", sp.show(i), show())));
                }
            }
            let combos: Vec<Vec<Tiny<P, NB>>> = assignments(used.len());
            after = Bits::from_fn(sp.size, |i| {
                after.get(i)
                    && combos.iter().any(|c| {
                        let mut pt = self.pts[i].clone();
                        pt.resize(n + made, Tiny::new(0));
                        used.iter().zip(c).for_each(|(x, v)| pt[*x] = *v);
                        with_new.iter().all(|e| eval(e, &pt).val() == 0)
                    })
            });
        }
        let origin = self.cylinder(&before, &removed);
        if let Some(i) = after.minus(&origin).first() {
            return Err(("new solution", format!("{} became a solution\n{}", sp.show(i), show())));
        }
        // Degrees.
        let old_max = sys.algebraic_constraints.iter().map(|c| degree(&c.expression)).max().unwrap_or(0);
        let max = bound.map(|b| b.identities).unwrap_or(0).max(old_max);
        for c in &new.algebraic_constraints {
            if degree(&c.expression) > max {
                return Err(("degree", format!("{} = 0 exceeds degree {max}\n{}", c.expression, show())));
            }
        }
        let changed = !assigned.is_empty() || made > 0 || new.algebraic_constraints != sys.algebraic_constraints;
        Ok(changed)
    }
}

fn tables<const P: u32>(strength: u8) -> Tables {
    let mut t: BTreeMap<u32, Vec<Vec<u32>>> = BTreeMap::new();
    t.insert(1, (0..2).map(|a| vec![a]).collect());
    t.insert(2, (0..4).map(|a| vec![a]).collect());
    t.insert(3, vec![vec![P - 1], vec![0], vec![1]]);
    t.insert(4, (0..4).flat_map(|a| (0..2).map(move |b| vec![a, b])).collect());
    t.insert(5, (1..3).map(|a| vec![a]).collect());
    t.insert(6, (0..3).map(|a| vec![a]).collect());
    Tables::new(t, strength)
}

fn alphabet<const P: u32, const NB: usize>(n: usize) -> Vec<GE<P, NB>> {
    let k = |k: i64| num::<P, NB>(k);
    let (x, y, z, w) = (|| var::<Tiny<P, NB>>(0), || var::<Tiny<P, NB>>(1), || var::<Tiny<P, NB>>(2), || var::<Tiny<P, NB>>(3));
    let s = |e: GE<P, NB>, k: i64| e * Tiny::<P, NB>::new(k);
    let mut a = vec![
        // booleans and two-valued variables
        x() * (x() - k(1)),
        x() * (k(1) - x()),
        y() * (y() - k(1)),
        z() * (z() - k(1)),
        s(x(), 3) * (s(x(), 2) - k(2)),
        y() * (y() - k(4)),
        (z() - k(1)) * (z() - k(3)),
        // assignments, sums that cannot wrap, one-hot flags
        s(x(), 2) - k(4),
        x() + y(),
        x() + y() + z(),
        x() + s(y(), 2) + s(z(), 3),
        x() + y() * z(),
        x() - y(),
        x() + y() - k(1),
        x() + y() + z() - k(1),
        s(x(), 2) + s(y(), 2) + s(z(), 2) - k(2),
        s(x(), 2) + s(y(), 2) - k(1),
        x() + s(y(), 2) - k(1),
        y() + s(z(), 2) - k(2),
        x() + s(y(), 2) + s(z(), 3) - k(2),
        y() + z() - k(2),
        x() - y() + k(1),
        // products with a common factor
        x() * y(),
        x() * z(),
        y() * z(),
        (x() - k(1)) * y(),
        (x() - k(1)) * z(),
        (k(1) - x()) * y(),
        (x() - k(1)) * (y() + z()),
        (x() + y()) * z(),
        x() * (y() + z() - k(1)),
        z() * (k(1) - y()),
        x() * (y() - z()),
        // equal up to one variable
        (x() - z()) * (x() - z() - k(4)),
        (y() - z()) * (y() - z() - k(4)),
        (s(y(), 2) - s(z(), 2)) * (s(y(), 2) - s(z(), 2) - k(8)),
        (x() - z()) * (x() - z() - k(2)),
        (y() - z() - k(1)) * (y() - z() - k(3)),
        (y() - z()) * (y() - z() + k(4)),
        (s(x(), 2) - y()) * (s(x(), 2) - y() - k(3)),
        x() * y() - z(),
        x() * y() - k(1),
    ];
    if n > 3 {
        a.extend([
            // free variables
            x() * z() + y() * w() - k(1),
            x() * z() + y() * w() - x(),
            x() * z() + y() * w() + x() * y() - k(2),
            (x() - k(1)) * z() + y() * w(),
            (x() + y()) * z() + (x() - k(1)) * w() - y(),
            s(x() * z(), 2) + y() * w() - k(3),
            s(x() * z(), -1) + y() * w() - k(1),
            x() * z() + (y() + k(1)) * w() - k(1),
            x() * z() + x() * w() - y(),
            x() * z() + w() - k(1),
            x() * z() * w() - y(),
            x() * (z() + w()) - y(),
            z() * (x() - y()) + w() * (x() + y()) - k(1),
            (x() - y()) * (w() + k(1)) + z() * y() - x(),
            x() + y() + z() + w() - k(1),
            x() + s(y(), 2) + s(z(), 3) + s(w(), 2) - k(2),
            w() * (w() - k(1)),
            w() * (x() - z()),
            (w() - z()) * (w() - z() - k(4)),
            (x() + w() - z()) * (x() + w() - z() - k(4)),
            (x() + w() - y()) * (x() + w() - y() - k(4)),
        ]);
    }
    a
}

fn bus_sets<const P: u32, const NB: usize>(n: usize) -> Vec<Vec<BI<P, NB>>> {
    let k = |k: i64| num::<P, NB>(k);
    let v = |i: u32| var::<Tiny<P, NB>>(i);
    let r = |id: i64, e: GE<P, NB>| bus(id, k(1), vec![e]);
    let mut s = vec![
        vec![],
        vec![r(1, v(0)), r(1, v(1)), r(1, v(2))],
        vec![r(2, v(0)), r(2, v(1)), r(2, v(2))],
        vec![r(2, v(0)), r(2, v(1))],
        vec![r(3, v(0)), r(2, v(1)), r(2, v(2))],
        vec![r(1, v(0)), r(2, v(1)), r(5, v(2))],
        vec![r(1, v(1)), r(1, v(2))],
        vec![bus(4, k(1), vec![v(1), v(0)]), bus(9, v(2), vec![v(0), v(1)])],
        vec![r(2, v(0) + v(1)), r(2, v(0) * v(1)), r(1, v(2))],
        vec![r(2, v(0) - v(2)), r(2, v(1) - v(2))],
        vec![r(2, v(2)), bus(9, k(1), vec![v(1), v(0)])],
        vec![bus(2, v(0), vec![v(1)]), r(1, v(0)), r(2, v(2))],
        vec![r(6, v(0)), r(6, v(1)), bus(9, k(1), vec![v(2)])],
    ];
    if n > 3 {
        s.extend([
            vec![r(1, v(0)), r(1, v(1)), r(1, v(2)), r(1, v(3))],
            vec![r(1, v(0)), r(2, v(1)), bus(9, k(1), vec![v(0), v(1)])],
            vec![r(3, v(0)), r(6, v(1))],
            vec![r(2, v(0)), r(2, v(1)), bus(9, k(1), vec![v(3)])],
            vec![r(2, v(0)), r(2, v(3)), r(1, v(1)), r(1, v(2))],
            vec![r(2, v(3)), r(2, v(2)), r(2, v(0) + v(3)), r(2, v(1) + v(3))],
        ]);
    }
    s
}

fn explore<const P: u32, const NB: usize>(c: &Check, n: usize, stride: usize) {
    let w = World::<P, NB>::new(n, tables::<P>(1));
    let a = alphabet::<P, NB>(n);
    let sets = bus_sets::<P, NB>(n);
    let mut jobs: Vec<Vec<usize>> = (0..a.len()).map(|i| vec![i]).collect();
    jobs.extend(subsets(a.len(), 2));
    jobs.extend(subsets(a.len(), 3).into_iter().filter(|t| (t[0] * 7 + t[1] * 3 + t[2]) % stride == 0));
    c.sample(json!({"modulus": P, "constraints": jobs[jobs.len() / 2].iter().map(|i| a[*i].to_string()).collect::<Vec<_>>(), "bus_interactions": sets[4].iter().map(|b| b.to_string()).collect::<Vec<_>>()}));
    jobs.par_iter().for_each(|sel| {
        thread_local! { static CACHES: RefCell<HashMap<(u32, usize), Box<dyn std::any::Any>>> = RefCell::new(HashMap::new()); }
        CACHES.with(|m| {
            let mut m = m.borrow_mut();
            let cache = m
                .entry((P, n))
                .or_insert_with(|| Box::new(Cache::<P, NB> { cons: HashMap::new(), buses: HashMap::new() }))
                .downcast_mut::<Cache<P, NB>>()
                .unwrap();
            if cache.cons.len() > 2000 {
                cache.cons.clear();
            }
            for (bi, bs) in sets.iter().enumerate() {
                if c.violated() {
                    return;
                }
                if sel.len() == 3 && !thorough() && (bi + sel.iter().sum::<usize>()) % 3 != 0 {
                    continue;
                }
                let sys = system::<P, NB>(sel.iter().map(|i| a[*i].clone()).collect(), bs.clone());
                for (ranges, bound) in [
                    (Ranges::Nothing, None),
                    (Ranges::Solver, Some(DegreeBound { identities: 3, bus_interactions: 2 })),
                ] {
                    let text = format!("{sys}\n(mod {P}, ranges {ranges:?}, bound {bound:?})");
                    let t2 = text.clone();
                    c.eval(1);
                    c.states(1);
                    match c.run(move || t2.clone(), || w.check(&sys, ranges, bound, cache)) {
                        Ok(Ok(true)) => {
                            c.nontrivial(1);
                            c.transitions(1);
                        }
                        Ok(Ok(false)) => {}
                        Ok(Err((kind, m))) => c.violation(kind, format!("{text}: {m}")),
                        Err(m) => c.violation("panic", format!("{text}: {m}")),
                    }
                }
            }
        });
    });
}


/// The zero comparison of the sltiu pattern and everything one edit away from it.
/// Variables: a0..a3 = 0..3, marker0..marker3 = 4..7, result = 8, diff = 9.
mod zero_test {
    use super::*;
    pub const P: u32 = 31;
    pub const NB: usize = 6;
    type G = GE<P, NB>;
    fn v(i: u32) -> G {
        var(i)
    }
    fn k(i: i64) -> G {
        num(i)
    }
    fn pattern() -> Vec<G> {
        let two = || v(8) * Tiny::<P, NB>::new(2) - k(1);
        let m = |from: u32| (from..4).fold(k(0), |s, i| s + v(4 + i));
        vec![
            (k(1) - v(7)) * (-v(3) * two()),
            (k(1) - m(2)) * (-v(2) * two()),
            (k(1) - m(1)) * (-v(1) * two()),
            (k(1) - m(0)) * v(8),
            (k(1) - m(0)) * ((k(1) - v(0)) * two()),
            v(4) * ((v(0) - k(1)) * two() + v(9)),
            v(5) * (v(1) * two() + v(9)),
            v(6) * (v(2) * two() + v(9)),
            v(7) * (v(3) * two() + v(9)),
            m(0) * (m(0) - k(1)),
        ]
    }
    fn booleans() -> Vec<G> {
        (4..9).map(|i| v(i) * (v(i) - k(1))).collect()
    }
    fn range_checks() -> Vec<BI<P, NB>> {
        let m = (4..8).fold(k(0), |s, i| s + v(i));
        let mut r: Vec<_> = (0..4).map(|i| bus(6, k(1), vec![v(i)])).collect();
        r.push(bus(2, m, vec![v(9) - k(1)]));
        r.push(bus(9, k(1), vec![v(8), v(0), v(1), v(2), v(3)]));
        r
    }
    pub struct Case {
        pub name: String,
        pub sys: CS<P, NB>,
    }
    pub fn cases() -> Vec<Case> {
        let mut out = vec![];
        let mut add = |name: String, pat: Vec<G>, bools: Vec<G>, bs: Vec<BI<P, NB>>| {
            out.push(Case { name, sys: system(pat.into_iter().chain(bools).collect(), bs) });
        };
        add("the pattern".into(), pattern(), booleans(), range_checks());
        let edits: Vec<(&str, fn(G) -> G)> = vec![
            ("plus 1", |e| e + num(1)),
            ("negated", |e| -e),
            ("times 3", |e| e * Tiny::<P, NB>::new(3)),
        ];
        for i in 0..10 {
            let mut p = pattern();
            p.remove(i);
            add(format!("without constraint {i}"), p, booleans(), range_checks());
            for (n, f) in &edits {
                let mut p = pattern();
                p[i] = f(p[i].clone());
                add(format!("constraint {i} {n}"), p, booleans(), range_checks());
            }
            // Both factors shifted, one at a time.
            let (l, r) = {
                let p = pattern();
                let (l, r) = p[i].try_as_single_product().unwrap();
                (l.clone(), r.clone())
            };
            for d in [-2, -1, 1, 2] {
                for (n, e) in [("left", (l.clone() + k(d)) * r.clone()), ("right", l.clone() * (r.clone() + k(d)))] {
                    let mut p = pattern();
                    p[i] = e;
                    add(format!("constraint {i} with its {n} factor moved by {d}"), p, booleans(), range_checks());
                }
            }
            // One variable exchanged for another.
            for x in 0..10u32 {
                for y in 0..10u32 {
                    let mut p = pattern();
                    if x == y || !p[i].referenced_unknown_variables().any(|z| z.0 == x) {
                        continue;
                    }
                    p[i].substitute_by_unknown(&Var(x), &v(y));
                    add(format!("constraint {i} with {} for {}", Var(y), Var(x)), p, booleans(), range_checks());
                }
            }
        }
        for i in 0..5 {
            let mut b = booleans();
            b.remove(i);
            add(format!("without boolean constraint {i}"), pattern(), b, range_checks());
        }
        for i in 0..6 {
            let mut b = range_checks();
            b.remove(i);
            add(format!("without bus interaction {i}"), pattern(), booleans(), b);
        }
        for i in 0..4 {
            for id in [3i64, 5] {
                let mut b = range_checks();
                b[i] = bus(id, k(1), vec![v(i as u32)]);
                add(format!("a{i} range checked on bus {id}"), pattern(), booleans(), b);
            }
        }
        for i in 4..10 {
            let mut b = range_checks();
            b.push(bus(9, k(1), vec![v(i), k(7)]));
            add(format!("{} seen on a bus", Var(i)), pattern(), booleans(), b);
        }
        out
    }

    /// All observable points (a0..a3, result, and what other variables are on stateful
    /// buses) that extend to a solution.
    fn observable(s: &CS<P, NB>, t: &Tables, domains: &[Vec<u32>], seen: &[usize]) -> HashSet<Vec<u32>> {
        let mut out = HashSet::new();
        let last: Vec<u32> = {
            let mut l = vec![0; s.algebraic_constraints.len() + s.bus_interactions.len()];
            for (i, c) in s.algebraic_constraints.iter().enumerate() {
                l[i] = c.referenced_unknown_variables().map(|v| v.0).max().unwrap_or(0);
            }
            let n = s.algebraic_constraints.len();
            for (i, b) in s.bus_interactions.iter().enumerate() {
                l[n + i] = b.referenced_unknown_variables().map(|v| v.0).max().unwrap_or(0);
            }
            l
        };
        fn go(
            s: &CS<P, NB>,
            t: &Tables,
            domains: &[Vec<u32>],
            last: &[u32],
            seen: &[usize],
            pt: &mut Vec<Tiny<P, NB>>,
            out: &mut HashSet<Vec<u32>>,
        ) -> bool {
            let i = pt.len();
            if i == domains.len() {
                out.insert(seen.iter().map(|x| pt[*x].val()).collect());
                return true;
            }
            let needed = seen.iter().any(|x| *x >= i);
            let mut any = false;
            for x in &domains[i] {
                pt.push(Tiny::new(*x as i64));
                let n = s.algebraic_constraints.len();
                let ok = s.algebraic_constraints.iter().zip(last).all(|(c, l)| *l as usize != i || eval(&c.expression, pt).val() == 0)
                    && s.bus_interactions.iter().zip(&last[n..]).all(|(b, l)| {
                        *l as usize != i || {
                            let (id, m, p) = eval_bus(b, pt);
                            t.accepts(id, m, &p)
                        }
                    });
                any |= ok && go(s, t, domains, last, seen, pt, out);
                pt.pop();
                if any && !needed {
                    return true;
                }
            }
            any
        }
        go(s, t, domains, &last, seen, &mut vec![], &mut out);
        out
    }

    pub fn check(case: &Case, t: &Tables) -> Result<bool, (String, String)> {
        // `order` puts a0..a3, result first in the search.
        let sys = &case.sys;
        let mut solver = new_solver(sys.clone(), t.clone());
        let mut solved = IndexedConstraintSystem::from(sys.clone());
        match solver.solve() {
            Ok(list) => solved.apply_substitutions(list),
            Err(_) => return Ok(false),
        }
        let old: CS<P, NB> = solved.clone().into();
        let mut made = 0;
        let (new, assigned) = rule_based_optimization(
            solved,
            solver,
            t.clone(),
            &mut |_| {
                made += 1;
                Var(9 + made)
            },
            Some(DegreeBound { identities: 3, bus_interactions: 2 }),
        );
        if made == 0 {
            return Ok(false);
        }
        let new: CS<P, NB> = new.into();
        let show = format!("{new}");
        let seen: Vec<usize> = {
            let mut s: BTreeSet<usize> = (0..4).collect();
            for b in old.bus_interactions.iter().filter(|b| !t.is_lookup(b.bus_id.try_to_number().unwrap().val())) {
                s.extend(b.referenced_unknown_variables().map(|v| v.0 as usize));
            }
            s.insert(8);
            s.into_iter().collect()
        };
        let all: Vec<u32> = (0..P).collect();
        let bits = vec![0, 1];
        let mut domains: Vec<Vec<u32>> = vec![all.clone(); 4];
        domains.extend(vec![all.clone(); 6]);
        // Bounds implied by unconditional constraints, to keep the search small.
        for b in &old.bus_interactions {
            if let (Some(id), Some(m)) = (b.bus_id.try_to_number(), b.multiplicity.try_to_number()) {
                if let (Some(x), true, true) = (b.payload[0].try_to_simple_unknown(), m.val() == 1, b.payload.len() == 1) {
                    domains[x.0 as usize].retain(|k| t.accepts(id.val(), 1, &[*k]));
                }
            }
        }
        for i in 4..9 {
            if new.algebraic_constraints.iter().any(|c| c.expression == booleans()[i - 4]) {
                domains[i] = bits.clone();
            }
        }
        if domains[..9].iter().map(|d| d.len()).product::<usize>() > 400_000 {
            return Ok(false);
        }
        let mut with_assigned = new.clone();
        for (x, e) in assigned.iter().filter(|(x, _)| x.0 < 10) {
            with_assigned.algebraic_constraints.push(zero_constraint(v(x.0) - e.clone()));
        }
        let before = observable(&old, t, &domains, &seen);
        let mut d2 = domains.clone();
        d2.resize(10 + made as usize, all);
        let after = observable(&with_assigned, t, &d2, &seen);
        if let Some(x) = before.difference(&after).min() {
            return Err(("lost".into(), format!("{seen:?} = {x:?} is no longer possible\n{show}")));
        }
        if let Some(x) = after.difference(&before).min() {
            return Err(("new".into(), format!("{seen:?} = {x:?} became possible\n{show}")));
        }
        Ok(true)
    }
}

fn main() {
    let c = Check::new(
        "C08",
        "model_checking",
        "all systems of up to 3 constraints of the alphabet x bus interactions x sources of ranges; solutions before and after compared at every assignment, new variables computed from their definitions; non-trivial: the system was changed",
        &["fields of 13 and 31 elements"],
    );
    explore::<31, 5>(&c, 3, if thorough() { 1 } else { 4 });
    explore::<13, 4>(&c, 4, if thorough() { 2 } else { 12 });
    let t = tables::<31>(1);
    zero_test::cases().par_iter().for_each(|case| {
        let text = format!("zero comparison, {}:\n{}", case.name, case.sys);
        let t2 = text.clone();
        c.eval(1);
        c.states(1);
        match c.run(move || t2.clone(), || zero_test::check(case, &t)) {
            Ok(Ok(true)) => {
                c.nontrivial(1);
                c.count("zero_comparisons_replaced", 1);
            }
            Ok(Ok(false)) => {}
            Ok(Err((kind, m))) => c.violation(&format!("zero comparison, {}: {kind}", case.name), format!("{text}: {m}")),
            Err(m) => c.violation("panic", format!("{text}: {m}")),
        }
    });
    c.finish()
}
