//! A toy virtual machine's buses, and the comparison of a machine before and after
//! optimisation at every assignment of a tiny field.
pub mod alphabet;
pub mod exec;
pub mod vm;
use mc_cs::*;
use mc_field::Tiny;
use num_traits::{One, Zero};
use powdr_autoprecompiles::constraint_optimizer::IsBusStateful;
use powdr_autoprecompiles::expression::{AlgebraicExpression, AlgebraicReference};
use powdr_autoprecompiles::range_constraint_optimizer::{MakeRangeConstraintsError, RangeConstraintHandler, RangeConstraints};
use powdr_autoprecompiles::symbolic_machine::{SymbolicBusInteraction, SymbolicConstraint, SymbolicMachine};
use powdr_constraint_solver::bus_interaction_handler::ViolatesBusRules;
use powdr_constraint_solver::constraint_system::{BusInteraction, BusInteractionHandler, ComputationMethod, DerivedVariable};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_number::ExpressionConvertible;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Display;
use std::hash::Hash;
use std::rc::Rc;
use std::sync::Arc;

pub const EXEC: u32 = 0;
pub const MEM: u32 = 1;
pub const PC: u32 = 2;
/// one bit
pub const BIT: u32 = 3;
/// two values of two bits each
pub const PAIR: u32 = 4;
/// value, number of bits (at most two)
pub const VARBITS: u32 = 5;
/// two-bit values x, y, x xor y
pub const XOR: u32 = 6;
/// bit, two-bit value
pub const TUPLE: u32 = 7;
/// x in 0..4, 255 - x
pub const NOT: u32 = 8;
/// something irregular: neither a range nor a function
pub const ODD: u32 = 9;
/// the values 1 and 2
pub const ONETWO: u32 = 10;
/// x or y, and x and y, of bits
pub const OR: u32 = 11;
pub const AND: u32 = 12;
/// A stateful bus when there is no execution bridge.
pub const OUT: u32 = EXEC;

/// The toy machine's bus interaction handler.
#[derive(Clone)]
pub struct Toy(pub Tables);

impl Toy {
    pub fn new(p: u32) -> Toy {
        let mut t: BTreeMap<u32, Vec<Vec<u32>>> = BTreeMap::new();
        t.insert(BIT, (0..2).map(|a| vec![a]).collect());
        t.insert(PAIR, (0..4).flat_map(|a| (0..4).map(move |b| vec![a, b])).collect());
        t.insert(VARBITS, (0..3u32).flat_map(|b| (0..1 << b).map(move |a| vec![a, b])).collect());
        t.insert(XOR, (0..4).flat_map(|a| (0..4).map(move |b| vec![a, b, a ^ b])).collect());
        t.insert(TUPLE, (0..2).flat_map(|a| (0..4).map(move |b| vec![a, b])).collect());
        t.insert(NOT, (0..4).map(|a| vec![a, (255 - a) % p]).collect());
        t.insert(ODD, vec![vec![0, 1], vec![1, 1], vec![2, p - 1], vec![3, 0]]);
        t.insert(ONETWO, vec![vec![1], vec![2]]);
        t.insert(OR, (0..2).flat_map(|a| (0..2).map(move |b| vec![a, b, a | b])).collect());
        t.insert(AND, (0..2).flat_map(|a| (0..2).map(move |b| vec![a, b, a & b])).collect());
        // a bus id has to be a field element
        t.retain(|id, _| *id < p);
        Toy(Tables::new(t, 2))
    }
}

impl<const P: u32, const NB: usize> BusInteractionHandler<Tiny<P, NB>> for Toy {
    fn handle_bus_interaction(&self, b: BusInteraction<RC<P, NB>>) -> BusInteraction<RC<P, NB>> {
        self.0.handle_bus_interaction(b)
    }
    fn handle_bus_interaction_checked(&self, b: BusInteraction<RC<P, NB>>) -> Result<BusInteraction<RC<P, NB>>, ViolatesBusRules> {
        self.0.handle_bus_interaction_checked(b)
    }
}
impl<const P: u32, const NB: usize> IsBusStateful<Tiny<P, NB>> for Toy {
    fn is_stateful(&self, bus_id: Tiny<P, NB>) -> bool {
        // the bus of the program counter is a lookup without a table here
        bus_id.val() != PC % P && !self.0.is_lookup(bus_id.val())
    }
}
impl<const P: u32, const NB: usize> RangeConstraintHandler<Tiny<P, NB>> for Toy {
    fn pure_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        b: &BusInteraction<GroupedExpression<Tiny<P, NB>, V>>,
    ) -> Option<RangeConstraints<Tiny<P, NB>, V>> {
        let id = b.bus_id.try_to_number().unwrap().val();
        let bits = |n: u64| RangeConstraint::from_mask((1u64 << n) - 1);
        let p = &b.payload;
        match id {
            BIT => Some(vec![(p[0].clone(), bits(1))]),
            PAIR => Some(vec![(p[0].clone(), bits(2)), (p[1].clone(), bits(2))]),
            TUPLE => Some(vec![(p[0].clone(), bits(1)), (p[1].clone(), bits(2))]),
            VARBITS => {
                let n = p[1].try_to_number()?.val() as u64;
                (n <= 2).then(|| vec![(p[0].clone(), bits(n))])
            }
            XOR if p[0] == p[1] => Some(vec![(p[0].clone(), bits(2)), (p[2].clone(), bits(0))]),
            _ => None,
        }
    }

    fn batch_make_range_constraints<V: Ord + Clone + Eq + Display + Hash>(
        &self,
        rcs: RangeConstraints<Tiny<P, NB>, V>,
    ) -> Result<Vec<BusInteraction<GroupedExpression<Tiny<P, NB>, V>>>, MakeRangeConstraintsError> {
        let n = |v: i64| GroupedExpression::from_number(Tiny::<P, NB>::new(v));
        let make = |id: u32, payload| BusInteraction { bus_id: n(id as i64), multiplicity: n(1), payload };
        let mut by: [Vec<GroupedExpression<Tiny<P, NB>, V>>; 3] = Default::default();
        for (e, rc) in rcs {
            let Some(b) = (0..3).find(|b| rc == RangeConstraint::from_mask((1u64 << b) - 1)) else {
                return Err(MakeRangeConstraintsError(format!("{rc}")));
            };
            by[b].push(e);
        }
        let [zero, mut one, mut two] = by;
        let mut out = vec![];
        while P > TUPLE && two.len() % 2 == 1 && !one.is_empty() {
            let b = one.pop().unwrap();
            out.push(make(TUPLE, vec![b, two.pop().unwrap()]));
        }
        let mut rest = one.into_iter().map(|b| (b, 1)).collect::<Vec<_>>();
        rest.extend(zero.into_iter().map(|b| (b, 0)));
        while two.len() >= 2 {
            let (a, b) = (two.pop().unwrap(), two.pop().unwrap());
            out.push(make(PAIR, vec![a, b]));
        }
        rest.extend(two.into_iter().map(|b| (b, 2)));
        out.extend(rest.into_iter().map(|(e, b)| make(VARBITS, vec![e, n(b)])));
        Ok(out)
    }
}

// ---- conversion between the enumerated systems and symbolic machines ----

pub fn reference(v: u32) -> AlgebraicReference {
    AlgebraicReference { name: Arc::new(Var(v).to_string()), id: v as u64 }
}

pub fn algebraic<const P: u32, const NB: usize>(e: &GE<P, NB>) -> AlgebraicExpression<Tiny<P, NB>> {
    let mut terms: Vec<AlgebraicExpression<Tiny<P, NB>>> = vec![];
    for (l, r) in e.quadratic_components() {
        terms.push(algebraic(l) * algebraic(r));
    }
    for (v, c) in e.linear_components() {
        let x = AlgebraicExpression::Reference(reference(v.0));
        terms.push(if c.is_one() { x } else { AlgebraicExpression::Number(*c) * x });
    }
    if !e.constant_offset().is_zero() || terms.is_empty() {
        terms.push(AlgebraicExpression::Number(*e.constant_offset()));
    }
    terms.into_iter().reduce(|a, b| a + b).unwrap()
}

pub fn grouped<const P: u32, const NB: usize>(e: &AlgebraicExpression<Tiny<P, NB>>) -> GE<P, NB> {
    e.to_expression(&|n| GroupedExpression::from_number(*n), &|r| var(r.id as u32))
}

pub fn to_machine<const P: u32, const NB: usize>(s: &CS<P, NB>) -> SymbolicMachine<Tiny<P, NB>> {
    SymbolicMachine {
        constraints: s.algebraic_constraints.iter().map(|c| SymbolicConstraint { expr: algebraic(&c.expression) }).collect(),
        bus_interactions: s
            .bus_interactions
            .iter()
            .map(|b| SymbolicBusInteraction {
                id: b.bus_id.try_to_number().unwrap().val() as u64,
                mult: algebraic(&b.multiplicity),
                args: b.payload.iter().map(algebraic).collect(),
            })
            .collect(),
        derived_columns: vec![],
    }
}

pub fn method<const P: u32, const NB: usize>(
    m: &ComputationMethod<Tiny<P, NB>, AlgebraicExpression<Tiny<P, NB>>>,
) -> ComputationMethod<Tiny<P, NB>, GE<P, NB>> {
    match m {
        ComputationMethod::Constant(c) => ComputationMethod::Constant(*c),
        ComputationMethod::QuotientOrZero(a, b) => ComputationMethod::QuotientOrZero(grouped(a), grouped(b)),
    }
}

pub fn from_machine<const P: u32, const NB: usize>(m: &SymbolicMachine<Tiny<P, NB>>) -> CS<P, NB> {
    let mut s = system(
        vec![],
        m.bus_interactions
            .iter()
            .map(|b| bus(b.id as i64, grouped(&b.mult), b.args.iter().map(grouped).collect()))
            .collect(),
    );
    s.algebraic_constraints = m.constraints.iter().map(|c| zero_constraint(grouped(&c.expr))).collect();
    s.derived_variables = m
        .derived_columns
        .iter()
        .map(|d| DerivedVariable::new(Var(d.variable.id as u32), method(&d.computation_method)))
        .collect();
    s
}

pub fn degree<const P: u32, const NB: usize>(e: &GE<P, NB>) -> usize {
    let l = e.linear_components().count().min(1);
    e.quadratic_components().iter().map(|(a, b)| degree(a) + degree(b)).max().unwrap_or(0).max(l)
}

pub fn compute<const P: u32, const NB: usize>(m: &ComputationMethod<Tiny<P, NB>, GE<P, NB>>, a: &[Tiny<P, NB>]) -> Tiny<P, NB> {
    match m {
        ComputationMethod::Constant(c) => *c,
        ComputationMethod::QuotientOrZero(n, d) => {
            let (n, d) = (eval(n, a).val() as u64, eval(d, a).val() as u64);
            Tiny::new((0..P as u64).find(|q| d != 0 && q * d % P as u64 == n).unwrap_or(0) as i64)
        }
    }
}

pub fn vars_of<const P: u32, const NB: usize>(s: &CS<P, NB>) -> BTreeSet<Var> {
    s.referenced_unknown_variables().copied().collect()
}

// ---- comparison of two systems ----

pub struct World<const P: u32, const NB: usize> {
    pub sp: Space,
    pub pts: Vec<Vec<Tiny<P, NB>>>,
    pub toy: Toy,
}

#[derive(Default)]
pub struct Cache<const P: u32, const NB: usize> {
    cons: HashMap<GE<P, NB>, Rc<Bits>>,
    buses: HashMap<String, Rc<Bits>>,
    seen: HashMap<String, Rc<Vec<u32>>>,
    intern: HashMap<Vec<((u32, Vec<u32>), u32)>, u32>,
}

type Failure = (&'static str, String);

impl<const P: u32, const NB: usize> World<P, NB> {
    pub fn new(n: usize, toy: Toy) -> Self {
        let sp = Space::new(P as usize, n);
        let pts = (0..sp.size).map(|i| sp.point(i)).collect();
        World { sp, pts, toy }
    }
    fn con(&self, c: &mut Cache<P, NB>, e: &GE<P, NB>) -> Rc<Bits> {
        if let Some(b) = c.cons.get(e) {
            return b.clone();
        }
        let b = Rc::new(Bits::from_fn(self.sp.size, |i| eval(e, &self.pts[i]).val() == 0));
        c.cons.insert(e.clone(), b.clone());
        b
    }
    fn bus(&self, c: &mut Cache<P, NB>, b: &BI<P, NB>) -> Rc<Bits> {
        let k = b.to_string();
        if let Some(b) = c.buses.get(&k) {
            return b.clone();
        }
        let r = Rc::new(Bits::from_fn(self.sp.size, |i| {
            let (id, m, p) = eval_bus(b, &self.pts[i]);
            self.toy.0.accepts(id, m, &p)
        }));
        c.buses.insert(k, r.clone());
        r
    }
    fn is_lookup(&self, b: &BI<P, NB>) -> bool {
        let id = b.bus_id.try_to_number().unwrap().val();
        self.toy.0.is_lookup(id)
    }
    fn observe(&self, c: &mut Cache<P, NB>, bs: &[&BI<P, NB>], a: &[Tiny<P, NB>]) -> u32 {
        let mut r: BTreeMap<(u32, Vec<u32>), u32> = BTreeMap::new();
        for b in bs {
            let (id, m, p) = eval_bus(b, a);
            let e = r.entry((id, p)).or_insert(0);
            *e = (*e + m) % P;
        }
        r.retain(|_, m| *m != 0);
        let n = c.intern.len() as u32;
        *c.intern.entry(r.into_iter().collect()).or_insert(n)
    }
    /// What is observed at every point.
    fn observations(&self, c: &mut Cache<P, NB>, bs: &[&BI<P, NB>]) -> Rc<Vec<u32>> {
        let k = bs.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(";");
        if let Some(o) = c.seen.get(&k) {
            return o.clone();
        }
        let o: Rc<Vec<u32>> = Rc::new((0..self.sp.size).map(|i| self.observe(c, bs, &self.pts[i])).collect());
        c.seen.insert(k, o.clone());
        o
    }
    pub fn solutions(&self, s: &CS<P, NB>, c: &mut Cache<P, NB>) -> Bits {
        let mut r = self.sp.all();
        for k in &s.algebraic_constraints {
            r = r.and(&self.con(c, &k.expression));
        }
        for b in s.bus_interactions.iter().filter(|b| self.is_lookup(b)) {
            r = r.and(&self.bus(c, b));
        }
        r
    }

    /// Compares the behaviour of two systems. `valid` limits the old solutions that have
    /// to be preserved (valid memory histories). Returns whether there was anything to
    /// compare.
    pub fn compare(
        &self,
        old: &CS<P, NB>,
        new: &CS<P, NB>,
        valid: Option<&dyn Fn(&[Tiny<P, NB>]) -> bool>,
        cache: &mut Cache<P, NB>,
    ) -> Result<bool, Failure> {
        let sp = &self.sp;
        let n = sp.n;
        let before = self.solutions(old, cache);
        if before.empty() {
            return Ok(false);
        }
        let is_new = |v: &Var| v.0 as usize >= n;
        let old_vars = vars_of(old);
        let new_vars = vars_of(new);
        let used: Vec<usize> = new_vars.iter().filter(|v| is_new(v)).map(|v| v.0 as usize).collect();
        if used.len() > 2 {
            return Err(("new variables", "more than two new variables".into()));
        }
        if let Some(v) = new_vars.iter().find(|v| !is_new(v) && !old_vars.contains(v)) {
            return Err(("new variables", format!("{v} appeared out of nowhere")));
        }
        let old_out: Vec<&BI<P, NB>> = old.bus_interactions.iter().filter(|b| !self.is_lookup(b)).collect();
        let new_out: Vec<&BI<P, NB>> = new.bus_interactions.iter().filter(|b| !self.is_lookup(b)).collect();
        let seen_before = self.observations(cache, &old_out);
        let mentions_new = |b: &BI<P, NB>| b.referenced_unknown_variables().any(is_new);
        let seen_after = (!new_out.iter().any(|b| mentions_new(b))).then(|| self.observations(cache, &new_out));

        // the part that does not mention new variables
        let mut after = sp.all();
        let mut cons_new = vec![];
        let mut bus_new = vec![];
        for c in &new.algebraic_constraints {
            if c.expression.referenced_unknown_variables().any(is_new) {
                cons_new.push(&c.expression);
            } else {
                after = after.and(&self.con(cache, &c.expression));
            }
        }
        for b in new.bus_interactions.iter().filter(|b| self.is_lookup(b)) {
            if mentions_new(b) {
                bus_new.push(b);
            } else {
                after = after.and(&self.bus(cache, b));
            }
        }
        let extra_ok = |pt: &[Tiny<P, NB>]| {
            cons_new.iter().all(|e| eval(e, pt).val() == 0)
                && bus_new.iter().all(|b| {
                    let (id, m, p) = eval_bus(b, pt);
                    self.toy.0.accepts(id, m, &p)
                })
        };
        let top = new_vars.iter().map(|v| v.0 as usize + 1).max().unwrap_or(0).max(n);
        let top = new.derived_variables.iter().map(|d| d.variable.0 as usize + 1).max().unwrap_or(0).max(top);
        let simple = used.is_empty() && seen_after.is_some();

        // completeness
        let mut keep = before.clone();
        if let Some(valid) = valid {
            keep = Bits::from_fn(sp.size, |i| before.get(i) && valid(&self.pts[i]));
            if keep.empty() {
                return Ok(false);
            }
        }
        if let Some(i) = keep.minus(&after).first() {
            return Err(("lost", format!("the solution {} is lost", sp.show(i))));
        }
        for i in (0..sp.size).filter(|i| keep.get(*i)) {
            let got = if simple {
                seen_after.as_ref().unwrap()[i]
            } else {
                let mut pt = self.pts[i].clone();
                pt.resize(top, Tiny::new(0));
                let mut known: BTreeSet<Var> = (0..n as u32).map(Var).collect();
                for _ in 0..new.derived_variables.len() {
                    for d in &new.derived_variables {
                        if !known.contains(&d.variable) && d.computation_method.referenced_unknown_variables().all(|y| known.contains(y)) {
                            pt[d.variable.0 as usize] = compute(&d.computation_method, &pt);
                            known.insert(d.variable);
                        }
                    }
                }
                if let Some(y) = new_vars.iter().find(|y| !known.contains(y)) {
                    return Err(("definition", format!("new variable {y} cannot be computed")));
                }
                if !extra_ok(&pt) {
                    return Err(("definition", format!("the solution {} with the new variables computed ({:?}) is not a solution", sp.show(i), &pt[n..])));
                }
                match &seen_after {
                    Some(s) => s[i],
                    None => self.observe(cache, &new_out, &pt),
                }
            };
            if got != seen_before[i] {
                return Err(("observation", format!("for the solution {} the visible interactions differ", sp.show(i))));
            }
        }
        // soundness
        let gone: Vec<usize> = (0..n).filter(|v| !new_vars.contains(&Var(*v as u32))).collect();
        let key = |i: usize| {
            let mut k = i;
            for v in &gone {
                k -= sp.digit(i, *v) * sp.p.pow(*v as u32);
            }
            k
        };
        let origins: HashSet<(usize, u32)> = (0..sp.size).filter(|i| before.get(*i)).map(|i| (key(i), seen_before[i])).collect();
        let combos: Vec<Vec<Tiny<P, NB>>> = assignments(used.len());
        for i in (0..sp.size).filter(|i| after.get(*i) && key(*i) == *i) {
            for c in &combos {
                let mut shown = String::new();
                let got = if simple {
                    seen_after.as_ref().unwrap()[i]
                } else {
                    let mut pt = self.pts[i].clone();
                    pt.resize(top, Tiny::new(0));
                    used.iter().zip(c).for_each(|(x, v)| pt[*x] = *v);
                    if !extra_ok(&pt) {
                        continue;
                    }
                    shown = format!(" new {c:?}");
                    match &seen_after {
                        Some(s) => s[i],
                        None => self.observe(cache, &new_out, &pt),
                    }
                };
                if !origins.contains(&(i, got)) {
                    return Err(("new solution", format!("{}{shown} became a solution", sp.show(i))));
                }
            }
        }
        Ok(true)
    }
}
