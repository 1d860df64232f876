//! Reference semantics for the constraint solver's data structures: plain
//! evaluation over all assignments of a few variables in a tiny field.
use mc_field::Tiny;
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_constraint_solver::range_constraint::RangeConstraint;
use powdr_constraint_solver::runtime_constant::RuntimeConstant;
use serde::Serialize;
use std::fmt;

/// A variable of the enumerated systems, printed as a letter.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Var(pub u32);

pub const NAMES: &[&str] = &["x", "y", "z", "w", "u", "v"];

impl fmt::Display for Var {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match NAMES.get(self.0 as usize) {
            Some(n) => f.write_str(n),
            None => write!(f, "n{}", self.0),
        }
    }
}
impl fmt::Debug for Var {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self}")
    }
}
impl Serialize for Var {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_string())
    }
}

pub type F<const P: u32, const NB: usize> = Tiny<P, NB>;
pub type GE<const P: u32, const NB: usize> = GroupedExpression<Tiny<P, NB>, Var>;
pub type RC<const P: u32, const NB: usize> = RangeConstraint<Tiny<P, NB>>;

pub fn var<T: RuntimeConstant>(i: u32) -> GroupedExpression<T, Var> {
    GroupedExpression::from_unknown_variable(Var(i))
}
pub fn num<const P: u32, const NB: usize>(v: i64) -> GE<P, NB> {
    GroupedExpression::from_number(Tiny::new(v))
}

/// Value of an expression under an assignment (index = variable).
pub fn eval<const P: u32, const NB: usize>(e: &GE<P, NB>, a: &[Tiny<P, NB>]) -> Tiny<P, NB> {
    let mut r = *e.constant_offset();
    for (v, c) in e.linear_components() {
        r = r + *c * a[v.0 as usize];
    }
    for (l, q) in e.quadratic_components() {
        r = r + eval(l, a) * eval(q, a);
    }
    r
}

/// All assignments of `n` variables.
pub fn assignments<const P: u32, const NB: usize>(n: usize) -> Vec<Vec<Tiny<P, NB>>> {
    mc_core::tuples(P as usize, n)
        .map(|t| t.into_iter().map(|v| Tiny::new(v as i64)).collect())
        .collect()
}

/// All values of a small set of named ranges.
pub fn allowed<const P: u32, const NB: usize>(rc: &RC<P, NB>) -> Vec<Tiny<P, NB>> {
    let m = rc.mask().0;
    let (lo, hi) = rc.range();
    Tiny::all()
        .filter(|v| {
            let x = v.val();
            let r = if lo.val() <= hi.val() {
                lo.val() <= x && x <= hi.val()
            } else {
                lo.val() <= x || x <= hi.val()
            };
            r && x & m == x
        })
        .collect()
}

// ---- buses with explicit tables ----

use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, BusInteraction, BusInteractionHandler, ConstraintSystem};
use powdr_constraint_solver::bus_interaction_handler::ViolatesBusRules;
use std::collections::BTreeMap;
use std::sync::Arc;

pub type BI<const P: u32, const NB: usize> = BusInteraction<GE<P, NB>>;
pub type CS<const P: u32, const NB: usize> = ConstraintSystem<Tiny<P, NB>, Var>;

/// Buses given by the list of tuples they accept; a bus that is not listed is
/// stateful and accepts anything. `strength` 0 never deduces anything, 1 deduces the
/// tightest ranges without reporting errors, 2 also reports contradictions.
#[derive(Clone)]
pub struct Tables {
    pub tables: Arc<BTreeMap<u32, Vec<Vec<u32>>>>,
    pub strength: u8,
}

impl Tables {
    pub fn new(tables: BTreeMap<u32, Vec<Vec<u32>>>, strength: u8) -> Self {
        Tables { tables: Arc::new(tables), strength }
    }
    /// A pure lookup bus, as opposed to one with an observable effect.
    pub fn is_lookup(&self, id: u32) -> bool {
        self.tables.contains_key(&id)
    }
    /// Does the bus accept these concrete fields?
    pub fn accepts(&self, id: u32, mult: u32, payload: &[u32]) -> bool {
        match self.tables.get(&id) {
            Some(t) => mult == 0 || t.iter().any(|r| r == payload),
            None => true,
        }
    }
    pub fn hull<const P: u32, const NB: usize>(vals: &[u32]) -> RC<P, NB> {
        let lo = *vals.iter().min().unwrap();
        let hi = *vals.iter().max().unwrap();
        let m = vals.iter().fold(0, |a, b| a | b);
        let r = RC::from_range(Tiny::new(lo as i64), Tiny::new(hi as i64));
        r.conjunction(&RC::from_mask(m as u64))
    }
    fn rows<'a, const P: u32, const NB: usize>(
        &'a self,
        b: &BusInteraction<RC<P, NB>>,
    ) -> Option<Vec<&'a Vec<u32>>> {
        let id = b.bus_id.try_to_single_value()?;
        let t = self.tables.get(&id.val())?;
        if self.strength == 0 || allowed(&b.multiplicity).iter().any(|m| m.val() == 0) {
            return None;
        }
        let a: Vec<Vec<u32>> = b
            .payload
            .iter()
            .map(|r| allowed(r).into_iter().map(|v| v.val()).collect())
            .collect();
        Some(
            t.iter()
                .filter(|r| r.len() == a.len() && r.iter().zip(&a).all(|(v, a)| a.contains(v)))
                .collect(),
        )
    }
}

impl<const P: u32, const NB: usize> BusInteractionHandler<Tiny<P, NB>> for Tables {
    fn handle_bus_interaction(&self, mut b: BusInteraction<RC<P, NB>>) -> BusInteraction<RC<P, NB>> {
        if let Some(rows) = self.rows(&b) {
            for (i, rc) in b.payload.iter_mut().enumerate() {
                if !rows.is_empty() {
                    *rc = Self::hull(&rows.iter().map(|r| r[i]).collect::<Vec<_>>());
                }
            }
        }
        b
    }
    fn handle_bus_interaction_checked(
        &self,
        b: BusInteraction<RC<P, NB>>,
    ) -> Result<BusInteraction<RC<P, NB>>, ViolatesBusRules> {
        if self.strength >= 2 && self.rows(&b).is_some_and(|r| r.is_empty()) {
            return Err(ViolatesBusRules {});
        }
        Ok(self.handle_bus_interaction(b))
    }
}

/// The concrete fields of a bus interaction under an assignment.
pub fn eval_bus<const P: u32, const NB: usize>(b: &BI<P, NB>, a: &[Tiny<P, NB>]) -> (u32, u32, Vec<u32>) {
    (
        eval(&b.bus_id, a).val(),
        eval(&b.multiplicity, a).val(),
        b.payload.iter().map(|e| eval(e, a).val()).collect(),
    )
}

/// Does the assignment satisfy every constraint and lookup?
pub fn satisfies<const P: u32, const NB: usize>(s: &CS<P, NB>, t: &Tables, a: &[Tiny<P, NB>]) -> bool {
    s.algebraic_constraints.iter().all(|c| eval(&c.expression, a).val() == 0)
        && s.bus_interactions.iter().all(|b| {
            let (id, m, p) = eval_bus(b, a);
            t.accepts(id, m, &p)
        })
}

/// What the outside sees: the multiset of stateful interactions with non-zero
/// multiplicity, multiplicities of equal tuples added up.
pub fn observation<const P: u32, const NB: usize>(s: &CS<P, NB>, t: &Tables, a: &[Tiny<P, NB>]) -> BTreeMap<(u32, Vec<u32>), u32> {
    let mut r = BTreeMap::new();
    for b in &s.bus_interactions {
        let (id, m, p) = eval_bus(b, a);
        if !t.is_lookup(id) && m != 0 {
            let e = r.entry((id, p)).or_insert(0);
            *e = (*e + m) % P;
        }
    }
    r.retain(|_, m| *m != 0);
    r
}

pub fn bus<const P: u32, const NB: usize>(id: i64, mult: GE<P, NB>, payload: Vec<GE<P, NB>>) -> BI<P, NB> {
    BusInteraction { bus_id: num(id), multiplicity: mult, payload }
}
pub fn zero_constraint<const P: u32, const NB: usize>(e: GE<P, NB>) -> AlgebraicConstraint<GE<P, NB>> {
    AlgebraicConstraint::assert_zero(e)
}
pub fn system<const P: u32, const NB: usize>(cs: Vec<GE<P, NB>>, bs: Vec<BI<P, NB>>) -> CS<P, NB> {
    ConstraintSystem {
        algebraic_constraints: cs.into_iter().map(AlgebraicConstraint::assert_zero).collect(),
        bus_interactions: bs,
        derived_variables: vec![],
    }
}

/// A set of points of the space of all assignments to `n` variables, one bit each.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Bits(pub Vec<u64>);
impl Bits {
    pub fn from_fn(n: usize, f: impl Fn(usize) -> bool) -> Bits {
        let mut b = vec![0u64; n.div_ceil(64)];
        for i in 0..n {
            if f(i) {
                b[i / 64] |= 1 << (i % 64);
            }
        }
        Bits(b)
    }
    pub fn and(&self, o: &Bits) -> Bits {
        Bits(self.0.iter().zip(&o.0).map(|(a, b)| a & b).collect())
    }
    pub fn or(&self, o: &Bits) -> Bits {
        Bits(self.0.iter().zip(&o.0).map(|(a, b)| a | b).collect())
    }
    pub fn minus(&self, o: &Bits) -> Bits {
        Bits(self.0.iter().zip(&o.0).map(|(a, b)| a & !b).collect())
    }
    pub fn empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
    pub fn subset(&self, o: &Bits) -> bool {
        self.0.iter().zip(&o.0).all(|(a, b)| a & !b == 0)
    }
    pub fn first(&self) -> Option<usize> {
        self.0.iter().enumerate().find(|(_, x)| **x != 0).map(|(i, x)| i * 64 + x.trailing_zeros() as usize)
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
}

/// The space of assignments to `n` variables over a field of `p` elements.
pub struct Space {
    pub p: usize,
    pub n: usize,
    pub size: usize,
    /// by[v][x]: the points where variable v has value x
    pub by: Vec<Vec<Bits>>,
}
impl Space {
    pub fn new(p: usize, n: usize) -> Space {
        let size = p.pow(n as u32);
        let by = (0..n)
            .map(|v| (0..p).map(|x| Bits::from_fn(size, |i| i / p.pow(v as u32) % p == x)).collect())
            .collect();
        Space { p, n, size, by }
    }
    pub fn digit(&self, i: usize, v: usize) -> usize {
        i / self.p.pow(v as u32) % self.p
    }
    pub fn point<const P: u32, const NB: usize>(&self, i: usize) -> Vec<Tiny<P, NB>> {
        (0..self.n).map(|v| Tiny::new(self.digit(i, v) as i64)).collect()
    }
    pub fn all(&self) -> Bits {
        Bits::from_fn(self.size, |_| true)
    }
    pub fn none(&self) -> Bits {
        Bits::from_fn(self.size, |_| false)
    }
    /// Points where the variable's value is allowed by the range.
    pub fn within<const P: u32, const NB: usize>(&self, v: usize, rc: &RC<P, NB>) -> Bits {
        let mut r = self.none();
        for x in allowed(rc) {
            r = r.or(&self.by[v][x.val() as usize]);
        }
        r
    }
    pub fn boxed<const P: u32, const NB: usize>(&self, rcs: &[RC<P, NB>]) -> Bits {
        let mut r = self.all();
        for (v, rc) in rcs.iter().enumerate() {
            r = r.and(&self.within(v, rc));
        }
        r
    }
    pub fn values<const P: u32, const NB: usize>(&self, e: &GE<P, NB>) -> Vec<u32> {
        (0..self.size).map(|i| eval(e, &self.point(i)).val()).collect()
    }
    pub fn show(&self, i: usize) -> String {
        (0..self.n).map(|v| format!("{}={}", Var(v as u32), self.digit(i, v))).collect::<Vec<_>>().join(" ")
    }
}
