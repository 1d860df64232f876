//! C21: symbolic data written out is read back unchanged.
//!
//! All expression trees with up to four operations are written as JSON, CBOR and text,
//! converted between the representations, read back, and evaluated under all assignments.
//! Constants of all fields, column names, machines, constraint systems, bus maps and
//! precompiles (with everything exported while building them) go the same way.
use mc_apc::exec::*;
use mc_apc::vm::Op::*;
use mc_apc::vm::*;
use mc_core::rayon::prelude::*;
use mc_core::serde_json::{self, json, Value};
use mc_core::*;
use mc_field::Tiny;
use num_traits::Zero;
use powdr_autoprecompiles::blocks::SuperBlock;
use powdr_autoprecompiles::bus_map::{BusMap, BusType};
use powdr_autoprecompiles::empirical_constraints::{BlockCell, DebugInfo, EmpiricalConstraints};
use powdr_autoprecompiles::execution::*;
use powdr_autoprecompiles::export::{ApcWithBusMap, ExportLevel, ExportOptions, SimpleInstruction};
use powdr_autoprecompiles::expression::{AlgebraicExpression as AE, AlgebraicReference};
use powdr_autoprecompiles::expression_conversion::{algebraic_to_grouped_expression, grouped_expression_to_algebraic};
use powdr_autoprecompiles::powdr::UniqueReferences;
use powdr_autoprecompiles::symbolic_machine::*;
use powdr_autoprecompiles::{build, Apc, DegreeBound};
use powdr_constraint_solver::constraint_system::{ComputationMethod, DerivedVariable};
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use powdr_expression::visitors::AllChildren;
use powdr_expression::{AlgebraicBinaryOperation, AlgebraicBinaryOperator, AlgebraicUnaryOperation};
use powdr_number::*;
use powdr_openvm_bus_interaction_handler::bus_map::{default_openvm_bus_map, OpenVmBusType};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{Debug, Display};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type T7 = Tiny<7, 4>;

fn reference(name: &str, id: u64) -> AlgebraicReference {
    AlgebraicReference { name: Arc::new(name.to_string()), id }
}
fn x<T>(id: u64) -> AE<T> {
    AE::Reference(reference(["x", "y", "z"][id as usize], id))
}

/// The value of an expression (the column's id is its index).
fn eval<T: FieldElement>(e: &AE<T>, a: &[T]) -> T {
    match e {
        AE::Reference(r) => a[r.id as usize],
        AE::Number(n) => *n,
        AE::BinaryOperation(AlgebraicBinaryOperation { left, op, right }) => {
            let (l, r) = (eval(left, a), eval(right, a));
            match op {
                AlgebraicBinaryOperator::Add => l + r,
                AlgebraicBinaryOperator::Sub => l - r,
                AlgebraicBinaryOperator::Mul => l * r,
            }
        }
        AE::UnaryOperation(AlgebraicUnaryOperation { expr, .. }) => -eval(expr, a),
    }
}
fn eval_grouped<T: FieldElement>(e: &GroupedExpression<T, AlgebraicReference>, a: &[T]) -> T {
    let mut r = *e.constant_offset();
    for (v, c) in e.linear_components() {
        r += *c * a[v.id as usize];
    }
    for (l, q) in e.quadratic_components() {
        r += eval_grouped(l, a) * eval_grouped(q, a);
    }
    r
}
/// Equal including the names of columns.
fn identical<T: PartialEq>(a: &AE<T>, b: &AE<T>) -> bool {
    a == b
        && a.all_children().zip(b.all_children()).all(|p| match p {
            (AE::Reference(a), AE::Reference(b)) => a.name == b.name && a.id == b.id,
            _ => true,
        })
}

/// Reads an expression as it is usually written: product before sum, a minus sign before
/// both, everything else from left to right.
struct Parser<'a, T> {
    s: &'a [u8],
    at: usize,
    values: &'a dyn Fn(&str) -> Option<T>,
}
impl<T: FieldElement> Parser<'_, T> {
    fn peek(&mut self) -> Option<u8> {
        while self.s.get(self.at) == Some(&b' ') {
            self.at += 1;
        }
        self.s.get(self.at).copied()
    }
    fn sum(&mut self) -> Option<T> {
        let mut v = self.product()?;
        while let Some(op) = self.peek().filter(|c| b"+-".contains(c)) {
            self.at += 1;
            let w = self.product()?;
            v = if op == b'+' { v + w } else { v - w };
        }
        Some(v)
    }
    fn product(&mut self) -> Option<T> {
        let mut v = self.factor()?;
        while self.peek() == Some(b'*') {
            self.at += 1;
            v = v * self.factor()?;
        }
        Some(v)
    }
    fn factor(&mut self) -> Option<T> {
        match self.peek()? {
            b'-' => {
                self.at += 1;
                Some(-self.factor()?)
            }
            b'(' => {
                self.at += 1;
                let v = self.sum()?;
                (self.peek() == Some(b')')).then(|| self.at += 1)?;
                Some(v)
            }
            _ => {
                let start = self.at;
                while self.s.get(self.at).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_') {
                    self.at += 1;
                }
                (self.values)(std::str::from_utf8(&self.s[start..self.at]).ok()?)
            }
        }
    }
}
/// The value of an expression in words.
fn read<T: FieldElement>(s: &str, values: &dyn Fn(&str) -> Option<T>) -> Option<T> {
    let mut p = Parser { s: s.as_bytes(), at: 0, values };
    let v = p.sum()?;
    (p.peek().is_none()).then_some(v)
}
fn word<T: FieldElement>(w: &str, a: &[T]) -> Option<T> {
    match w {
        "x" => Some(a[0]),
        "y" => Some(a[1]),
        "z" => Some(a[2]),
        _ => {
            let mut v = T::zero();
            for d in w.chars() {
                v = v * T::from(10u64) + T::from(d.to_digit(10)? as u64);
            }
            (!w.is_empty()).then_some(v)
        }
    }
}

fn through_json<A: Serialize, B: DeserializeOwned>(a: &A) -> Result<B, String> {
    let s = serde_json::to_string(a).map_err(|e| e.to_string())?;
    serde_json::from_str(&s).map_err(|e| format!("{s}: {e}"))
}
fn through_cbor<A: Serialize + DeserializeOwned>(a: &A, file: &str) -> A {
    a.write(std::path::Path::new(file)).unwrap();
    A::read(&mut std::fs::File::open(file).unwrap())
}

/// Everything about one expression over one field; the points are all assignments.
fn expression<T: FieldElement + Display>(e: &AE<T>, points: &[Vec<T>], degree: Option<usize>) -> Result<(), (&'static str, String)> {
    let back: AE<T> = through_json(e).map_err(|w| ("JSON", w))?;
    if !identical(e, &back) {
        return Err(("JSON", format!("reads as {back:?}")));
    }
    let value: Value = through_json(e).map_err(|w| ("JSON", w))?;
    let back: AE<T> = serde_json::from_value(value).map_err(|w| ("JSON", w.to_string()))?;
    if !identical(e, &back) {
        return Err(("JSON", format!("reads as {back:?}")));
    }
    let text = e.to_string();
    let g = algebraic_to_grouped_expression(e);
    let back = grouped_expression_to_algebraic(g.clone());
    let gtext = g.to_string();
    let exported: AE<T> = through_json(&g).map_err(|w| ("JSON of a grouped expression", w))?;
    let refs: BTreeSet<(u64, String)> = e.unique_references().map(|r| (r.id, r.name.to_string())).collect();
    let mut want = BTreeSet::new();
    fn collect<T>(e: &AE<T>, out: &mut BTreeSet<(u64, String)>) {
        match e {
            AE::Reference(r) => {
                out.insert((r.id, r.name.to_string()));
            }
            AE::Number(_) => {}
            AE::BinaryOperation(b) => {
                collect(&b.left, out);
                collect(&b.right, out);
            }
            AE::UnaryOperation(u) => collect(&u.expr, out),
        }
    }
    collect(e, &mut want);
    if refs != want {
        return Err(("references", format!("{refs:?}")));
    }
    if let Some(d) = degree.filter(|d| *d != e.degree()) {
        return Err(("degree", format!("{} instead of {d}", e.degree())));
    }
    for a in points {
        let v = eval(e, a);
        let same = |kind: &'static str, w: T, text: &dyn Display| if v == w { Ok(()) } else { Err((kind, format!("{text} is {w} instead of {v} at {a:?}"))) };
        same("text", read(&text, &|w| word(w, a)).ok_or(("text", format!("{text:?} is not an expression")))?, &text)?;
        same("grouped", eval_grouped(&g, a), &gtext)?;
        same("ungrouped", eval(&back, a), &back)?;
        same("text of a grouped expression", read(&gtext, &|w| word(w, a)).ok_or(("text of a grouped expression", format!("{gtext:?}")))?, &gtext)?;
        same("JSON of a grouped expression", eval(&exported, a), &exported)?;
        same("conversion", e.to_expression(&|n| *n, &|r| a[r.id as usize]), &"to_expression")?;
    }
    Ok(())
}

/// All trees with up to `ops` operations, with their degrees.
fn trees<T: FieldElement>(leaves: &[AE<T>], ops: usize) -> Vec<(AE<T>, usize)> {
    let mut by: Vec<Vec<(AE<T>, usize)>> = vec![leaves.iter().map(|l| (l.clone(), matches!(l, AE::Reference(_)) as usize)).collect()];
    for n in 1..=ops {
        let mut next: Vec<(AE<T>, usize)> = by[n - 1].iter().map(|(e, d)| (-e.clone(), *d)).collect();
        for l in 0..n {
            for (a, da) in &by[l] {
                for (b, db) in &by[n - 1 - l] {
                    next.push((a.clone() + b.clone(), *da.max(db)));
                    next.push((a.clone() - b.clone(), *da.max(db)));
                    next.push((a.clone() * b.clone(), da + db));
                }
            }
        }
        by.push(next);
    }
    by.into_iter().flatten().collect()
}

fn field<T: FieldElement + Display + Debug>(c: &Check, name: &str, dir: &str) {
    let n = |v: u64| T::from(v);
    let half = T::from_str_radix(&((T::modulus().to_arbitrary_integer() - 1u32) / 2u32).to_string(), 10).unwrap();
    let mut numbers = vec![half, half - n(1), half + n(1), half + n(2)];
    for k in [0, 1, 2, 7, 10, 99, 255, 256, 65535, 65536, (1 << 31) - 2, u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX] {
        if BigUint::from(k) < T::modulus().to_arbitrary_integer() {
            numbers.extend([n(k), -n(k)]);
        }
    }
    let points = [vec![n(0), n(1)], vec![-n(1), half], vec![n(12345), -n(7)]];
    for (i, k) in numbers.iter().enumerate() {
        let back: Result<T, String> = through_json(k);
        if back.as_ref() != Ok(k) {
            c.violation("JSON of a number", format!("{name} {k}: {back:?}"));
        }
        for t in [AE::Number(*k), x(0) * AE::Number(*k), -(AE::Number(*k) - x(1)), (x(0) + AE::Number(*k)) * (x(1) - AE::Number(*k)), AE::Number(*k) * x(0) + AE::Number(*k) * x(1)] {
            c.eval(1);
            if let Err((kind, w)) = expression(&t, &points, None) {
                c.violation(kind, format!("{name} {t}: {w}"));
            }
            let t2: AE<T> = through_cbor(&t, &format!("{dir}/{name}{i}"));
            if t2 != t {
                c.violation("CBOR", format!("{name} {t} is read back as {t2}"));
            }
        }
    }
    c.states(numbers.len() as u64);
}

static DIRS: AtomicUsize = AtomicUsize::new(0);
/// A directory that is removed again.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("c21-{}-{}", std::process::id(), DIRS.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir(&d).unwrap();
        Scratch(d)
    }
    fn files(&self) -> BTreeMap<String, String> {
        std::fs::read_dir(&self.0).unwrap().map(|f| f.unwrap()).map(|f| (f.file_name().into_string().unwrap(), std::fs::read_to_string(f.path()).unwrap())).collect()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

type Machine<T> = SymbolicMachine<T>;

/// How a machine is shown, line by line.
fn rendered<T: FieldElement + Display>(m: &Machine<T>, text: &str, a: &[T]) -> Result<(), String> {
    let mut lines = text.lines();
    let mut next = || lines.next().unwrap_or("").to_string();
    let columns: BTreeMap<u64, String> = m.main_columns().map(|r| (r.id, r.name.to_string())).collect();
    let (head, n) = (next(), columns.len());
    if !head.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string()) {
        return Err(format!("{head:?} for {n} columns"));
    }
    for c in columns.values() {
        let l = next();
        if l.trim() != c {
            return Err(format!("{l:?} instead of the column {c}"));
        }
    }
    let rest: Vec<String> = lines.map(|l| l.to_string()).collect();
    let value = |s: &str| read(s, &|w| word(w, a)).ok_or(format!("{s:?} is not an expression"));
    let mut bus: Option<u64> = None;
    let mut got: Vec<(u64, T, Vec<T>)> = vec![];
    let mut cons: Vec<T> = vec![];
    for l in rest {
        if let Some(b) = l.strip_prefix("// Bus ") {
            bus = Some(b.split(' ').next().unwrap().parse().map_err(|_| l.clone())?);
        } else if let Some(r) = l.strip_prefix("mult=") {
            let (m, args) = r.split_once(", args=[").ok_or(l.clone())?;
            let args = args.strip_suffix(']').ok_or(l.clone())?;
            let args = if args.is_empty() { vec![] } else { args.split(", ").map(&value).collect::<Result<Vec<T>, _>>()? };
            got.push((bus.ok_or(l.clone())?, value(m)?, args));
        } else if let Some(e) = l.strip_suffix(" = 0") {
            cons.push(value(e)?);
        }
    }
    let mut want: Vec<(u64, T, Vec<T>)> = m.bus_interactions.iter().map(|b| (b.id, eval(&b.mult, a), b.args.iter().map(|e| eval(e, a)).collect())).collect();
    want.sort_by_key(|w| w.0);
    if got != want {
        return Err(format!("interactions {got:?} instead of {want:?}"));
    }
    let want: Vec<T> = m.constraints.iter().map(|k| eval(&k.expr, a)).collect();
    if cons != want {
        return Err(format!("constraints {cons:?} instead of {want:?}"));
    }
    Ok(())
}

fn same_machine<T: FieldElement>(a: &Machine<T>, b: &Machine<T>) -> bool {
    a.constraints.len() == b.constraints.len()
        && a.constraints.iter().zip(&b.constraints).all(|(a, b)| identical(&a.expr, &b.expr))
        && a.bus_interactions.len() == b.bus_interactions.len()
        && a.bus_interactions.iter().zip(&b.bus_interactions).all(|(a, b)| a.id == b.id && a.args.len() == b.args.len() && identical(&a.mult, &b.mult) && a.args.iter().zip(&b.args).all(|(a, b)| identical(a, b)))
        && a.derived_columns.len() == b.derived_columns.len()
        && a.derived_columns.iter().zip(&b.derived_columns).all(|(a, b)| {
            a.variable == b.variable
                && a.variable.name == b.variable.name
                && match (&a.computation_method, &b.computation_method) {
                    (ComputationMethod::Constant(a), ComputationMethod::Constant(b)) => a == b,
                    (ComputationMethod::QuotientOrZero(a, b), ComputationMethod::QuotientOrZero(c, d)) => identical(a, c) && identical(b, d),
                    _ => false,
                }
        })
}

fn main() {
    let c = Check::new(
        "C21",
        "model_checking",
        "all expression trees with up to four operations through JSON, text and both conversions, evaluated under all assignments; constants of all fields; all column names over an alphabet; machines, maps and precompiles",
        &["names of columns in text are words, as the column names of the virtual machines are"],
    );
    let deep = thorough();
    let fail = |kind: &str, what: String| c.violation(kind, what);
    let n7 = |v: i64| AE::Number(T7::new(v));
    let points: Vec<Vec<T7>> = mc_cs::assignments::<7, 4>(2);

    c.batch("expressions", || {
        let some: Vec<Vec<T7>> = points.iter().skip(3).step_by(5).cloned().collect();
        let check = |list: Vec<(AE<T7>, usize)>, points: &[Vec<T7>]| {
            c.states(list.len() as u64);
            list.par_iter().for_each(|(e, d)| {
                if c.violated() {
                    return;
                }
                c.eval(points.len() as u64);
                c.nontrivial((*d > 0) as u64);
                if let Err((kind, w)) = expression(e, points, Some(*d)) {
                    fail(kind, format!("{e}: {w}"));
                }
            });
        };
        check(trees(&[x(0), x(1), n7(0), n7(1), n7(3), n7(4), n7(6)], 2), &points);
        check(trees(&[x(0), x(1), n7(5)], 3), &points);
        check(trees(&[x(0), x(1), n7(5)], 4), if deep { &points } else { &some });
        if deep {
            check(trees(&[x(0), n7(5)], 5), &some);
        }
    });

    c.batch("numbers", || {
        let d = Scratch::new();
        let dir = d.0.to_str().unwrap();
        field::<GoldilocksField>(&c, "Goldilocks", dir);
        field::<BabyBearField>(&c, "BabyBear", dir);
        field::<KoalaBearField>(&c, "KoalaBear", dir);
        field::<Mersenne31Field>(&c, "Mersenne31", dir);
        field::<Bn254Field>(&c, "Bn254", dir);
    });

    c.batch("names", || {
        let alphabet = ["a", "@", "1", "-", "\"", "é", "[", " ", "\\", "\n", ","];
        let ids = [0, 1, 7, 10, u32::MAX as u64, 1 << 53, (1 << 53) + 1, u64::MAX];
        for k in 0..=if deep { 5 } else { 4 } {
            tuples(alphabet.len(), k).collect::<Vec<_>>().par_iter().for_each(|t| {
                let name: String = t.iter().map(|i| alphabet[*i]).collect();
                for id in ids {
                    c.eval(1);
                    let r = reference(&name, id);
                    let back: Result<AlgebraicReference, String> = through_json(&r);
                    if !back.as_ref().is_ok_and(|b| b.id == id && *b.name == name) {
                        fail("name", format!("column {name:?} with id {id} is read back as {back:?}"));
                    }
                    let e: AE<T7> = -(AE::Reference(r.clone()) * n7(3));
                    let back: Result<AE<T7>, String> = through_json(&e);
                    if !back.as_ref().is_ok_and(|b| identical(&e, b)) {
                        fail("name", format!("an expression of column {name:?} with id {id} is read back as {back:?}"));
                    }
                }
                // whatever is read is an error or right
                let read: Result<AlgebraicReference, _> = serde_json::from_value(Value::String(name.clone()));
                if let Ok(r) = read {
                    let again: AlgebraicReference = through_json(&r).unwrap();
                    if again.name != r.name || again.id != r.id || !name.starts_with(r.name.as_str()) {
                        fail("name", format!("{name:?} is read as {r:?}"));
                    }
                }
            });
        }
    });

    c.batch("machines", || {
        let e: Vec<AE<T7>> = vec![n7(0), x(0), x(0) * x(1) - n7(6), -(x(1) - x(0) * n7(5)), n7(6), -(x(0) * (x(1) + n7(4)))];
        let cons: Vec<Vec<usize>> = (0..=2).flat_map(|k| tuples(e.len(), k)).collect();
        let buses: Vec<Vec<(u64, usize, Vec<usize>)>> = vec![
            vec![],
            vec![(0, 4, vec![])],
            vec![(4, 1, vec![2, 0])],
            vec![(4, 2, vec![1]), (0, 4, vec![3, 1, 2])],
            vec![(1, 5, vec![5]), (0, 1, vec![1]), (1, 4, vec![2, 4])],
            vec![(2, 3, vec![0, 0]), (2, 3, vec![0, 0])],
        ];
        let derived: Vec<Vec<usize>> = (0..=2).flat_map(|k| tuples(4, k)).collect();
        cons.par_iter().for_each(|k| {
            for b in &buses {
                for d in &derived {
                    c.eval(1);
                    c.states(1);
                    let m: Machine<T7> = SymbolicMachine {
                        constraints: k.iter().map(|i| SymbolicConstraint { expr: e[*i].clone() }).collect(),
                        bus_interactions: b.iter().map(|(id, m, a)| SymbolicBusInteraction { id: *id, mult: e[*m].clone(), args: a.iter().map(|i| e[*i].clone()).collect() }).collect(),
                        derived_columns: d
                            .iter()
                            .map(|i| {
                                let how = match i {
                                    0 => ComputationMethod::Constant(T7::new(6)),
                                    1 => ComputationMethod::Constant(T7::new(0)),
                                    2 => ComputationMethod::QuotientOrZero(e[2].clone(), e[1].clone()),
                                    _ => ComputationMethod::QuotientOrZero(e[4].clone(), e[3].clone()),
                                };
                                DerivedVariable::new(reference("z", 2 + *i as u64), how)
                            })
                            .collect(),
                    };
                    let back: Result<Machine<T7>, String> = through_json(&m);
                    if !back.as_ref().is_ok_and(|b| same_machine(&m, b)) {
                        fail("machine", format!("{m:?} is read back as {back:?}"));
                    }
                    let system = symbolic_machine_to_constraint_system(m.clone());
                    let again = constraint_system_to_symbolic_machine(system.clone());
                    let exported: Result<Machine<T7>, String> = through_json(&system);
                    let shown = m.render(&bus_map());
                    for a in points.iter().step_by(4) {
                        let mut a = a.clone();
                        a.push(T7::new(3));
                        if let Err(w) = rendered(&m, &shown, &a) {
                            fail("rendering", format!("{m:?} is shown as\n{shown}\n{w}"));
                        }
                        let bus_value = |b: &SymbolicBusInteraction<T7>| (b.id, eval(&b.mult, &a), b.args.iter().map(|e| eval(e, &a)).collect::<Vec<_>>());
                        let method = |m: &ComputationMethod<T7, AE<T7>>| match m {
                            ComputationMethod::Constant(c) => (*c, None),
                            ComputationMethod::QuotientOrZero(p, q) => (eval(p, &a), Some(eval(q, &a))),
                        };
                        let right = m.constraints.len() == again.constraints.len()
                            && m.constraints.iter().zip(&again.constraints).all(|(p, q)| eval(&p.expr, &a).is_zero() == eval(&q.expr, &a).is_zero())
                            && m.bus_interactions.iter().map(bus_value).eq(again.bus_interactions.iter().map(bus_value))
                            && m.derived_columns.iter().map(|d| (d.variable.id, method(&d.computation_method))).eq(again.derived_columns.iter().map(|d| (d.variable.id, method(&d.computation_method))));
                        if !right {
                            fail("conversion", format!("{m} as a system and back is {again}"));
                        }
                        // the exported system can be read as a machine
                        let ok = exported.as_ref().is_ok_and(|e| {
                            m.constraints.len() == e.constraints.len()
                                && m.constraints.iter().zip(&e.constraints).all(|(p, q)| eval(&p.expr, &a).is_zero() == eval(&q.expr, &a).is_zero())
                                && m.bus_interactions.iter().map(bus_value).eq(e.bus_interactions.iter().map(bus_value))
                                && m.derived_columns.iter().map(|d| (d.variable.id, method(&d.computation_method))).eq(e.derived_columns.iter().map(|d| (d.variable.id, method(&d.computation_method))))
                        });
                        if !ok {
                            fail("exported system", format!("{m} is exported as {exported:?}"));
                        }
                    }
                }
            }
        });
        // a constraint is the same with and without a sign
        for (t, _) in trees(&[x(0), x(1), n7(5)], 2) {
            let k = SymbolicConstraint::from(t.clone());
            if points.iter().any(|a| eval(&k.expr, a).is_zero() != eval(&t, a).is_zero()) {
                fail("constraint", format!("{t} = 0 is taken for {k} = 0"));
            }
        }
    });

    c.batch("maps and facts", || {
        let maps: Vec<BusMap<OpenVmBusType>> = tuples(6, 3)
            .map(|t| {
                let ty = |i: usize| [BusType::ExecutionBridge, BusType::Memory, BusType::PcLookup, BusType::Other(OpenVmBusType::VariableRangeChecker), BusType::Other(OpenVmBusType::TupleRangeChecker([256, 2048])), BusType::Other(OpenVmBusType::BitwiseLookup)][i];
                BusMap::from_id_type_pairs([(0, ty(t[0])), (7, ty(t[1])), (u64::MAX, ty(t[2]))])
            })
            .chain([default_openvm_bus_map()])
            .collect();
        for m in maps {
            c.eval(1);
            let back: BusMap<OpenVmBusType> = through_json(&m).unwrap();
            let same = m.all_types_by_id().len() == back.all_types_by_id().len() && m.all_types_by_id().iter().zip(back.all_types_by_id()).all(|(a, b)| a.0 == b.0 && a.1 == b.1);
            let found = m.all_types_by_id().values().all(|ty| back.get_bus_id(ty) == m.all_types_by_id().iter().find(|b| b.1 == ty).map(|b| *b.0));
            if !same || !found {
                fail("bus map", serde_json::to_string(&m).unwrap());
            }
        }
        // empirical constraints
        for t in tuples(4, 4) {
            c.eval(1);
            let cell = |i: usize| BlockCell::new(i / 2, i % 2);
            let mut sets: Vec<Vec<BlockCell>> = vec![vec![]; 4];
            t.iter().enumerate().for_each(|(i, k)| sets[*k].push(cell(i)));
            let e = EmpiricalConstraints {
                column_ranges_by_pc: [(4, vec![(t[0] as u32, u32::MAX), (0, t[1] as u32)]), (u32::MAX, vec![])].into(),
                equivalence_classes_by_block: [(u64::MAX, sets.into_iter().collect()), (8, Default::default())].into(),
                debug_info: DebugInfo { air_id_by_pc: [(4, t[2])].into(), column_names_by_air_id: [(t[2], vec!["a".into(), "".into()])].into() },
                pc_counts: [(4, u64::MAX - t[3] as u64)].into(),
            };
            let back: EmpiricalConstraints = through_json(&e).unwrap();
            let same = back.column_ranges_by_pc == e.column_ranges_by_pc
                && back.equivalence_classes_by_block == e.equivalence_classes_by_block
                && back.debug_info.air_id_by_pc == e.debug_info.air_id_by_pc
                && back.debug_info.column_names_by_air_id == e.debug_info.column_names_by_air_id
                && back.pc_counts == e.pc_counts;
            if !same {
                fail("empirical constraints", format!("{e:?} are read back as {back:?}"));
            }
        }
        // conditions
        let ends: Vec<OptimisticExpression<u32, u64>> = [0, 1, 5]
            .into_iter()
            .flat_map(|instr_idx| [LocalOptimisticLiteral::Pc, LocalOptimisticLiteral::RegisterLimb(3, 1)].map(|val| OptimisticExpression::Literal(OptimisticLiteral { instr_idx, val })))
            .chain([OptimisticExpression::Number(u64::MAX), OptimisticExpression::Number(0)])
            .collect();
        let all: Vec<OptimisticConstraint<u32, u64>> = tuples(ends.len(), 2).map(|t| OptimisticConstraint { left: ends[t[0]].clone(), right: ends[t[1]].clone() }).collect();
        for t in (0..=2).flat_map(|k| tuples(all.len(), k)) {
            c.eval(1);
            let k = OptimisticConstraints::from_constraints(t.iter().map(|i| all[*i].clone()).collect());
            let back: OptimisticConstraints<u32, u64> = through_json(&k).unwrap();
            if back != k {
                fail("conditions", format!("{k:?} are read back as {back:?}"));
            }
        }
    });

    // everything that is written while a precompile is built
    c.batch("exports", || {
        let alphabet = [ins(Add, 1, 1, 1, false), ins(Sub, 2, 1, 1, true), ins(Store, 1, 2, 0, false), ins(Load, 1, 2, 0, false), ins(Beq, 1, 2, 8, false), ins(IsZero, 1, 1, 0, false), ins(Mul, 1, 2, 2, true), ins(Xor, 1, 2, 2, false)];
        let blocks: Vec<Block> = (1..=2).flat_map(|n| tuples(alphabet.len(), n).collect::<Vec<_>>()).flat_map(|t| paths(&t.iter().map(|i| alphabet[*i]).collect::<Vec<_>>())).collect();
        blocks.par_iter().enumerate().for_each(|(k, b)| {
            let airs = Airs::default();
            let sb = SuperBlock::from(b.clone());
            let bound = DegreeBound { identities: 3, bus_interactions: 2 };
            let plain = build::<Vm>(sb.clone(), vm_config(&airs), bound, ExportOptions::default(), &EmpiricalConstraints::default());
            for level in if k % 4 == 0 || deep { 1..=3 } else { 1..=1 } {
                c.eval(1);
                let dir = Scratch::new();
                let path = dir.0.join("not/yet/there");
                let options = if level == 1 {
                    ExportOptions::new(Some(path.clone()), &sb.start_pcs(), ExportLevel::OnlyAPC)
                } else {
                    ExportOptions::from_env_vars(Some(path.to_str().unwrap().to_string()), Some(level.to_string()), &sb.start_pcs())
                };
                let built = build::<Vm>(sb.clone(), vm_config(&airs), bound, options, &EmpiricalConstraints::default());
                let text = show(b);
                let (built, plain) = match (built, &plain) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(_), Err(_)) => return,
                    _ => return fail("exporting", format!("{text}: exporting makes a difference")),
                };
                let whole: Result<VmApc, String> = through_json(&built);
                match &whole {
                    Ok(w) if same_machine(&w.machine, &built.machine) && format!("{:?}{:?}", w.block, w.subs) == format!("{:?}{:?}", built.block, built.subs) && w.optimistic_constraints == built.optimistic_constraints => {}
                    _ => fail("precompile", format!("{text}: read back as {whole:?}")),
                }
                let show_apc = |a: &VmApc| (a.machine.to_string(), format!("{:?}", a.subs), format!("{:?}", a.machine.derived_columns));
                if show_apc(&built) != show_apc(plain) {
                    return fail("exporting", format!("{text}: exporting makes a difference"));
                }
                let sub = Scratch(path);
                let files = sub.files();
                c.transitions(files.len() as u64);
                type Exported = ApcWithBusMap<Apc<F, SimpleInstruction<F>, u32, u64>, BusMap<String>>;
                let stub = format!("apc_candidate_{}_", sb.start_pcs().iter().map(|p| p.to_string()).collect::<Vec<_>>().join("_"));
                let mut last = None;
                let mut numbers = vec![];
                for (name, content) in &files {
                    let bad = |what: String| fail("exported file", format!("{text}: {name} {what}"));
                    let Some(rest) = name.strip_prefix(&stub) else { return bad("has a strange name".into()) };
                    if rest == "substitutions.json" {
                        type Sub = (AlgebraicReference, AE<F>);
                        match serde_json::from_str::<Vec<Sub>>(content) {
                            Ok(subs) => {
                                // substituted columns are gone
                                let left: BTreeSet<u64> = built.machine.main_columns().map(|r| r.id).collect();
                                c.count("substitutions", subs.len() as u64);
                                if let Some((v, _)) = subs.iter().find(|s| left.contains(&s.0.id)) {
                                    return bad(format!("lists {v}, which is still there"));
                                }
                            }
                            Err(e) => return bad(e.to_string()),
                        }
                        continue;
                    }
                    if rest.ends_with(".txt") {
                        let json = name.replace(".txt", ".json");
                        match files.get(&json).and_then(|j| serde_json::from_str::<Exported>(j).ok()) {
                            Some(a) if a.apc.machine.render(&a.bus_map) == *content => {}
                            _ => return bad(format!("does not show {json}")),
                        }
                        continue;
                    }
                    numbers.push(rest[..3].parse::<usize>().unwrap_or(usize::MAX));
                    let value: Value = match serde_json::from_str(content) {
                        Ok(v) => v,
                        Err(e) => return bad(e.to_string()),
                    };
                    // a precompile, a machine or a system
                    if value.get("bus_map").is_some() {
                        match serde_json::from_value::<Exported>(value) {
                            Ok(a) => {
                                let starts: Vec<u64> = a.apc.start_pcs();
                                let want: Vec<Value> = b.iter().flat_map(|b| &b.instructions).map(|i| serde_json::to_value(powdr_autoprecompiles::blocks::Instruction::<F>::pc_lookup_row(i, 0)[1..].to_vec()).unwrap()).collect();
                                let got: Vec<Value> = a.apc.block.blocks().flat_map(|b| &b.instructions).map(|i| serde_json::to_value(i).unwrap()).collect();
                                if starts != sb.start_pcs() || got != want {
                                    return bad(format!("is for {starts:?} {got:?}"));
                                }
                                last = Some((rest[..3].to_string(), a));
                            }
                            Err(e) => return bad(e.to_string()),
                        }
                    } else if value.get("constraints").is_some() {
                        if let Err(e) = serde_json::from_value::<Machine<F>>(value) {
                            return bad(e.to_string());
                        }
                    } else {
                        c.count("other files", 1);
                    }
                }
                numbers.sort();
                if numbers != (0..numbers.len()).collect::<Vec<_>>() {
                    return fail("exported files", format!("{text}: numbered {numbers:?}"));
                }
                match last {
                    Some((_, a)) if same_machine(&a.apc.machine, &built.machine) && format!("{:?}", a.apc.subs) == format!("{:?}", built.subs) && a.apc.optimistic_constraints == built.optimistic_constraints => {
                        if a.bus_map.all_types_by_id().iter().map(|b| (*b.0, b.1.to_string())).ne(bus_map().all_types_by_id().iter().map(|b| (*b.0, b.1.to_string()))) {
                            fail("exported file", format!("{text}: another bus map"));
                        }
                    }
                    _ => fail("exported files", format!("{text}: the last precompile exported is not the result")),
                }
                if level > 1 && files.len() < 4 {
                    fail("exported files", format!("{text}: only {:?} at level {level}", files.keys()));
                }
            }
        });
    });
    c.sample(json!({"expression": "-(x * (y - 5)) - x", "through": ["JSON", "text", "grouped and back", "text and JSON of the grouped form"], "compared at": "all 49 assignments"}));
    c.finish()
}
