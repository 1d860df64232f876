//! C04: rewriting expressions never changes their value.
//!
//! Breadth-first search over operation sequences. A state is an expression
//! together with the polynomial function it must denote (its value on every
//! assignment of a small field); every transition applies one public operation to
//! both and compares.
use mc_core::*;
use mc_cs::*;
use mc_field::Tiny;
use num_traits::{One, Zero};
use powdr_constraint_solver::grouped_expression::{GroupedExpression, GroupedExpressionComponent};
use powdr_constraint_solver::runtime_constant::{RuntimeConstant, VarTransformable};
use powdr_constraint_solver::symbolic_expression::SymbolicExpression;
use powdr_number::{ExpressionConvertible, FieldElement};
use rayon::prelude::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};

const P: u32 = 5;
const NB: usize = 4;
const N: usize = 3; // variables
const SIZE: usize = 125;
type T = Tiny<P, NB>;
type E = GE<P, NB>;
type Tab = [u8; SIZE];

fn digit(i: usize, v: usize) -> u8 {
    (i / 5usize.pow(v as u32) % 5) as u8
}
fn konst(c: u8) -> Tab {
    [c; SIZE]
}
fn vtab(v: usize) -> Tab {
    std::array::from_fn(|i| digit(i, v))
}
fn z2(a: &Tab, b: &Tab, f: impl Fn(u8, u8) -> u8) -> Tab {
    std::array::from_fn(|i| f(a[i], b[i]) % 5)
}
fn add(a: &Tab, b: &Tab) -> Tab {
    z2(a, b, |x, y| x + y)
}
fn sub(a: &Tab, b: &Tab) -> Tab {
    z2(a, b, |x, y| x + 5 - y)
}
fn mul(a: &Tab, b: &Tab) -> Tab {
    z2(a, b, |x, y| x * y)
}
/// The function with variable `v` replaced by the function `s`.
fn subst(a: &Tab, v: usize, s: &Tab) -> Tab {
    let w = 5usize.pow(v as u32);
    std::array::from_fn(|i| {
        let j = i - digit(i, v) as usize * w + s[i] as usize * w;
        a[j]
    })
}
fn depends(a: &Tab, v: usize) -> bool {
    (0..SIZE).any(|i| {
        let j = i - digit(i, v) as usize * 5usize.pow(v as u32);
        a[i] != a[j]
    })
}
/// Degree of the reduced polynomial, total and in one variable.
fn degrees(a: &Tab) -> (usize, [usize; N]) {
    // Coefficients by Lagrange inversion, one variable at a time:
    // c_k = -sum_x f(x) x^(4-k) for k>0 (with 0^0 = 1), c_0 = f(0).
    let mut c: Vec<u8> = a.to_vec();
    for v in 0..N {
        let w = 5usize.pow(v as u32);
        let mut n = c.clone();
        for i in 0..SIZE {
            let k = digit(i, v) as usize;
            let base = i - k * w;
            if k == 0 {
                n[i] = c[base];
            } else {
                let mut s = 0u32;
                for x in 0..5u32 {
                    s += c[base + x as usize * w] as u32 * x.pow(4 - k as u32);
                }
                n[i] = ((5 - s % 5) % 5) as u8;
            }
        }
        c = n;
    }
    let mut total = 0;
    let mut per = [0; N];
    for i in 0..SIZE {
        if c[i] != 0 {
            let d: Vec<usize> = (0..N).map(|v| digit(i, v) as usize).collect();
            total = total.max(d.iter().sum());
            for v in 0..N {
                per[v] = per[v].max(d[v]);
            }
        }
    }
    (total, per)
}
fn table(e: &E) -> Tab {
    let mut r = konst(e.constant_offset().val() as u8);
    for (v, c) in e.linear_components() {
        let k = c.val() as u8;
        let w = v.0 as usize;
        for (i, x) in r.iter_mut().enumerate() {
            *x = (*x + k * digit(i, w)) % 5;
        }
    }
    for (l, q) in e.quadratic_components() {
        let (a, b) = (table(l), table(q));
        for i in 0..SIZE {
            r[i] = (r[i] + a[i] * b[i]) % 5;
        }
    }
    r
}

/// Reads the printed form back: sums and products with the usual precedence.
fn parse(s: &str) -> Result<Tab, String> {
    struct Ps<'a>(&'a [u8], usize);
    impl Ps<'_> {
        fn ws(&mut self) {
            while self.0.get(self.1) == Some(&b' ') {
                self.1 += 1;
            }
        }
        fn peek(&mut self) -> Option<u8> {
            self.ws();
            self.0.get(self.1).copied()
        }
        fn sum(&mut self) -> Result<Tab, String> {
            let mut r = self.prod()?;
            loop {
                match self.peek() {
                    Some(b'+') => {
                        self.1 += 1;
                        r = add(&r, &self.prod()?);
                    }
                    Some(b'-') => {
                        self.1 += 1;
                        r = sub(&r, &self.prod()?);
                    }
                    _ => return Ok(r),
                }
            }
        }
        fn prod(&mut self) -> Result<Tab, String> {
            let mut r = self.atom()?;
            while self.peek() == Some(b'*') {
                self.1 += 1;
                r = mul(&r, &self.atom()?);
            }
            Ok(r)
        }
        fn atom(&mut self) -> Result<Tab, String> {
            match self.peek() {
                Some(b'(') => {
                    self.1 += 1;
                    let r = self.sum()?;
                    if self.peek() != Some(b')') {
                        return Err("missing )".into());
                    }
                    self.1 += 1;
                    Ok(r)
                }
                Some(b'-') => {
                    self.1 += 1;
                    Ok(sub(&konst(0), &self.prod()?))
                }
                Some(c) if c.is_ascii_digit() => {
                    let mut v = 0u32;
                    while let Some(c) = self.0.get(self.1).filter(|c| c.is_ascii_digit()) {
                        v = v * 10 + (c - b'0') as u32;
                        self.1 += 1;
                    }
                    Ok(konst((v % 5) as u8))
                }
                Some(c) => {
                    let i = NAMES.iter().position(|n| n.as_bytes() == [c]).ok_or("bad atom")?;
                    self.1 += 1;
                    Ok(vtab(i))
                }
                None => Err("unexpected end".into()),
            }
        }
    }
    let mut p = Ps(s.as_bytes(), 0);
    let r = p.sum()?;
    if p.peek().is_some() {
        return Err(format!("trailing text at {}", p.1));
    }
    Ok(r)
}

fn of_json(v: &Value) -> Result<Tab, String> {
    match v {
        Value::Number(n) => Ok(konst((n.as_u64().unwrap() % 5) as u8)),
        Value::String(s) => Ok(vtab(NAMES.iter().position(|n| n == s).ok_or("name")?)),
        Value::Array(a) if a.len() == 3 => {
            let (l, r) = (of_json(&a[0])?, of_json(&a[2])?);
            match a[1].as_str() {
                Some("+") => Ok(add(&l, &r)),
                Some("-") => Ok(sub(&l, &r)),
                Some("*") => Ok(mul(&l, &r)),
                _ => Err("operator".into()),
            }
        }
        Value::Array(a) if a.len() == 2 && a[0] == "-" => Ok(sub(&konst(0), &of_json(&a[1])?)),
        _ => Err(format!("unexpected {v}")),
    }
}

/// Everything that can be observed on one expression.
fn local_checks(e: &E, t: &Tab, rcs: &[HashMap<Var, RC<P, NB>>]) -> Result<(), String> {
    let want = |ok: bool, what: &str| if ok { Ok(()) } else { Err(what.to_string()) };
    want(table(e) == *t, "denotes another function")?;
    if let Some(k) = e.try_to_known() {
        want(*t == konst(k.val() as u8), "try_to_known")?;
    }
    if let Some(k) = e.try_to_number() {
        want(*t == konst(k.val() as u8), "try_to_number")?;
    }
    want(!e.is_zero() || *t == konst(0), "is_zero")?;
    want(!e.is_one() || *t == konst(1), "is_one")?;
    if let Some(v) = e.try_to_simple_unknown() {
        want(*t == vtab(v.0 as usize), "try_to_simple_unknown")?;
    }
    let (d, dv) = degrees(t);
    want(e.degree() >= d, "degree below that of the function")?;
    want(!e.is_affine() || d <= 1, "is_affine")?;
    want(e.is_affine() != e.is_quadratic(), "is_affine/is_quadratic")?;
    let vars: HashSet<Var> = e.referenced_unknown_variables().copied().collect();
    for v in 0..N {
        let x = Var(v as u32);
        want(e.degree_of_variable(&x) >= dv[v], "degree_of_variable below that of the function")?;
        want(vars.contains(&x) || !depends(t, v), "referenced variables incomplete")?;
        want((e.degree_of_variable(&x) > 0) == vars.contains(&x), "degree_of_variable zero iff absent")?;
        if let Some((c, rest)) = e.try_extract_affine_var(x) {
            let tr = table(&rest);
            want(!rest.referenced_unknown_variables().any(|r| *r == x), "extracted variable remains")?;
            want(add(&mul(&konst(c.val() as u8), &vtab(v)), &tr) == *t, "try_extract_affine_var")?;
        }
        if e.is_affine() {
            let k = e.coefficient_of_variable_in_affine_part(&x).map_or(0, |c| c.val() as u8);
            let w = 5usize.pow(v as u32);
            want((t[w] + 5 - t[0]) % 5 == k, "coefficient in affine part")?;
        }
    }
    want(e.degree() == 0 || !vars.is_empty(), "degree without variables")?;
    if let Some((l, r)) = e.try_as_single_product() {
        want(mul(&table(l), &table(r)) == *t, "try_as_single_product")?;
    }
    let factors = e.to_factors();
    let prod = factors.iter().fold(konst(1), |p, f| mul(&p, &table(f)));
    want((1..5).any(|c| mul(&konst(c), &prod) == *t), "to_factors")?;
    if let Some((h, tl)) = e.clone().try_split_head_tail() {
        want(add(&table(&h), &table(&tl)) == *t, "try_split_head_tail")?;
    } else {
        want(e.try_to_known().is_some(), "try_split_head_tail refused")?;
    }
    let sum = e
        .clone()
        .into_summands()
        .map(E::from)
        .fold(konst(0), |s, x| add(&s, &table(&x)));
    want(sum == *t, "into_summands")?;
    for rc in rcs {
        let r = e.range_constraint(rc);
        for (i, x) in t.iter().enumerate() {
            let inside = (0..N).all(|v| {
                rc.get(&Var(v as u32)).is_none_or(|c| allowed(c).contains(&T::new(digit(i, v) as i64)))
            });
            if inside && !allowed(&r).contains(&T::new(*x as i64)) {
                return Err(format!("range {r} excludes value {x} (ranges {rc:?})"));
            }
        }
    }
    let shown = e.to_string();
    match parse(&shown) {
        Ok(p) => want(p == *t, &format!("printed as {shown}"))?,
        Err(m) => return Err(format!("printed as {shown}: {m}")),
    }
    let js = serde_json::to_value(e).map_err(|m| m.to_string())?;
    match of_json(&js) {
        Ok(p) => want(p == *t, &format!("serialised as {js}"))?,
        Err(m) => return Err(format!("serialised as {js}: {m}")),
    }
    let moved = e.transform_var_type(&mut |v| Var((v.0 + 1) % N as u32));
    let mt = table(&moved);
    want(
        (0..SIZE).all(|i| {
            // moved(x,y,z) = e(with var v read from v+1)
            let j = (0..N).map(|v| digit(i, (v + 1) % N) as usize * 5usize.pow(v as u32)).sum::<usize>();
            mt[i] == t[j]
        }),
        "transform_var_type",
    )?;
    want(e.try_transform_var_type(&mut |v| (v.0 != 0).then_some(*v)).is_some() == !vars.contains(&Var(0)), "try_transform_var_type")?;
    Ok(())
}

fn concrete(c: &std::sync::Arc<Check>) {
    let mut rcs: Vec<HashMap<Var, RC<P, NB>>> = vec![HashMap::new()];
    let r = |lo: i64, hi: i64| RC::from_range(T::new(lo), T::new(hi));
    for (a, b, d) in [
        (r(0, 1), r(0, 1), r(0, 1)),
        (r(-1, 1), r(0, 2), r(2, 2)),
        (r(1, 2), r(-1, 0), r(0, 1)),
        (r(-1, -1), r(-2, -1), r(1, 3)),
    ] {
        rcs.push([(Var(0), a), (Var(1), b), (Var(2), d)].into_iter().collect());
    }
    rcs.push([(Var(0), RC::from_mask(2u64)), (Var(1), RC::from_mask(1u64))].into_iter().collect());

    let atoms: Vec<(E, Tab)> = vec![
        (E::zero(), konst(0)),
        (E::one(), konst(1)),
        (num(2), konst(2)),
        (num(-1), konst(4)),
        (var(0), vtab(0)),
        (var(1), vtab(1)),
        (var(2), vtab(2)),
    ];
    let mut levels: Vec<Vec<(E, Tab)>> = vec![atoms.clone()];
    let mut seen: HashSet<E> = atoms.iter().map(|a| a.0.clone()).collect();
    let depth = 2;
    for lvl in 0..=depth {
        let pool: Vec<(E, Tab)> = if lvl < depth {
            levels.iter().flatten().cloned().collect()
        } else {
            levels[depth].clone()
        };
        // Binary operations between everything known (on the last level: with the atoms
        // and level one).
        let partners: Vec<(E, Tab)> = match lvl {
            0 | 1 => pool.clone(),
            _ => {
                let mut v = atoms.clone();
                v.extend(levels[1].iter().cloned());
                v
            }
        };
        let keep = lvl < depth;
        let results: Vec<HashMap<E, Tab>> = pool
            .par_iter()
            .map(|(e, t)| {
                let mut fresh = HashMap::new();
                if c.violated() {
                    return fresh;
                }
                let shown = e.to_string();
                let (mut ev, mut nt) = (0, 0);
                let res = c.run(move || shown.clone(), || -> Result<(), String> {
                    let mut put = |r: E, want: Tab, what: &dyn Fn() -> String| -> Result<(), String> {
                        ev += 1;
                        if r.is_quadratic() {
                            nt += 1;
                        }
                        if table(&r) != want {
                            return Err(format!("{} = {r}", what()));
                        }
                        if keep {
                            fresh.insert(r, want);
                        }
                        Ok(())
                    };
                    for (f, u) in &partners {
                        put(e.clone() + f.clone(), add(t, u), &|| format!("({e}) + ({f})"))?;
                        put(e - f, sub(t, u), &|| format!("({e}) - ({f})"))?;
                        put(e.clone() * f.clone(), mul(t, u), &|| format!("({e}) * ({f})"))?;
                    }
                    put(-e, sub(&konst(0), t), &|| format!("-({e})"))?;
                    for k in 0..5u8 {
                        put(e.clone() * T::new(k as i64), mul(t, &konst(k)), &|| format!("({e}) * {k}"))?;
                        for v in 0..N {
                            let x = Var(v as u32);
                            let mut s = e.clone();
                            s.substitute_simple(&x, T::new(k as i64));
                            put(s, subst(t, v, &konst(k)), &|| format!("({e}) with {x} := {k} (simple)"))?;
                            let mut s = e.clone();
                            s.substitute_by_known(&x, &T::new(k as i64));
                            put(s, subst(t, v, &konst(k)), &|| format!("({e}) with {x} := {k} (known)"))?;
                        }
                    }
                    for (k0, k1) in [(0, 1), (1, 1), (2, 3), (4, 0)] {
                        let m: BTreeMap<Var, T> = [(Var(0), T::new(k0)), (Var(2), T::new(k1))].into_iter().collect();
                        let w = subst(&subst(t, 0, &konst(k0 as u8)), 2, &konst(k1 as u8));
                        put(e.clone().substitute_by_known_multi(&m), w, &|| format!("({e}) with {m:?}"))?;
                    }
                    for (f, u) in &partners {
                        for v in 0..N {
                            let x = Var(v as u32);
                            let mut s = e.clone();
                            s.substitute_by_unknown(&x, f);
                            let w = subst(t, v, u);
                            let gone = f.referenced_unknown_variables().any(|r| *r == x)
                                || !s.referenced_unknown_variables().any(|r| *r == x);
                            if !gone {
                                return Err(format!("({e}) with {x} := {f} still mentions {x}: {s}"));
                            }
                            put(s, w, &|| format!("({e}) with {x} := {f}"))?;
                        }
                    }
                    if lvl < depth || thorough() {
                        let s: E = [e.clone(), e.clone(), -e].into_iter().sum();
                        put(s, *t, &|| format!("sum of ({e}), ({e}), -({e})"))?;
                    }
                    local_checks(e, t, &rcs).map_err(|m| format!("{e}: {m}"))
                });
                c.eval(ev + 1);
                c.transitions(ev);
                c.nontrivial(nt);
                match res {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => c.violation("expression", m),
                    Err(m) => c.violation("panic", format!("{e}: {m}")),
                }
                fresh
            })
            .collect();
        c.states(pool.len() as u64);
        let mut next: Vec<(E, Tab)> = vec![];
        if keep {
            let mut all: BTreeMap<E, Tab> = BTreeMap::new();
            for m in results {
                all.extend(m);
            }
            for (e, t) in all {
                if seen.insert(e.clone()) {
                    next.push((e, t));
                }
            }
        }
        c.count(&format!("expressions_level_{lvl}"), pool.len() as u64);
        if let Some((e, t)) = next.get(next.len() / 2) {
            c.sample(json!({"expression": e.to_string(), "value at (1,2,3)": t[1 + 10 + 75]}));
        }
        if !keep || c.violated() {
            break;
        }
        let cap = tier(9000, 120_000);
        if lvl + 1 == depth && next.len() > cap {
            // Deepest level: an evenly spaced subset of the sorted list.
            let k = next.len().div_ceil(cap);
            c.note(format!("level {}: every {k}th of {} expressions", lvl + 1, next.len()));
            next = next.into_iter().step_by(k).collect();
        }
        levels.push(next);
    }

    // Long sums: cancellation is only searched below a size limit, which must not matter.
    let prods: Vec<(E, Tab)> = levels[1].iter().filter(|(e, _)| e.is_quadratic()).take(6).cloned().collect();
    for n in [18usize, 19, 20, 21, 22, 40] {
        for (e, t) in &prods {
            let r = c.run(move || format!("long sum {n}"), || {
                let (mut s, mut st) = (E::zero(), konst(0));
                for i in 0..n {
                    let (f, ft) = &levels[1][(i * 7) % levels[1].len()];
                    let (g, gt) = &prods[i % prods.len()];
                    s = s + f.clone() * g.clone();
                    st = add(&st, &mul(ft, gt));
                }
                s = s + e.clone() - e.clone();
                let _ = t;
                let ok = table(&s) == st;
                let mut s2 = s.clone();
                s2.substitute_by_known(&Var(0), &T::new(1));
                let ok2 = table(&s2) == subst(&st, 0, &konst(1));
                s.substitute_by_unknown(&Var(1), &(var(0) + num(1)));
                let ok3 = table(&s) == subst(&st, 1, &add(&vtab(0), &konst(1)));
                ok && ok2 && ok3
            });
            c.eval(3);
            if r != Ok(true) {
                c.violation("long_sum", format!("sum of {n} products: {r:?}"));
            }
        }
    }
}

// ---- runtime-symbolic constants ----

type S = SymbolicExpression<T, Var>;
const UNDEF: u8 = 255;
/// Values over all assignments of the three symbols that respect their ranges.
type STab = Vec<u8>;

struct Sym {
    /// symbol values per point
    points: Vec<[u8; 3]>,
    rcs: [RC<P, NB>; 3],
}

fn stable(s: &S, y: &Sym) -> STab {
    match s {
        S::Concrete(n) => vec![n.val() as u8; y.points.len()],
        S::Symbol(v, _) => y.points.iter().map(|p| p[v.0 as usize]).collect(),
        S::BinaryOperation(l, op, r, _) => {
            use powdr_constraint_solver::symbolic_expression::BinaryOperator::*;
            let (l, r) = (stable(l, y), stable(r, y));
            l.iter().zip(&r).map(|(a, b)| sop(*a, *b, match op { Add => 0, Sub => 1, Mul => 2, Div => 3 })).collect()
        }
        S::UnaryOperation(_, e, _) => stable(e, y).iter().map(|a| sop(0, *a, 1)).collect(),
    }
}
fn sop(a: u8, b: u8, op: usize) -> u8 {
    if a == UNDEF || b == UNDEF {
        return UNDEF;
    }
    match op {
        0 => (a + b) % 5,
        1 => (a + 5 - b) % 5,
        2 => a * b % 5,
        _ if b == 0 => UNDEF,
        _ => a * [0, 1, 3, 2, 4][b as usize] % 5,
    }
}
fn agree(got: &STab, want: &STab) -> bool {
    got.iter().zip(want).all(|(g, w)| *w == UNDEF || g == w)
}
/// All range annotations inside the expression must hold where it is defined.
fn annotations_hold(s: &S, y: &Sym) -> bool {
    let a = allowed(&s.range_constraint());
    let t = stable(s, y);
    let here = t.iter().all(|x| *x == UNDEF || a.contains(&T::new(*x as i64)));
    here && match s {
        S::BinaryOperation(l, _, r, _) => annotations_hold(l, y) && annotations_hold(r, y),
        S::UnaryOperation(_, e, _) => annotations_hold(e, y),
        _ => true,
    }
}

fn symbolic(c: &std::sync::Arc<Check>, rcs: [RC<P, NB>; 3], cap: usize) {
    let points: Vec<[u8; 3]> = tuples(5, 3)
        .map(|t| [t[0] as u8, t[1] as u8, t[2] as u8])
        .filter(|p| (0..3).all(|i| allowed(&rcs[i]).contains(&T::new(p[i] as i64))))
        .collect();
    let y = Sym { points, rcs };
    let sym = |i: usize| S::from_symbol(Var(i as u32), y.rcs[i]);
    let k = |v: i64| S::from(T::new(v));
    let atoms: Vec<S> = vec![k(0), k(1), k(2), k(-1), sym(0), sym(1), sym(2)];
    let mut levels: Vec<Vec<S>> = vec![atoms.clone()];
    let mut seen: HashSet<String> = HashSet::new();
    for lvl in 0..3 {
        let pool: Vec<S> = if lvl < 2 { levels.iter().flatten().cloned().collect() } else { levels[2].clone() };
        let partners: Vec<S> = if lvl < 2 { pool.clone() } else { atoms.clone() };
        let keep = lvl < 2;
        let outs: Vec<Vec<S>> = pool
            .par_iter()
            .map(|e| {
                let mut fresh: Vec<S> = vec![];
                if c.violated() {
                    return fresh;
                }
                let (mut ev, mut nt) = (0, 0);
                let shown = e.to_string();
                let r = c.run(move || shown.clone(), || -> Result<(), String> {
                    let te = stable(e, &y);
                    if !annotations_hold(e, &y) {
                        return Err(format!("{e}: a range annotation excludes a possible value"));
                    }
                    let mut put = |r: S, want: STab, what: &dyn Fn() -> String| -> Result<(), String> {
                        ev += 1;
                        if r.try_to_number().is_none() {
                            nt += 1;
                        }
                        if !agree(&stable(&r, &y), &want) {
                            return Err(format!("{} = {r}", what()));
                        }
                        if !annotations_hold(&r, &y) {
                            return Err(format!("{} = {r} with range {}", what(), r.range_constraint()));
                        }
                        let d: Vec<u8> = want.iter().copied().filter(|x| *x != UNDEF).collect();
                        if d.is_empty() {
                            return Ok(()); // a division by zero everywhere: no value to preserve
                        }
                        let all = |v: u8| d.iter().all(|x| *x == v);
                        if (r.is_known_zero() || r.is_zero()) && !all(0)
                            || (r.is_known_one() || r.is_one()) && !all(1)
                            || r.is_known_minus_one() && !all(4)
                            || r.is_known_nonzero() && d.contains(&0)
                        {
                            return Err(format!("{} = {r}: wrong zero/one test", what()));
                        }
                        // Making every symbol an unknown must not change the value.
                        if let Some(g) = r.try_to_expression(&|n| E::from_number(*n), &|v| var(v.0), &|g: &E| g.try_to_number()) {
                            let g: STab = y
                                .points
                                .iter()
                                .map(|p| eval(&g, &[T::new(p[0] as i64), T::new(p[1] as i64), T::new(p[2] as i64)]).val() as u8)
                                .collect();
                            if !agree(&g, &want) {
                                return Err(format!("{} as an expression of unknowns", what()));
                            }
                        }
                        if keep {
                            fresh.push(r);
                        }
                        Ok(())
                    };
                    let zip = |f: &STab, op| -> STab { te.iter().zip(f).map(|(a, b)| sop(*a, *b, op)).collect() };
                    for f in &partners {
                        let tf = stable(f, &y);
                        put(e + f, zip(&tf, 0), &|| format!("({e}) + ({f})"))?;
                        put(e - f, zip(&tf, 1), &|| format!("({e}) - ({f})"))?;
                        put(e * f, zip(&tf, 2), &|| format!("({e}) * ({f})"))?;
                        let mut g = e.clone();
                        g += f.clone();
                        put(g, zip(&tf, 0), &|| format!("({e}) += ({f})"))?;
                        let mut g = e.clone();
                        g *= f.clone();
                        put(g, zip(&tf, 2), &|| format!("({e}) *= ({f})"))?;
                        if !f.is_known_zero() && !tf.iter().all(|x| *x == 0 || *x == UNDEF) {
                            put(e.field_div(f), zip(&tf, 3), &|| format!("({e}) / ({f})"))?;
                        }
                    }
                    put(-e, te.iter().map(|a| sop(0, *a, 1)).collect(), &|| format!("-({e})"))?;
                    if !e.is_known_zero() && !te.iter().all(|x| *x == 0) {
                        put(e.field_inverse(), te.iter().map(|a| sop(1, *a, 3)).collect(), &|| format!("1 / ({e})"))?;
                    }
                    // Substitution of a symbol by another known value inside its range.
                    for (v, f) in (0..3).flat_map(|v| atoms.iter().map(move |f| (v, f))) {
                        let tf = stable(f, &y);
                        let a = allowed(&y.rcs[v]);
                        if tf.iter().any(|x| !a.contains(&T::new(*x as i64))) {
                            continue;
                        }
                        let mut s = e.clone();
                        if let Err(m) = quiet_catch(|| s.substitute(&Var(v as u32), f)) {
                            // Division by zero has no value: only then may it refuse.
                            let divides = e.all_children().any(|ch| match ch {
                                S::BinaryOperation(_, powdr_constraint_solver::symbolic_expression::BinaryOperator::Div, d, _) => {
                                    let td = stable(d, &y);
                                    y.points.iter().zip(&tf).any(|(p, x)| {
                                        let mut q = *p;
                                        q[v] = *x;
                                        let d = td[y.points.iter().position(|r| *r == q).unwrap()];
                                        d == 0 || d == UNDEF
                                    })
                                }
                                _ => false,
                            });
                            if divides {
                                continue;
                            }
                            return Err(format!("({e}) with {} := {f}: {m}", Var(v as u32)));
                        }
                        let want: STab = y
                            .points
                            .iter()
                            .zip(&tf)
                            .map(|(p, x)| {
                                let mut q = *p;
                                q[v] = *x;
                                te[y.points.iter().position(|r| *r == q).unwrap()]
                            })
                            .collect();
                        put(s, want, &|| format!("({e}) with {} := {f}", Var(v as u32)))?;
                    }
                    let moved: S = e.transform_var_type(&mut |v| *v);
                    if moved != *e {
                        return Err(format!("{e} changed by the identity renaming"));
                    }
                    Ok(())
                });
                c.eval(ev);
                c.transitions(ev);
                c.nontrivial(nt);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => c.violation("symbolic", m),
                    Err(m) => c.violation("panic", format!("{e}: {m}")),
                }
                fresh
            })
            .collect();
        c.states(pool.len() as u64);
        if !keep || c.violated() {
            break;
        }
        let mut next: Vec<(String, S)> = outs.into_iter().flatten().map(|s| (format!("{s:?}"), s)).collect();
        next.sort_by(|a, b| a.0.cmp(&b.0));
        next.dedup_by(|a, b| a.0 == b.0);
        next.retain(|(d, _)| seen.insert(d.clone()));
        if next.len() > cap {
            let st = next.len().div_ceil(cap);
            c.note(format!("symbolic level {}: every {st}th of {}", lvl + 1, next.len()));
            next = next.into_iter().step_by(st).collect();
        }
        c.count("symbolic_expressions", next.len() as u64);
        levels.push(next.into_iter().map(|x| x.1).collect());
    }
}

/// Grouped expressions whose coefficients are runtime-symbolic.
fn mixed(c: &std::sync::Arc<Check>) {
    type G = GroupedExpression<S, Var>;
    // unknowns x (0), y (1); symbol w (2) in {1,2}, u (3) unconstrained
    let rcw = RC::from_range(T::new(1), T::new(2));
    let pts: Vec<[u8; 4]> = tuples(5, 4)
        .map(|t| [t[0] as u8, t[1] as u8, t[2] as u8, t[3] as u8])
        .filter(|p| p[2] == 1 || p[2] == 2)
        .collect();
    fn se(s: &S, p: &[u8; 4]) -> u8 {
        match s {
            S::Concrete(n) => n.val() as u8,
            S::Symbol(v, _) => p[v.0 as usize],
            S::BinaryOperation(l, op, r, _) => {
                use powdr_constraint_solver::symbolic_expression::BinaryOperator::*;
                sop(se(l, p), se(r, p), match op { Add => 0, Sub => 1, Mul => 2, Div => 3 })
            }
            S::UnaryOperation(_, e, _) => sop(0, se(e, p), 1),
        }
    }
    fn ge(g: &G, p: &[u8; 4]) -> u8 {
        let mut r = se(g.constant_offset(), p);
        for (v, k) in g.linear_components() {
            r = sop(r, sop(se(k, p), p[v.0 as usize], 2), 0);
        }
        for (a, b) in g.quadratic_components() {
            r = sop(r, sop(ge(a, p), ge(b, p), 2), 0);
        }
        r
    }
    let tab = |g: &G| -> Vec<u8> { pts.iter().map(|p| ge(g, p)).collect() };
    let w = S::from_symbol(Var(2), rcw);
    let u = S::from_symbol(Var(3), RC::unconstrained());
    let atoms: Vec<G> = vec![
        G::zero(),
        G::one(),
        G::from_number(T::new(-1)),
        var(0),
        var(1),
        G::from_runtime_constant(w.clone()),
        G::from_runtime_constant(u.clone()),
    ];
    let mut pool = atoms.clone();
    let mut seen: HashSet<String> = pool.iter().map(|g| format!("{g:?}")).collect();
    for lvl in 0..2 {
        let cur = pool.clone();
        let outs: Vec<Vec<G>> = cur
            .par_iter()
            .map(|e| {
                let mut fresh = vec![];
                if c.violated() {
                    return fresh;
                }
                let te = tab(e);
                let mut ev = 0;
                let shown = e.to_string();
                let r = c.run(move || shown.clone(), || -> Result<(), String> {
                    let mut put = |g: G, want: Vec<u8>, what: &dyn Fn() -> String| -> Result<(), String> {
                        ev += 1;
                        if tab(&g) != want {
                            return Err(format!("{} = {g}", what()));
                        }
                        fresh.push(g);
                        Ok(())
                    };
                    let zip = |f: &Vec<u8>, op| -> Vec<u8> { te.iter().zip(f).map(|(a, b)| sop(*a, *b, op)).collect() };
                    for f in &cur {
                        let tf = tab(f);
                        put(e.clone() + f.clone(), zip(&tf, 0), &|| format!("({e}) + ({f})"))?;
                        put(e - f, zip(&tf, 1), &|| format!("({e}) - ({f})"))?;
                        put(e.clone() * f.clone(), zip(&tf, 2), &|| format!("({e}) * ({f})"))?;
                        if lvl == 0 || f.try_to_known().is_some() || f.is_affine() {
                            for v in 0..2u32 {
                                let mut s = e.clone();
                                s.substitute_by_unknown(&Var(v), f);
                                let want: Vec<u8> = pts.iter().zip(&tf).map(|(p, x)| { let mut q = *p; q[v as usize] = *x; ge(e, &q) }).collect();
                                put(s, want, &|| format!("({e}) with {} := {f}", Var(v)))?;
                            }
                        }
                        if let Some(k) = f.try_to_known() {
                            for v in 0..3u32 {
                                if v == 2 && tf.iter().any(|x| *x != 1 && *x != 2) {
                                    continue;
                                }
                                let mut s = e.clone();
                                s.substitute_by_known(&Var(v), k);
                                let want: Vec<u8> = pts.iter().zip(&tf).map(|(p, x)| { let mut q = *p; q[v as usize] = *x; ge(e, &q) }).collect();
                                put(s, want, &|| format!("({e}) with {} := {f} (known)", Var(v)))?;
                            }
                        }
                    }
                    let rc = e.range_constraint(&powdr_constraint_solver::grouped_expression::NoRangeConstraints);
                    if te.iter().any(|x| !allowed(&rc).contains(&T::new(*x as i64))) {
                        return Err(format!("{e} has range {rc}"));
                    }
                    if (e.is_zero() && te.iter().any(|x| *x != 0)) || (e.is_one() && te.iter().any(|x| *x != 1)) {
                        return Err(format!("{e}: is_zero/is_one"));
                    }
                    let s = e.clone().into_summands().map(|s: GroupedExpressionComponent<S, Var>| tab(&G::from(s))).fold(vec![0; pts.len()], |a, b| a.iter().zip(&b).map(|(x, y)| (x + y) % 5).collect());
                    if s != te {
                        return Err(format!("{e}: into_summands"));
                    }
                    Ok(())
                });
                c.eval(ev);
                c.transitions(ev);
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(m)) => c.violation("mixed", m),
                    Err(m) => c.violation("panic", format!("{e}: {m}")),
                }
                fresh
            })
            .collect();
        c.states(cur.len() as u64);
        if lvl == 0 {
            let mut next: Vec<(String, G)> = outs.into_iter().flatten().map(|g| (format!("{g:?}"), g)).collect();
            next.sort_by(|a, b| a.0.cmp(&b.0));
            next.dedup_by(|a, b| a.0 == b.0);
            for (d, g) in next {
                if seen.insert(d) {
                    pool.push(g);
                }
            }
            c.count("mixed_expressions", pool.len() as u64);
        }
    }
}

fn main() {
    let c = Check::new(
        "C04",
        "model_checking",
        "breadth-first search over operation sequences on expressions of 3 unknowns over GF(5) (and of 3 runtime symbols), comparing each result with the function it must denote on all assignments; non-trivial: the result is quadratic, or symbolic",
        &["two expressions are compared as functions on the tiny field, not as formal polynomials"],
    );
    assert_eq!(T::modulus().0, 5);
    concrete(&c);
    let un = RC::unconstrained;
    let r = |lo, hi| RC::from_range(T::new(lo), T::new(hi));
    symbolic(&c, [r(1, 2), un(), r(0, 1)], tier(600, 6000));
    symbolic(&c, [r(-1, 1), r(2, 4), RC::from_mask(2u64)], tier(300, 6000));
    mixed(&c);
    c.finish()
}
