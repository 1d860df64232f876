//! C05: solving one constraint or one bus interaction never excludes a solution.
//!
//! Every constraint of a family x every combination of variable ranges from an
//! alphabet; the reported effects, errors and completeness are compared with the
//! exact solution set, computed point by point.
use mc_core::*;
use mc_cs::*;
use mc_field::Tiny;
use powdr_constraint_solver::algebraic_constraint::solve::ProcessResult;
use powdr_constraint_solver::constraint_system::{AlgebraicConstraint, BusInteraction};
use powdr_constraint_solver::effect::Effect;
use powdr_constraint_solver::grouped_expression::GroupedExpression;
use rayon::prelude::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;

struct Ranges<const P: u32, const NB: usize> {
    /// The ranges as the solver sees them, with the points they allow.
    list: Vec<(HashMap<Var, RC<P, NB>>, Bits)>,
}

fn ranges<const P: u32, const NB: usize>(sp: &Space, alphabet: &[RC<P, NB>]) -> Ranges<P, NB> {
    let list = tuples(alphabet.len(), sp.n)
        .map(|t| {
            let rcs: Vec<RC<P, NB>> = t.iter().map(|i| alphabet[*i]).collect();
            let m = rcs
                .iter()
                .enumerate()
                .filter(|(_, r)| !r.is_unconstrained())
                .map(|(i, r)| (Var(i as u32), *r))
                .collect();
            (m, sp.boxed(&rcs))
        })
        .collect();
    Ranges { list }
}

fn effect_points<const P: u32, const NB: usize>(sp: &Space, e: &Effect<Tiny<P, NB>, Var>) -> Bits {
    match e {
        Effect::Assignment(v, x) => sp.by[v.0 as usize][x.val() as usize].clone(),
        Effect::RangeConstraint(v, rc) => sp.within(v.0 as usize, rc),
        Effect::Assertion(a) => {
            if (a.lhs == a.rhs) == a.expected_equal {
                sp.all()
            } else {
                sp.none()
            }
        }
        Effect::ConditionalAssignment { variable, condition, in_range_value, out_of_range_value } => {
            let x = if allowed(&condition.condition).contains(&condition.value) {
                in_range_value
            } else {
                out_of_range_value
            };
            sp.by[variable.0 as usize][x.val() as usize].clone()
        }
    }
}

fn effects_text<const P: u32, const NB: usize>(e: &[Effect<Tiny<P, NB>, Var>]) -> String {
    e.iter()
        .map(|e| match e {
            Effect::Assignment(v, x) => format!("{v} = {x}"),
            Effect::RangeConstraint(v, rc) => format!("{v}: {rc}"),
            Effect::Assertion(a) => format!("assert {} {} {}", a.lhs, a.expected_equal, a.rhs),
            Effect::ConditionalAssignment { variable, in_range_value, out_of_range_value, .. } => {
                format!("{variable} = {in_range_value} or {out_of_range_value}")
            }
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// Ok(true) if the result said something.
fn judge<const P: u32, const NB: usize>(
    sp: &Space,
    solutions: &Bits,
    inside: &Bits,
    r: Result<ProcessResult<Tiny<P, NB>, Var>, String>,
) -> Result<bool, String> {
    let live = solutions.and(inside);
    match r {
        Err(m) => match live.first() {
            Some(i) => Err(format!("reported unsatisfiable ({m}) but {} is a solution", sp.show(i))),
            None => Ok(true),
        },
        Ok(r) => {
            let mut all = inside.clone();
            for e in &r.effects {
                let pts = effect_points(sp, e);
                if let Some(i) = live.minus(&pts).first() {
                    return Err(format!("deduced {} but {} is a solution", effects_text(&r.effects), sp.show(i)));
                }
                all = all.and(&pts);
            }
            if r.complete {
                if let Some(i) = all.minus(solutions).first() {
                    return Err(format!(
                        "called complete with [{}] but {} is no solution",
                        effects_text(&r.effects),
                        sp.show(i)
                    ));
                }
            }
            Ok(r.complete || !r.effects.is_empty())
        }
    }
}

type Item<const P: u32, const NB: usize> = (GE<P, NB>, Bits);

/// One constraint against all ranges.
fn one<const P: u32, const NB: usize>(c: &Check, sp: &Space, rs: &Ranges<P, NB>, item: &Item<P, NB>) {
    if c.violated() {
        return;
    }
    let (e, sol) = item;
    let shown = format!("{e} = 0 (mod {P})");
    let s2 = shown.clone();
    let (mut n, mut nt) = (0, 0);
    let r = c.run(move || s2.clone(), || {
        for (rc, inside) in &rs.list {
            n += 1;
            let r = AlgebraicConstraint::assert_zero(e).solve(rc).map_err(|m| format!("{m:?}"));
            match judge(sp, sol, inside, r) {
                Ok(true) => nt += 1,
                Ok(false) => {}
                Err(m) => {
                    let mut t: Vec<String> = rc.iter().map(|(v, r)| format!("{v}: {r}")).collect();
                    t.sort();
                    return Err(format!("{e} = 0 with {}: {m} (mod {P})", t.join(", ")));
                }
            }
        }
        Ok(())
    });
    c.eval(n);
    c.transitions(n);
    c.nontrivial(nt);
    match r {
        Ok(Ok(())) => {}
        Ok(Err(m)) => c.violation("solve", m),
        Err(m) => c.violation("panic", format!("{shown}: {m}")),
    }
}

fn affine<const P: u32, const NB: usize>(sp: &Space, coeffs: &[i64], consts: &[i64]) -> Vec<(GE<P, NB>, Vec<u32>)> {
    let mut out = vec![];
    for t in tuples(coeffs.len(), sp.n) {
        for k in consts {
            let mut e: GE<P, NB> = num(*k);
            for (v, i) in t.iter().enumerate() {
                e += var::<Tiny<P, NB>>(v as u32) * Tiny::new(coeffs[*i]);
            }
            let vals = (0..sp.size)
                .map(|i| {
                    let s: i64 = *k + t.iter().enumerate().map(|(v, j)| coeffs[*j] * sp.digit(i, v) as i64).sum::<i64>();
                    s.rem_euclid(P as i64) as u32
                })
                .collect();
            out.push((e, vals));
        }
    }
    out
}

fn rc_alphabet<const P: u32, const NB: usize>(small: bool) -> Vec<RC<P, NB>> {
    let r = |a: i64, b: i64| RC::from_range(Tiny::new(a), Tiny::new(b));
    let mut v = vec![
        RC::unconstrained(),
        r(0, 1),
        r(-1, 1),
        RC::from_mask(2u64),
        r(1, 2),
    ];
    if !small {
        v.extend([
            r(0, 3),
            RC::from_mask(5u64),
            r(0, 2),
            r(-2, -1),
            RC::from_value(Tiny::new(3)),
            r(2, 0),
        ]);
    }
    v
}

/// All distinct ranges of a tiny field: every interval with every mask.
fn all_ranges<const P: u32, const NB: usize>() -> Vec<RC<P, NB>> {
    let mut seen = HashSet::new();
    let mut out = vec![];
    for a in 0..P as i64 {
        for b in 0..P as i64 {
            for m in 0..(1u64 << NB) {
                let r = RC::from_range(Tiny::new(a), Tiny::new(b)).conjunction(&RC::from_mask(m));
                if seen.insert(format!("{r:?}")) {
                    out.push(r);
                }
            }
        }
    }
    out
}

fn field<const P: u32, const NB: usize>(c: &Arc<Check>, heavy: bool) {
    let all: Vec<i64> = (0..P as i64).collect();
    let few: Vec<i64> = vec![0, 1, 2, -1];
    let sol = |vals: &Vec<u32>, sp: &Space| Bits::from_fn(sp.size, |i| vals[i] == 0);

    // Affine constraints: all coefficients.
    let sp1 = Space::new(P as usize, 1);
    let sp2 = Space::new(P as usize, 2);
    let sp3 = Space::new(P as usize, 3);
    let every = all_ranges::<P, NB>();
    c.count("range_constraints", every.len() as u64);
    let rs1 = ranges(&sp1, &every);
    let mut a1: Vec<Item<P, NB>> = affine(&sp1, &all, &all).into_iter().map(|(e, v)| (e, sol(&v, &sp1))).collect();
    // ... products of two and three factors in one variable
    let lin = affine::<P, NB>(&sp1, &all, &all);
    let mut quads = vec![];
    for (e, v) in &lin {
        for (f, w) in &lin {
            let u: Vec<u32> = v.iter().zip(w).map(|(a, b)| a * b % P).collect();
            quads.push((e.clone() * f.clone(), u));
        }
    }
    for (e, v) in &quads {
        a1.push((e.clone(), sol(v, &sp1)));
    }
    for (q, v) in quads.iter().step_by(tier(if heavy { 2 } else { 7 }, 1)) {
        for (f, w) in lin.iter().step_by(3) {
            let u: Vec<u32> = v.iter().zip(w).map(|(a, b)| a * b % P).collect();
            a1.push((q.clone() * f.clone(), sol(&u, &sp1)));
            let u: Vec<u32> = v.iter().zip(w).map(|(a, b)| (a + b) % P).collect();
            a1.push((q.clone() + f.clone(), sol(&u, &sp1)));
        }
    }
    a1.sort_by(|a, b| a.0.cmp(&b.0));
    a1.dedup();
    c.states(a1.len() as u64);
    c.count("constraints_1_variable", a1.len() as u64);
    let every_few = ranges(&sp1, &every.iter().copied().step_by(tier(if heavy { 5 } else { 11 }, 1)).collect::<Vec<_>>());
    a1.par_iter().for_each(|i| one(c, &sp1, if i.0.is_affine() { &rs1 } else { &every_few }, i));

    let wide = ranges(&sp2, &rc_alphabet::<P, NB>(false));
    let wide3 = ranges(&sp3, &rc_alphabet::<P, NB>(!heavy));
    let narrow2 = ranges(&sp2, &rc_alphabet::<P, NB>(true));
    let a2 = affine::<P, NB>(&sp2, &all, &all);
    let a2i: Vec<Item<P, NB>> = a2.iter().map(|(e, v)| (e.clone(), sol(v, &sp2))).collect();
    a2i.par_iter().for_each(|i| one(c, &sp2, &wide, i));
    c.states(a2i.len() as u64);
    if thorough() {
        let everything = ranges(&sp2, &every);
        a2i.par_iter().for_each(|i| one(c, &sp2, &everything, i));
    }
    let a3 = affine::<P, NB>(&sp3, if heavy { &all } else { &few }, &all);
    let a3i: Vec<Item<P, NB>> = a3.iter().map(|(e, v)| (e.clone(), sol(v, &sp3))).collect();
    a3i.par_iter().for_each(|i| one(c, &sp3, &wide3, i));
    c.states(a3i.len() as u64);

    // Products of two affine factors in two variables, and sums that are no single product.
    let b2 = if heavy { a2.clone() } else { affine::<P, NB>(&sp2, &few, &few) };
    b2.par_iter().for_each(|(e, v)| {
        for (f, w) in &b2 {
            let u: Vec<u32> = v.iter().zip(w).map(|(a, b)| a * b % P).collect();
            one(c, &sp2, if heavy && !thorough() { &narrow2 } else { &wide }, &(e.clone() * f.clone(), sol(&u, &sp2)));
        }
    });
    c.states((b2.len() * b2.len()) as u64);
    let small = affine::<P, NB>(&sp2, &[0, 1, -1], &[0, 1]);
    small.par_iter().for_each(|(e, v)| {
        for (f, w) in &small {
            for (g, x) in &small {
                let z = |op: &dyn Fn(u32, u32, u32) -> u32| -> Vec<u32> { (0..sp2.size).map(|i| op(v[i], w[i], x[i]) % P).collect() };
                one(c, &sp2, &narrow2, &(e.clone() * f.clone() + g.clone(), sol(&z(&|a, b, c| a * b + c), &sp2)));
                one(c, &sp2, &narrow2, &(e.clone() * f.clone() * g.clone(), sol(&z(&|a, b, c| a * b % P * c), &sp2)));
                one(c, &sp2, &narrow2, &((e.clone() * f.clone() + num(1)) * g.clone(), sol(&z(&|a, b, c| (a * b + 1) % P * c), &sp2)));
            }
        }
    });
    c.states(3 * (small.len() as u64).pow(3));
    if let Some((e, _)) = b2.get(b2.len() / 2) {
        c.sample(json!({"modulus": P, "constraint": format!("({e}) * ({}) = 0", b2[b2.len() / 3].0), "ranges": rc_alphabet::<P, NB>(false).iter().map(|r| r.to_string()).collect::<Vec<_>>()}));
    }

    // Rewriting: solving for a variable, or for an expression.
    let mut exprs: Vec<(GE<P, NB>, Vec<u32>)> = affine::<P, NB>(&sp3, &few, &few);
    exprs.extend(small.iter().flat_map(|(e, v)| {
        small.iter().map(|(f, w)| {
            let q = e.clone() * f.clone() + var(2);
            let u: Vec<u32> = (0..sp3.size).map(|i| (v[i % sp2.size] * w[i % sp2.size] + sp3.digit(i, 2) as u32) % P).collect();
            (q, u)
        })
    }));
    let targets = affine::<P, NB>(&sp3, &few, &[0, 1]);
    exprs.par_iter().for_each(|(e, v)| {
        if c.violated() {
            return;
        }
        let shown = e.to_string();
        let r = c.run(move || shown.clone(), || -> Result<(), String> {
            let k = AlgebraicConstraint::assert_zero(e);
            for x in 0..3u32 {
                c.eval(1);
                if let Some(r) = k.try_solve_for(&Var(x)) {
                    c.nontrivial(1);
                    if r.referenced_unknown_variables().any(|y| *y == Var(x)) {
                        return Err(format!("{e} = 0 solved for {}: {r}", Var(x)));
                    }
                    let w = sp3.values(&r);
                    if let Some(i) = (0..sp3.size).find(|i| (v[*i] == 0) != (w[*i] == sp3.digit(*i, x as usize) as u32)) {
                        return Err(format!("{e} = 0 solved for {}: {r}, different at {}", Var(x), sp3.show(i)));
                    }
                }
            }
            for (t, tv) in &targets {
                c.eval(1);
                if let Some(r) = k.try_solve_for_expr(t) {
                    c.nontrivial(1);
                    let w = sp3.values(&r);
                    if let Some(i) = (0..sp3.size).find(|i| (v[*i] == 0) != (w[*i] == tv[*i])) {
                        return Err(format!("{e} = 0 solved for {t}: {r}, different at {}", sp3.show(i)));
                    }
                    let tv: HashSet<&Var> = t.referenced_unknown_variables().collect();
                    if r.referenced_unknown_variables().any(|y| tv.contains(y)) {
                        return Err(format!("{e} = 0 solved for {t}: {r} still mentions its variables"));
                    }
                }
            }
            let b = AlgebraicConstraint::assert_bool(e.clone());
            let q = AlgebraicConstraint::assert_eq(e.clone(), targets[7].0.clone());
            let (bv, qv) = (sp3.values(&b.expression), sp3.values(&q.expression));
            for i in 0..sp3.size {
                if (bv[i] == 0) != (v[i] <= 1) || (qv[i] == 0) != (v[i] == targets[7].1[i]) {
                    return Err(format!("{e}: assert_bool / assert_eq wrong at {}", sp3.show(i)));
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => c.violation("solve_for", m),
            Err(m) => c.violation("panic", format!("{e}: {m}")),
        }
    });
    c.states(exprs.len() as u64);

    // Bus interactions.
    let p = P;
    let mut t: BTreeMap<u32, Vec<Vec<u32>>> = BTreeMap::new();
    t.insert(1, vec![vec![0, 0], vec![1, 0], vec![1, 1], vec![2, 1]]);
    t.insert(2, (0..p).flat_map(|a| (0..2).map(move |b| vec![a, b])).collect());
    t.insert(3, vec![vec![p - 1, 1], vec![0, 3]]);
    t.insert(0, (0..4).map(|a| vec![a, a ^ 1]).collect());
    let fields: Vec<(GE<P, NB>, Vec<u32>)> = {
        let mut f = affine::<P, NB>(&sp2, &[0, 1, 2, -1], &[0, 1]);
        f.push((var::<Tiny<P, NB>>(0) * var(1), (0..sp2.size).map(|i| (sp2.digit(i, 0) * sp2.digit(i, 1)) as u32 % P).collect()));
        f.push((num::<P, NB>(-1), vec![P - 1; sp2.size]));
        f
    };
    let mults: Vec<(GE<P, NB>, Vec<u32>)> = {
        let mut m: Vec<(GE<P, NB>, Vec<u32>)> = [1, 0, -1, 2].iter().map(|k| (num(*k), vec![k.rem_euclid(P as i64) as u32; sp2.size])).collect();
        m.push((var(0), (0..sp2.size).map(|i| sp2.digit(i, 0) as u32).collect()));
        m.push((var::<Tiny<P, NB>>(1) + num(1), (0..sp2.size).map(|i| (sp2.digit(i, 1) as u32 + 1) % P).collect()));
        m
    };
    let narrow = ranges(&sp2, &rc_alphabet::<P, NB>(!heavy));
    let strengths: &[u8] = &[1, 2];
    let handlers: Vec<Tables> = strengths.iter().map(|s| Tables::new(t.clone(), *s)).collect();
    let mut jobs = vec![];
    for id in 0..5u32 {
        for m in 0..mults.len() {
            for f in 0..fields.len() {
                jobs.push((id, m, f));
            }
        }
    }
    c.states((jobs.len() * fields.len()) as u64);
    jobs.par_iter().for_each(|&(id, m, f)| {
        for g in 0..fields.len() {
            if c.violated() {
                return;
            }
            let b: BI<P, NB> = BusInteraction {
                bus_id: GroupedExpression::from_number(Tiny::new(id as i64)),
                multiplicity: mults[m].0.clone(),
                payload: vec![fields[f].0.clone(), fields[g].0.clone()],
            };
            let sol = Bits::from_fn(sp2.size, |i| handlers[0].accepts(id, mults[m].1[i], &[fields[f].1[i], fields[g].1[i]]));
            let shown = b.to_string();
            let r = c.run(move || shown.clone(), || -> Result<(u64, u64), String> {
                let (mut n, mut nt) = (0, 0);
                for h in &handlers {
                    for (rc, inside) in &narrow.list {
                        n += 1;
                        let asrc = b.to_range_constraints(rc);
                        for (x, vals) in asrc.payload.iter().zip([&fields[f].1, &fields[g].1]).chain([(&asrc.multiplicity, &mults[m].1)]) {
                            let a = allowed(x);
                            if let Some(i) = (0..sp2.size).find(|i| inside.get(*i) && !a.contains(&Tiny::new(vals[*i] as i64))) {
                                return Err(format!("range {x} of a field with {rc:?} excludes its value at {}", sp2.show(i)));
                            }
                        }
                        let r = b
                            .solve(h, rc)
                            .map(|effects| ProcessResult { effects, complete: false })
                            .map_err(|_| "violates bus rules".to_string());
                        if judge(&sp2, &sol, inside, r).map_err(|m| format!("with {rc:?}: {m}"))? {
                            nt += 1;
                        }
                    }
                }
                Ok((n, nt))
            });
            match r {
                Ok(Ok((n, nt))) => {
                    c.eval(n);
                    c.transitions(n);
                    c.nontrivial(nt);
                }
                Ok(Err(m)) => c.violation("bus", format!("{b} {m} (mod {P})")),
                Err(m) => c.violation("panic", format!("{b}: {m}")),
            }
        }
    });
}

fn main() {
    let c = Check::new(
        "C05",
        "model_checking",
        "every constraint / bus interaction of the families x every range combination of the alphabet, effects compared with the exact solution set over all points; non-trivial: an effect, an error or completeness was reported",
        &["fields of 5, 7 and 13 elements (the solver is generic in the field)", "buses are given by explicit tables with exact range refinement"],
    );
    field::<7, 3>(&c, true);
    field::<5, 4>(&c, false);
    field::<13, 4>(&c, false);
    if thorough() {
        field::<11, 5>(&c, false);
        field::<5, 3>(&c, true);
    }
    c.finish()
}
