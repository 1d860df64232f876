//! C03: every range-constraint operation over-approximates.
//!
//! Explicit-state search. A state is one range constraint; transitions are the
//! public operations. The reachable set is closed (breadth first, to a fixpoint
//! for the tiny primes) from the public constructors, and on every state / pair
//! of states every operation is compared with the set of values it stands for.
use mc_core::*;
use mc_field::Tiny;
use powdr_constraint_solver::range_constraint::RangeConstraint as RC;
use powdr_number::{
    BabyBearField, Bn254Field, FieldElement, GoldilocksField, KoalaBearField, LargeInt,
    Mersenne31Field,
};
use rayon::prelude::*;
use serde_json::json;
use std::collections::{HashMap, HashSet};

type Set = u128;

fn set_of<const P: u32, const NB: usize>(r: &RC<Tiny<P, NB>>) -> Set {
    // Independent reading of the documented meaning of (mask, min, max).
    let m = r.mask().try_into_u64().unwrap();
    let (lo, hi) = r.range();
    let (lo, hi) = (lo.val() as u64, hi.val() as u64);
    let mut s = 0;
    for x in 0..P as u64 {
        let in_mask = x & m == x;
        let in_range = if lo <= hi {
            lo <= x && x <= hi
        } else {
            lo <= x || x <= hi
        };
        if in_mask && in_range {
            s |= 1 << x;
        }
    }
    s
}

fn image2(p: u32, a: Set, b: Set, f: impl Fn(u32, u32) -> u32) -> Set {
    let mut s = 0;
    for x in 0..p {
        if a >> x & 1 == 1 {
            for y in 0..p {
                if b >> y & 1 == 1 {
                    s |= 1 << f(x, y);
                }
            }
        }
    }
    s
}

fn members(s: Set) -> Vec<u32> {
    (0..128).filter(|x| s >> x & 1 == 1).collect()
}

struct V {
    key: String,
    what: String,
}

fn expect(out: &mut Vec<V>, ok: bool, key: &str, what: impl FnOnce() -> String) {
    if !ok {
        out.push(V {
            key: key.to_string(),
            what: what(),
        });
    }
}

fn tiny<const P: u32, const NB: usize>(c: &Check, closure_depth: usize, max_states: usize) {
    type R<const P: u32, const NB: usize> = RC<Tiny<P, NB>>;
    let p = P;
    let full: Set = (1 << P) - 1;
    let name = format!("p={P}/{NB} bits");
    let el = |v: u32| Tiny::<P, NB>::new(v as i64);
    // Constructors, which must be exact.
    let mut states: Vec<R<P, NB>> = vec![];
    let mut seen: HashSet<R<P, NB>> = HashSet::new();
    let mut outs: Vec<V> = vec![];
    let r = c.run(
        {
            let name = name.clone();
            move || format!("constructors {name}")
        },
        || {
            let mut add = |r: R<P, NB>, want: Set, what: String, outs: &mut Vec<V>| {
                c.eval(1);
                let got = set_of(&r);
                expect(outs, got == want, "constructor", || {
                    format!("{what} allows {:?}, expected {:?}", members(got), members(want))
                });
                let allowed = (0..p).filter(|x| r.allows_value(el(*x))).fold(0, |s, x| s | 1 << x);
                expect(outs, allowed == want, "allows_value", || {
                    format!("{what} accepts {:?}, expected {:?}", members(allowed), members(want))
                });
                if seen.insert(r) {
                    states.push(r);
                }
            };
            add(R::unconstrained(), full, "unconstrained".into(), &mut outs);
            for v in 0..p {
                add(R::from_value(el(v)), 1 << v, format!("{name} from_value({v})"), &mut outs);
            }
            for lo in 0..p {
                for hi in 0..p {
                    let want = (0..p)
                        .filter(|x| if lo <= hi { lo <= *x && *x <= hi } else { lo <= *x || *x <= hi })
                        .fold(0, |s, x| s | 1 << x);
                    add(
                        R::from_range(el(lo), el(hi)),
                        want,
                        format!("{name} from_range({lo},{hi})"),
                        &mut outs,
                    );
                }
            }
            for m in 0..(1u64 << NB) {
                let want = (0..p as u64).filter(|x| x & m == *x).fold(0, |s: Set, x| s | 1 << x);
                add(R::from_mask(m), want, format!("{name} from_mask({m})"), &mut outs);
            }
            for b in 0..NB {
                let want = (0..p as u64).filter(|x| x >> (b + 1) == 0).fold(0, |s: Set, x| s | 1 << x);
                add(R::from_max_bit(b), want, format!("{name} from_max_bit({b})"), &mut outs);
            }
        },
    );
    if let Err(e) = r {
        c.violation("panic", format!("{name}: constructor: {e}"));
    }
    for v in outs {
        c.violation(&v.key, v.what);
    }

    // Breadth-first closure under the operations, checking each transition.
    let mut frontier = 0; // states[..frontier] have been combined with each other
    for depth in 0..closure_depth {
        let new_from = frontier;
        let all = states.clone();
        frontier = all.len();
        let sets: Vec<Set> = all.iter().map(set_of).collect();
        let results: Vec<(Vec<V>, HashSet<R<P, NB>>, u64, u64)> = (0..all.len())
            .into_par_iter()
            .map(|i| {
                let mut bad = vec![];
                let mut fresh = HashSet::new();
                let (mut evals, mut nontrivial) = (0u64, 0u64);
                if c.violated() {
                    return (bad, fresh, 0, 0);
                }
                let a = all[i];
                let sa = sets[i];
                let n2 = name.clone();
                let r = c.run(move || format!("{n2}: {a}"), || {
                    if i >= new_from {
                        unary(p, a, sa, &name, &mut bad, &mut fresh, &mut evals);
                    }
                    let j0 = if i >= new_from { 0 } else { new_from };
                    for j in j0..all.len() {
                        let (b, sb) = (all[j], sets[j]);
                        evals += 5;
                        if sa != full && sb != full && sa.count_ones() > 1 && sb.count_ones() > 1 {
                            nontrivial += 5;
                        }
                        let pr = || format!("{name}: {a} = {:?} and {b} = {:?}", members(sa), members(sb));
                        let s = a.combine_sum(&b);
                        let want = image2(p, sa, sb, |x, y| (x + y) % p);
                        expect(&mut bad, set_of(&s) & want == want, "sum", || {
                            format!("sum of {} is {s} = {:?}, lacks {:?}", pr(), members(set_of(&s)), members(want & !set_of(&s)))
                        });
                        fresh.insert(s);
                        let m = a.combine_product(&b);
                        let want = image2(p, sa, sb, |x, y| x * y % p);
                        expect(&mut bad, set_of(&m) & want == want, "product", || {
                            format!("product of {} is {m} = {:?}, lacks {:?}", pr(), members(set_of(&m)), members(want & !set_of(&m)))
                        });
                        fresh.insert(m);
                        let k = a.conjunction(&b);
                        let want = sa & sb;
                        expect(&mut bad, set_of(&k) & want == want, "conjunction", || {
                            format!("conjunction of {} is {k} = {:?}, lacks {:?}", pr(), members(set_of(&k)), members(want & !set_of(&k)))
                        });
                        fresh.insert(k);
                        let d = a.disjunction(&b);
                        let want = sa | sb;
                        expect(&mut bad, set_of(&d) & want == want, "disjunction", || {
                            format!("disjunction of {} is {d} = {:?}, lacks {:?}", pr(), members(set_of(&d)), members(want & !set_of(&d)))
                        });
                        fresh.insert(d);
                        expect(&mut bad, !a.is_disjoint(&b) || sa & sb == 0, "disjoint", || {
                            format!("{} reported disjoint", pr())
                        });
                    }
                });
                if let Err(e) = r {
                    bad.push(V { key: "panic".into(), what: format!("{name}: {a}: {e}") });
                }
                (bad, fresh, evals, nontrivial)
            })
            .collect();
        let mut add: Vec<R<P, NB>> = vec![];
        for (bad, fresh, e, n) in results {
            for v in bad {
                c.violation(&v.key, v.what);
            }
            c.eval(e);
            c.transitions(e);
            c.nontrivial(n);
            let mut f: Vec<_> = fresh.into_iter().collect();
            f.sort();
            for r in f {
                if seen.insert(r) {
                    add.push(r);
                }
            }
        }
        add.sort();
        let closed = add.is_empty();
        c.note(format!("{name}: depth {depth}: {} states, {} new", all.len(), add.len()));
        states.extend(add);
        if closed {
            c.note(format!("{name}: closed under all operations"));
            break;
        }
        if states.len() > max_states {
            c.note(format!("{name}: stopped at {} states", states.len()));
            states.truncate(max_states.max(frontier));
        }
        if c.violated() {
            break;
        }
    }
    // The last layer still gets its local checks.
    let mut bad = vec![];
    let mut evals = 0;
    let mut fresh = HashSet::new();
    for i in frontier..states.len() {
        let a = states[i];
        let r = c.run(move || format!("{a}"), || {
            unary(p, a, set_of(&a), &name, &mut bad, &mut fresh, &mut evals)
        });
        if let Err(e) = r {
            c.violation("panic", format!("{name}: {a}: {e}"));
        }
    }
    for v in bad {
        c.violation(&v.key, v.what);
    }
    c.eval(evals);
    c.states(states.len() as u64);
    if let Some(s) = states.last() {
        c.sample(json!({"field": name, "state": s.to_string(), "denotes": members(set_of(s))}));
    }
}

fn unary<const P: u32, const NB: usize>(
    p: u32,
    a: RC<Tiny<P, NB>>,
    sa: Set,
    name: &str,
    bad: &mut Vec<V>,
    fresh: &mut HashSet<RC<Tiny<P, NB>>>,
    evals: &mut u64,
) {
    let el = |v: u32| Tiny::<P, NB>::new(v as i64);
    let full: Set = (1 << P) - 1;
    let ap = || format!("{name}: {a} = {:?}", members(sa));
    for f in 0..p {
        *evals += 1;
        let m = a.multiple(el(f));
        let want = image2(p, sa, 1 << f, |x, y| x * y % p);
        expect(bad, set_of(&m) & want == want, "multiple", || {
            format!("{f} times {} is {m} = {:?}, lacks {:?}", ap(), members(set_of(&m)), members(want & !set_of(&m)))
        });
        fresh.insert(m);
    }
    *evals += 8;
    let s = a.square();
    let want = members(sa).iter().fold(0, |s: Set, x| s | 1 << (x * x % p));
    expect(bad, set_of(&s) & want == want, "square", || {
        format!("square of {} is {s}, lacks {:?}", ap(), members(want & !set_of(&s)))
    });
    fresh.insert(s);
    let n = -a;
    let want = members(sa).iter().fold(0, |s: Set, x| s | 1 << ((p - x) % p));
    expect(bad, set_of(&n) & want == want, "negation", || {
        format!("negation of {} is {n}, lacks {:?}", ap(), members(want & !set_of(&n)))
    });
    fresh.insert(n);
    let accepted = (0..p).filter(|x| a.allows_value(el(*x))).fold(0, |s: Set, x| s | 1 << x);
    expect(bad, accepted == sa, "allows_value", || {
        format!("{} accepts {:?}", ap(), members(accepted))
    });
    let listed: Vec<u32> = a.allowed_values().map(|v| v.val()).collect();
    let lset = listed.iter().fold(0, |s: Set, x| s | 1 << x);
    expect(bad, lset == sa && listed.len() as u32 == sa.count_ones(), "allowed_values", || {
        format!("{} lists {listed:?}", ap())
    });
    if let Some(v) = a.try_to_single_value() {
        expect(bad, sa & !(1 << v.val()) == 0, "single_value", || {
            format!("{} reported to be the single value {v}", ap())
        });
    }
    expect(bad, !a.is_unconstrained() || sa == full, "is_unconstrained", || {
        format!("{} reported unconstrained", ap())
    });
    let est = a.size_estimate().try_into_u64().unwrap();
    expect(bad, est >= sa.count_ones() as u64, "size_estimate", || format!("{} estimated at {est}", ap()));
    let w = a.range_width().try_into_u64().unwrap();
    expect(bad, w >= sa.count_ones() as u64 && w <= p as u64, "range_width", || format!("{} has width {w}", ap()));
}

/// Full-size fields: the operations on an alphabet of boundary constraints, against
/// every pair of boundary values the operands allow.
fn big<T: FieldElement>(c: &Check, name: &str) {
    let p = T::modulus().to_arbitrary_integer();
    let bits = T::BITS as usize;
    let mut values: Vec<T> = vec![];
    let one = T::one();
    let two = one + one;
    let half = -one / two; // (p-1)/2
    let mut push = |v: T| {
        for d in [T::zero() - one, T::zero(), one] {
            if !values.contains(&(v + d)) {
                values.push(v + d);
            }
        }
    };
    push(T::zero());
    push(two + one);
    push(half);
    let mut shifts: Vec<usize> = vec![7, 8, 15, 16, 31, 32, bits / 2, bits / 2 + 1, bits - 3, bits - 2, bits - 1];
    shifts.retain(|s| *s < bits);
    shifts.sort();
    shifts.dedup();
    for s in shifts {
        let v = powdr_number::BigUint::from(1u32) << s;
        if v < p {
            push(T::from(v.clone()));
            push(-T::from(v));
        }
    }
    let step = tier(2, 1);
    let mut states: Vec<RC<T>> = vec![RC::unconstrained()];
    for (i, lo) in values.iter().enumerate() {
        states.push(RC::from_value(*lo));
        for (j, hi) in values.iter().enumerate() {
            if (i + j) % step == 0 {
                states.push(RC::from_range(*lo, *hi));
            }
        }
        states.push(RC::from_mask(lo.to_integer()));
    }
    for b in 0..T::Integer::NUM_BITS {
        if b < 3 || b + 3 > bits || b % 8 == 7 {
            states.push(RC::from_max_bit(b));
        }
    }
    let mut seen = HashSet::new();
    states.retain(|s| seen.insert(*s));
    if states.len() > tier(260, 900) {
        let k = states.len().div_ceil(tier(260, 900));
        states = states.into_iter().step_by(k).collect();
    }
    let mem: HashMap<RC<T>, Vec<T>> = states
        .iter()
        .map(|s| {
            let (lo, hi) = s.range();
            let mut v: Vec<T> = values
                .iter()
                .copied()
                .chain([lo, hi, lo + one, hi - one])
                .filter(|v| {
                    let vi = v.to_arbitrary_integer();
                    let in_range = if lo <= hi { lo <= *v && *v <= hi } else { lo <= *v || *v <= hi };
                    let m = s.mask().to_arbitrary_integer();
                    in_range && (vi.clone() & m) == vi
                })
                .collect();
            v.sort();
            v.dedup();
            (*s, v)
        })
        .collect();
    let res: Vec<(Vec<V>, u64, u64)> = states
        .par_iter()
        .map(|a| {
            let mut bad = vec![];
            let (mut ev, mut nt) = (0, 0);
            let (a, nm) = (*a, name.to_string());
            if c.violated() {
                return (bad, 0, 0);
            }
            let r = c.run(move || format!("{nm}: {a}"), || {
                let ma = &mem[&a];
                for x in ma {
                    expect(&mut bad, a.allows_value(*x), "allows_value", || format!("{name}: {a} rejects {x}"));
                    for f in &values {
                        ev += 1;
                        let m = a.multiple(*f);
                        expect(&mut bad, m.allows_value(*x * *f), "multiple", || format!("{name}: {f} * {a} = {m} rejects {x} * {f}"));
                    }
                    let s = a.square();
                    expect(&mut bad, s.allows_value(*x * *x), "square", || format!("{name}: ({a})^2 = {s} rejects {x}^2"));
                    expect(&mut bad, (-a).allows_value(-*x), "negation", || format!("{name}: -({a}) = {} rejects -{x}", -a));
                }
                if let Some(v) = a.try_to_single_value() {
                    expect(&mut bad, ma.iter().all(|x| *x == v), "single_value", || format!("{name}: {a} reported single {v}"));
                }
                for b in &states {
                    let mb = &mem[b];
                    let (s, m, k, d) = (a.combine_sum(b), a.combine_product(b), a.conjunction(b), a.disjunction(b));
                    let dis = a.is_disjoint(b);
                    ev += 5;
                    if ma.len() > 1 && mb.len() > 1 && !a.is_unconstrained() && !b.is_unconstrained() {
                        nt += 5;
                    }
                    for x in ma {
                        expect(&mut bad, d.allows_value(*x), "disjunction", || format!("{name}: {a} or {b} = {d} rejects {x}"));
                        if b.allows_value(*x) {
                            expect(&mut bad, k.allows_value(*x), "conjunction", || format!("{name}: {a} and {b} = {k} rejects {x}"));
                            expect(&mut bad, !dis, "disjoint", || format!("{name}: {a} and {b} reported disjoint, both allow {x}"));
                        }
                        for y in mb {
                            expect(&mut bad, s.allows_value(*x + *y), "sum", || format!("{name}: {a} + {b} = {s} rejects {x} + {y}"));
                            expect(&mut bad, m.allows_value(*x * *y), "product", || format!("{name}: {a} * {b} = {m} rejects {x} * {y}"));
                        }
                    }
                }
            });
            if let Err(e) = r {
                bad.push(V { key: "panic".into(), what: format!("{name}: {a}: {e}") });
            }
            (bad, ev, nt)
        })
        .collect();
    for (bad, e, n) in res {
        for v in bad {
            c.violation(&v.key, v.what);
        }
        c.eval(e);
        c.transitions(e);
        c.nontrivial(n);
    }
    c.states(states.len() as u64);
    c.count(&format!("states_{name}"), states.len() as u64);
}

fn main() {
    let c = Check::new(
        "C03",
        "model_checking",
        "breadth-first closure of range constraints under all operations over tiny primes (every state, every pair, every field value), plus all pairs of an alphabet of boundary constraints in the five real fields; non-trivial: both operands have at least two values and are not unconstrained",
        &["the tiny-prime instances run the same generic code as the real fields"],
    );
    tiny::<5, 3>(&c, 9, 10_000);
    tiny::<7, 3>(&c, 9, 10_000);
    tiny::<11, 4>(&c, 9, 10_000);
    tiny::<13, 4>(&c, tier(3, 9), 10_000);
    tiny::<13, 6>(&c, tier(2, 9), 10_000);
    tiny::<17, 5>(&c, tier(1, 3), tier(1500, 6000));
    tiny::<31, 5>(&c, tier(1, 2), tier(1500, 4000));
    if thorough() {
        tiny::<61, 6>(&c, 1, 4000);
    }
    big::<BabyBearField>(&c, "BabyBear");
    big::<KoalaBearField>(&c, "KoalaBear");
    big::<Mersenne31Field>(&c, "Mersenne31");
    big::<GoldilocksField>(&c, "Goldilocks");
    big::<Bn254Field>(&c, "Bn254");
    c.finish()
}
