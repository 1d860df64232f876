//! C01: arithmetic of every supported field against unbounded integers.
use ibig::{IBig, UBig};
use mc_core::rayon::prelude::*;
use mc_core::{tier, Check};
use mc_num::*;
use powdr_number::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct F<T> {
    name: &'static str,
    p: UBig,
    c: Arc<Check>,
    _t: std::marker::PhantomData<T>,
}

impl<T: FieldElement> F<T> {
    fn bad(&self, op: &str, args: &[&UBig], got: String, want: &UBig) {
        let a: Vec<String> = args.iter().map(|a| a.to_string()).collect();
        self.c.violation(
            &format!("{} {op}", self.name),
            format!("{}: {op}({}) gave {got} instead of {want}", self.name, a.join(", ")),
        );
    }
    /// The element must stand for the integer and be indistinguishable from the
    /// element made from that integer.
    fn expect(&self, op: &str, args: &[&UBig], got: T, want: &UBig) {
        if &int(&got) != want {
            return self.bad(op, args, int(&got).to_string(), want);
        }
        let fresh: T = of(want);
        if got != fresh || got.cmp(&fresh).is_ne() || hash(&got) != hash(&fresh) || got.to_string() != fresh.to_string() {
            self.bad(op, args, format!("{got:?}, which differs from {fresh:?},"), want);
        }
    }
    fn unary(&self, a: &UBig, e: T) {
        let p = &self.p;
        let zero = u(0);
        self.expect("identity", &[a], e, a);
        self.expect("neg", &[a], -e, &((p - a) % p));
        if e.is_zero() != (a == &zero) || e.is_one() != (a == &u(1)) {
            self.bad("is_zero/is_one", &[a], format!("{} {}", e.is_zero(), e.is_one()), a);
        }
        let lower = a <= &((p - u(1)) / u(2));
        if e.is_in_lower_half() != lower {
            self.bad("is_in_lower_half", &[a], e.is_in_lower_half().to_string(), a);
        }
        let signed = if lower { IBig::from(a.clone()) } else { IBig::from(a.clone()) - IBig::from(p.clone()) };
        if e.to_signed_integer() != signed {
            self.bad("to_signed_integer", &[a], e.to_signed_integer().to_string(), a);
        }
        if e.to_arbitrary_integer() != *a {
            self.bad("to_arbitrary_integer", &[a], e.to_arbitrary_integer().to_string(), a);
        }
        if let Ok(d) = u64::try_from(a.clone()) {
            if e.to_degree() != d {
                self.bad("to_degree", &[a], e.to_degree().to_string(), a);
            }
        }
    }
    fn binary(&self, a: &UBig, x: T, b: &UBig, y: T) {
        let p = &self.p;
        let ab = [a, b];
        let sum = (a + b) % p;
        let diff = (a + p - b) % p;
        let prod = a * b % p;
        self.expect("add", &ab, x + y, &sum);
        self.expect("sub", &ab, x - y, &diff);
        self.expect("mul", &ab, x * y, &prod);
        let mut t = x;
        t += y;
        self.expect("add_assign", &ab, t, &sum);
        t = x;
        t -= y;
        self.expect("sub_assign", &ab, t, &diff);
        t = x;
        t *= y;
        self.expect("mul_assign", &ab, t, &prod);
        if b != &u(0) {
            let q = x / y;
            let qi = int(&q);
            if &qi >= p || &(&qi * b % p) != a {
                self.bad("div", &ab, qi.to_string(), a);
            }
            self.expect("div", &ab, q, &qi);
        }
        if (x == y) != (a == b) || x.cmp(&y) != a.cmp(b) || x.partial_cmp(&y) != Some(a.cmp(b)) {
            self.bad("comparison", &ab, format!("{:?}", x.cmp(&y)), a);
        }
    }
    fn pow(&self, a: &UBig, x: T, n: T::Integer) {
        let mut e = n.to_arbitrary_integer();
        let (mut r, mut b) = (u(1), a.clone());
        while e != u(0) {
            if &e % u(2) == u(1) {
                r = r * &b % &self.p;
            }
            b = &b * &b % &self.p;
            e = e / u(2);
        }
        self.expect("pow", &[a, &n.to_arbitrary_integer()], x.pow(n), &r);
    }
    fn guard(&self, what: &str, f: impl FnOnce()) {
        if let Err(e) = mc_core::quiet_catch(f) {
            self.c.violation(&format!("{} {what} panic", self.name), format!("{} {what}: {e}", self.name));
        }
    }
}

/// Integers of the fixed width against unbounded ones, where the result fits.
fn large_int<I: LargeInt>(c: &Check, name: &str, vals: &[UBig], make: &(impl Fn(&UBig) -> Option<I> + Sync)) {
    let max = I::MAX.to_arbitrary_integer();
    let vio = |s: String| c.violation(&format!("{name} integer"), format!("{name} integers: {s}"));
    if max != pow2(I::NUM_BITS) - u(1) {
        vio(format!("MAX is {max}"));
    }
    if I::one().to_arbitrary_integer() != u(1) || I::zero().to_arbitrary_integer() != u(0) || I::ZERO != I::zero() {
        vio("zero or one is wrong".into());
    }
    let ints: Vec<(UBig, I)> = vals.iter().filter(|v| **v <= max).filter_map(|v| make(v).map(|i| (v.clone(), i))).collect();
    ints.par_iter().for_each(|(a, x)| {
        let r = mc_core::quiet_catch(|| -> Result<(), String> {
            let ck = |op: &str, got: I, want: UBig| -> Result<(), String> {
                if got.to_arbitrary_integer() != want {
                    return Err(format!("{op} at {a} is {} instead of {want}", got.to_arbitrary_integer()));
                }
                Ok(())
            };
            ck("value", *x, a.clone())?;
            ck("not", !*x, &max - a)?;
            if x.num_bits() != a.bit_len() || x.is_zero() != (a == &u(0)) || x.is_one() != (a == &u(1)) {
                return Err(format!("num_bits/is_zero/is_one of {a}"));
            }
            if x.try_into_u64() != u64::try_from(a.clone()).ok() || x.try_into_u32() != u32::try_from(a.clone()).ok() {
                return Err(format!("conversion of {a} to u64 or u32"));
            }
            if format!("{x}") != a.to_string() || format!("{x:x}") != format!("{a:x}") {
                return Err(format!("{a} is displayed as {x}, {x:x}"));
            }
            ck("from_hex", I::from_hex(&format!("{a:x}")), a.clone())?;
            if let Ok(v) = u64::try_from(a.clone()) {
                ck("from u64", I::from(v), a.clone())?;
            }
            for k in 0..I::NUM_BITS {
                ck("shr", *x >> k, a >> k)?;
                if a.bit_len() + k <= I::NUM_BITS {
                    ck("shl", *x << k, a << k)?;
                }
            }
            for (b, y) in &ints {
                c.eval(1);
                let bx = |f: fn(u8, u8) -> u8| {
                    let (mut p, mut q) = (a.to_le_bytes(), b.to_le_bytes());
                    let n = p.len().max(q.len());
                    p.resize(n, 0);
                    q.resize(n, 0);
                    UBig::from_le_bytes(&p.iter().zip(&q).map(|(a, b)| f(*a, *b)).collect::<Vec<_>>())
                };
                ck(&format!("and {b}"), *x & *y, bx(|a, b| a & b))?;
                ck(&format!("or {b}"), *x | *y, bx(|a, b| a | b))?;
                ck(&format!("xor {b}"), *x ^ *y, bx(|a, b| a ^ b))?;
                let mut t = *x;
                t &= *y;
                ck(&format!("and_assign {b}"), t, bx(|a, b| a & b))?;
                t = *x;
                t |= *y;
                ck(&format!("or_assign {b}"), t, bx(|a, b| a | b))?;
                if a + b <= max {
                    ck(&format!("add {b}"), *x + *y, a + b)?;
                    t = *x;
                    t += *y;
                    ck(&format!("add_assign {b}"), t, a + b)?;
                }
                if a >= b {
                    ck(&format!("sub {b}"), *x - *y, a - b)?;
                    t = *x;
                    t -= *y;
                    ck(&format!("sub_assign {b}"), t, a - b)?;
                }
                if x.cmp(y) != a.cmp(b) || (x == y) != (a == b) {
                    return Err(format!("comparison of {a} and {b}"));
                }
            }
            Ok(())
        })
        .and_then(|r| r);
        if let Err(e) = r {
            vio(e);
        }
    });
}

fn field<T: FieldElement>(c: &Arc<Check>, name: &'static str, dense: bool) {
    let p = prime(name);
    let f = F::<T> { name, p: p.clone(), c: c.clone(), _t: Default::default() };
    if T::modulus().to_arbitrary_integer() != p || T::BITS as usize != p.bit_len() {
        c.violation(&format!("{name} modulus"), format!("{} with {} bits", T::modulus(), T::BITS));
    }
    f.guard("constants", || {
        f.expect("default", &[], T::default(), &u(0));
        f.expect("zero", &[], T::zero(), &u(0));
        f.expect("ZERO", &[], T::ZERO, &u(0));
        f.expect("one", &[], T::one(), &u(1));
        f.expect("ONE", &[], T::ONE, &u(1));
        f.expect("from false", &[], T::from(false), &u(0));
        f.expect("from true", &[], T::from(true), &u(1));
    });
    let vals = alphabet(&p, dense);
    let elems: Vec<(UBig, T)> = vals.iter().map(|v| (v.clone(), of::<T>(v))).collect();
    elems.par_iter().for_each(|(a, x)| {
        f.guard("unary", || f.unary(a, *x));
        f.guard("binary", || {
            for (b, y) in &elems {
                f.binary(a, *x, b, *y);
            }
        });
        c.eval(elems.len() as u64);
        c.nontrivial(elems.len() as u64);
        c.transitions(7 * elems.len() as u64);
    });
    c.states(elems.len() as u64);
    c.count(&format!("{name} operands"), elems.len() as u64);

    // All chains: every element reachable by up to `depth` operations from a few
    // generators, kept in the form in which it was computed.
    let gens: Vec<UBig> = vec![u(2), &p - u(1), (&p + u(1)) / u(2), pow2(p.bit_len() - 1), pow2(p.bit_len() / 2) - u(1)];
    let mut level: BTreeMap<UBig, T> = gens.iter().map(|g| (g.clone(), of::<T>(g))).collect();
    for d in 0..2 {
        let all: Vec<(UBig, T)> = level.clone().into_iter().collect();
        let add = |m: &mut BTreeMap<UBig, T>, e: T| {
            m.entry(int(&e)).or_insert(e);
        };
        f.guard("chain", || {
            for (_, x) in &all {
                for (_, y) in &all {
                    for e in [*x + *y, *x - *y, *x * *y] {
                        add(&mut level, e);
                    }
                    if !y.is_zero() && d == 0 {
                        add(&mut level, *x / *y);
                    }
                }
            }
        });
    }
    let limit = tier(700, 2500);
    let chain: Vec<(UBig, T)> = level.into_iter().collect();
    c.states(chain.len() as u64);
    c.count(&format!("{name} chain states"), chain.len() as u64);
    let step = chain.len().div_ceil(limit);
    chain.par_iter().enumerate().for_each(|(i, (a, x))| {
        f.guard("unary after a chain", || f.unary(a, *x));
        if i % step == 0 {
            f.guard("binary after a chain", || {
                for (b, y) in chain.iter().step_by(step) {
                    f.binary(a, *x, b, *y);
                    c.eval(1);
                    c.nontrivial(1);
                    c.transitions(7);
                }
            });
        }
    });
    // Exponentiation.
    let mut exps: Vec<UBig> = (0..20).map(u).collect();
    for i in 0..T::Integer::NUM_BITS {
        exps.push(pow2(i));
        exps.push(pow2(i + 1) - u(1));
    }
    exps.extend([&p - u(1), &p - u(2), p.clone(), (&p - u(1)) / u(2)]);
    let bases: Vec<&(UBig, T)> = elems.iter().step_by(tier(elems.len() / 24 + 1, elems.len() / 200 + 1)).collect();
    bases.par_iter().for_each(|(a, x)| {
        f.guard("pow", || {
            for n in &exps {
                f.pow(a, *x, T::Integer::from_hex(&format!("{n:x}")));
                c.eval(1);
            }
        })
    });
    // Machine integers.
    let mut iv = alphabet(&pow2(T::Integer::NUM_BITS), false);
    iv.push(pow2(T::Integer::NUM_BITS) - u(1));
    large_int::<T::Integer>(c, name, &iv, &|v| Some(T::Integer::from_hex(&format!("{v:x}"))));
}

/// Every element of a field of 31 bits.
fn whole<T: FieldElement>(c: &Arc<Check>, name: &'static str) {
    let p = u64::try_from(prime(name)).unwrap();
    let chunk = 1 << 20;
    let muls: Vec<u64> = tier(vec![p - 1], vec![p - 1, 2, 3, (p - 1) / 2, 1 << 30, 0x12345678, p - 2]);
    (0..p.div_ceil(chunk)).into_par_iter().for_each(|k| {
        if c.violated() {
            return;
        }
        let bad = |op: &str, v: u64, got: u64| c.violation(&format!("{name} {op}"), format!("{name}: {op} of {v} is {got}"));
        let r = mc_core::quiet_catch(|| {
            let one = T::one();
            let ms: Vec<(u64, T)> = muls.iter().map(|m| (*m, T::from(*m))).collect();
            for v in k * chunk..((k + 1) * chunk).min(p) {
                let e = T::from(v as u32);
                if e.to_degree() != v {
                    bad("to_degree", v, e.to_degree());
                }
                let s = (e + one).to_degree();
                if s != (v + 1) % p {
                    bad("successor", v, s);
                }
                if e.is_in_lower_half() != (v <= (p - 1) / 2) {
                    bad("is_in_lower_half", v, 0);
                }
                if e.is_zero() != (v == 0) {
                    bad("is_zero", v, 0);
                }
                for (m, t) in &ms {
                    let s = (e * *t).to_degree();
                    if s != v * m % p {
                        bad(&format!("times {m}"), v, s);
                    }
                }
            }
        });
        if let Err(e) = r {
            c.violation(&format!("{name} panic"), e);
        }
    });
    c.eval(p);
    c.states(p);
    c.count(&format!("{name} all elements"), p);
}

fn main() {
    let c = Check::new(
        "C01",
        "model_checking",
        "non-trivial: a pair of operands for which all binary operations were compared with unbounded integers",
        &["for fields too large to enumerate, carries and reductions depend on the limb and modulus boundaries the alphabet contains"],
    );
    field::<BabyBearField>(&c, "BabyBear", true);
    field::<KoalaBearField>(&c, "KoalaBear", true);
    field::<Mersenne31Field>(&c, "Mersenne31", true);
    field::<GoldilocksField>(&c, "Goldilocks", true);
    field::<Bn254Field>(&c, "Bn254", mc_core::thorough());
    whole::<BabyBearField>(&c, "BabyBear");
    whole::<KoalaBearField>(&c, "KoalaBear");
    whole::<Mersenne31Field>(&c, "Mersenne31");
    let n = tier(1u64 << 18, 1 << 22);
    let mut check = |v: UBig| {
        let want = (0..300).find(|k| pow2(*k) == v);
        if log2_exact(v.clone()) != want {
            c.violation("log2_exact", format!("log2_exact({v}) is {:?}", log2_exact(v.clone())));
        }
        c.eval(1);
    };
    for v in 0..n.min(1 << 14) {
        check(u(v));
    }
    for i in 0..256 {
        for j in 0..=i {
            check(pow2(i) + pow2(j));
            check(pow2(i) - pow2(j));
        }
    }
    c.finish();
}
