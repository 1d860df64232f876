//! Unbounded-integer reference for the supported fields, and boundary alphabets.
use ibig::UBig;
use powdr_number::{FieldElement, LargeInt};
use std::collections::BTreeSet;

pub fn u(v: u64) -> UBig {
    UBig::from(v)
}
pub fn pow2(k: usize) -> UBig {
    u(1) << k
}

/// The primes, written down independently of the code.
pub fn prime(name: &str) -> UBig {
    match name {
        "BabyBear" => pow2(31) - pow2(27) + u(1),
        "KoalaBear" => pow2(31) - pow2(24) + u(1),
        "Mersenne31" => pow2(31) - u(1),
        "Goldilocks" => pow2(64) - pow2(32) + u(1),
        "Bn254" => {
            // 36 t^4 + 36 t^3 + 18 t^2 + 6 t + 1
            let t = u(4965661367192848881);
            let t2 = &t * &t;
            u(36) * &t2 * &t2 + u(36) * &t2 * &t + u(18) * &t2 + u(6) * &t + u(1)
        }
        _ => unreachable!(),
    }
}

/// Values around zero, the modulus, its half, and around (sums and differences of)
/// powers of two.
pub fn alphabet(p: &UBig, dense: bool) -> Vec<UBig> {
    let mut s = BTreeSet::new();
    let mut add = |v: UBig| {
        if &v < p {
            s.insert(v);
        }
    };
    for k in 0..6u64 {
        add(u(k));
        add(p - u(k + 1));
        add((p - u(1)) / u(2) + u(k));
        add((p - u(1)) / u(2) - u(k));
        add(p / u(3) + u(k));
    }
    let bits = p.bit_len();
    let step = if dense { 1 } else { bits / 16 + 1 };
    let special: BTreeSet<usize> = (0..bits).filter(|i| i % step == 0 || i % 32 == 31 || i % 32 == 0 || *i + 2 > bits).collect();
    for i in &special {
        for d in 0..=2u64 {
            add(pow2(*i) + u(d));
            if pow2(*i) >= u(d) {
                add(pow2(*i) - u(d));
            }
            if p > &(pow2(*i) + u(d)) {
                add(p - pow2(*i) - u(d));
            }
        }
        for j in special.iter().filter(|j| *j < i && (dense || *j % 8 == 0)) {
            if dense && (*i + *j) % 3 != 0 {
                continue;
            }
            add(pow2(*i) - pow2(*j));
            add(pow2(*i) + pow2(*j));
        }
    }
    s.into_iter().collect()
}

pub fn of<T: FieldElement>(v: &UBig) -> T {
    T::from(v.clone())
}
/// The integer an element stands for.
pub fn int<T: FieldElement>(e: &T) -> UBig {
    e.to_integer().to_arbitrary_integer()
}
