//! C02: field elements through every conversion and encoding and back.
use ibig::{IBig, UBig};
use mc_core::rayon::prelude::*;
use mc_core::{tier, Check};
use mc_num::*;
use powdr_number::*;
use std::io::Cursor;
use std::sync::Arc;

struct F {
    name: &'static str,
    p: UBig,
    c: Arc<Check>,
}
impl F {
    fn bad(&self, what: &str, s: String) {
        self.c.violation(&format!("{} {what}", self.name), format!("{}: {what}: {s}", self.name));
    }
    fn guard<R>(&self, what: &str, at: &dyn std::fmt::Display, f: impl FnOnce() -> R) -> Option<R> {
        match mc_core::quiet_catch(f) {
            Ok(r) => Some(r),
            Err(e) => {
                self.bad(what, format!("panic at {at}: {e}"));
                None
            }
        }
    }
    fn same<T: FieldElement>(&self, what: &str, v: &UBig, f: impl FnOnce() -> T) {
        if let Some(e) = self.guard(what, v, f) {
            if int(&e) != *v || e != of::<T>(v) {
                self.bad(what, format!("{v} came back as {e:?}"));
            }
        }
    }
    /// A machine integer: its value modulo the prime; a panic is allowed only if the
    /// value does not fit.
    fn machine<T: FieldElement>(&self, what: &str, v: i128, f: impl FnOnce() -> T) {
        let p = IBig::from(self.p.clone());
        let iv = IBig::from(v);
        let mut want = iv.clone() % &p;
        if want < IBig::from(0) {
            want += &p;
        }
        let fits = iv > -p.clone() && iv < p;
        match mc_core::quiet_catch(f) {
            Err(e) if fits => self.bad(what, format!("panic at {v}: {e}")),
            Err(_) => {}
            Ok(e) => {
                if IBig::from(int(&e)) != want || e != of::<T>(&UBig::try_from(want.clone()).unwrap()) {
                    self.bad(what, format!("{v} became {e:?} instead of {want}"));
                }
            }
        }
        self.c.eval(1);
    }
}

fn digits(v: &UBig, radix: u32) -> String {
    v.in_radix(radix).to_string()
}

fn field<T: FieldElement>(c: &Arc<Check>, name: &'static str, known: KnownField) {
    let p = prime(name);
    let f = F { name, p: p.clone(), c: c.clone() };
    if T::known_field() != Some(known) {
        f.bad("known_field", format!("{:?}", T::known_field()));
    }
    let vals = alphabet(&p, mc_core::thorough());
    c.states(vals.len() as u64);
    vals.par_iter().for_each(|v| {
        let e: T = of(v);
        f.same("integer", v, || T::from(e.to_integer()));
        f.same("big integer", v, || T::from(e.to_arbitrary_integer()));
        f.same("checked_from", v, || T::checked_from(v.clone()).expect("rejected"));
        f.same("bytes", v, || T::from_bytes_le(&e.to_bytes_le()));
        f.same("decimal", v, || e.to_string().parse::<T>().expect("rejected"));
        f.same("decimal of the value", v, || v.to_string().parse::<T>().expect("rejected"));
        f.same("hexadecimal", v, || T::from_str_radix(&format!("{e:x}"), 16).expect("rejected"));
        f.same("hexadecimal integer", v, || T::from_str_radix(&format!("{:x}", e.to_integer()), 16).expect("rejected"));
        for radix in [2, 3, 8, 10, 16, 36] {
            f.same("radix", v, || T::from_str_radix(&digits(v, radix), radix).expect("rejected"));
        }
        f.same("JSON", v, || mc_core::serde_json::from_str::<T>(&mc_core::serde_json::to_string(&e).unwrap()).unwrap());
        if let Some(b) = f.guard("bytes", v, || e.to_bytes_le()) {
            if UBig::from_le_bytes(&b) != *v {
                f.bad("bytes", format!("{v} gives {b:?}"));
            }
        }
        c.eval(14);
        c.nontrivial(1);
    });
    // Values outside the field.
    let mut over: Vec<UBig> = vec![];
    for k in 0..4u64 {
        over.extend([&p + u(k), &p * u(2) + u(k), &p * u(k + 2), pow2(31) + u(k), pow2(32) - u(1 + k), pow2(32) + u(k), pow2(64) - u(1 + k), pow2(64) + u(k), pow2(256) - u(1 + k), pow2(256) + u(k), pow2(400) + u(k)]);
    }
    over.retain(|v| v >= &p);
    for v in &over {
        if f.guard("checked_from", v, || T::checked_from(v.clone()).is_some()) == Some(true) {
            f.bad("checked_from", format!("accepts {v}"));
        }
        if f.guard("decimal", v, || v.to_string().parse::<T>().is_ok()) == Some(true) {
            f.bad("decimal", format!("accepts {v}"));
        }
        for radix in [2, 3, 8, 10, 16, 36] {
            if f.guard("radix", v, || T::from_str_radix(&digits(v, radix), radix).is_ok()) == Some(true) {
                f.bad("radix", format!("accepts {v} in base {radix}"));
            }
        }
        // Big integers are reduced or refused, never turned into something else.
        if let Ok(e) = mc_core::quiet_catch(|| of::<T>(v)) {
            if int(&e) != v % &p {
                f.bad("big integer", format!("{v} became {e:?}"));
            }
        }
        c.eval(8);
    }
    for s in ["", " ", "-", "x", "12a", "0x", "1 2", "--1", "1.0", "\u{661}"] {
        if f.guard("decimal", &s, || s.parse::<T>().is_ok()) == Some(true) {
            f.bad("decimal", format!("accepts {s:?}"));
        }
        if s != "12a" && f.guard("radix", &s, || T::from_str_radix(s, 16).is_ok()) == Some(true) {
            f.bad("radix", format!("accepts {s:?}"));
        }
        c.eval(2);
    }
    // Machine integers.
    let small: Vec<i128> = {
        let mut s = vec![];
        for i in 0..=64 {
            for d in -3i128..=3 {
                s.extend([(1i128 << i) + d, -(1i128 << i) + d]);
            }
        }
        if let Ok(q) = u64::try_from(p.clone()) {
            for k in 1..=4i128 {
                for d in -3i128..=3 {
                    s.extend([k * q as i128 + d, -k * q as i128 + d, (q as i128 - 1) / 2 * k + d]);
                }
            }
        }
        s.sort();
        s.dedup();
        s
    };
    for v in small {
        if let Ok(x) = u32::try_from(v) {
            f.machine("u32", v, || T::from(x));
        }
        if let Ok(x) = u64::try_from(v) {
            f.machine("u64", v, || T::from(x));
        }
        if let Ok(x) = i32::try_from(v) {
            f.machine("i32", v, || T::from(x));
        }
        if let Ok(x) = i64::try_from(v) {
            f.machine("i64", v, || T::from(x));
        }
    }
    f.machine("bool", 0, || T::from(false));
    f.machine("bool", 1, || T::from(true));
    columns::<T>(&f);
    files::<T>(&f, &vals);
}

/// Column files of all shapes.
fn columns<T: FieldElement>(f: &F) {
    let p = &f.p;
    let vals: Vec<T> = [u(0), u(1), p - u(1), (p - u(1)) / u(2), (p + u(1)) / u(2), u(255), p - u(10), pow2(p.bit_len() - 1)].iter().map(of).collect();
    let names = ["a", "main.x[0]", "a,b", "say \"x\"", "Row2", "-1", "0xff", "two words", "\u{e9}"];
    let maxlen = tier(2, 3);
    let modes = [CsvRenderMode::SignedBase10, CsvRenderMode::UnsignedBase10, CsvRenderMode::Hex];
    let mut shapes = vec![];
    for ncol in 1..=3usize {
        for lens in mc_core::tuples(maxlen + 1, ncol) {
            for shift in 0..vals.len() {
                shapes.push((lens.clone(), shift));
            }
        }
    }
    shapes.par_iter().for_each(|(lens, shift)| {
        let cols: Vec<(String, Vec<T>)> = lens
            .iter()
            .enumerate()
            .map(|(i, n)| {
                let name = names[(i * 3 + shift) % names.len()].to_string();
                (name, (0..*n).map(|k| vals[(k + i * 3 + shift) % vals.len()]).collect())
            })
            .collect();
        for mode in modes {
            let at = format!("{cols:?} as {mode:?}");
            let got = f.guard("column file", &at, || {
                let mut buf = vec![];
                let refs: Vec<(&String, &[T])> = cols.iter().map(|(n, v)| (n, v.as_slice())).collect();
                write_polys_csv_file(&mut buf, mode, &refs);
                read_polys_csv_file::<T>(Cursor::new(buf))
            });
            f.c.eval(1);
            f.c.states(1);
            f.c.nontrivial(lens.iter().any(|l| *l != lens[0]) as u64);
            if let Some(g) = got {
                if g != cols {
                    f.bad("column file", format!("{at} came back as {g:?}"));
                }
            }
        }
    });
}

fn files<T: FieldElement>(f: &F, vals: &[UBig]) {
    let dir = std::env::temp_dir().join(format!("mc-num-{}-{}", std::process::id(), f.name));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("x");
    let all: Vec<T> = vals.iter().map(of).collect();
    // a longer file first, so that a shorter one written over it must replace it
    for n in [all.len(), 5, 1, 0, 17] {
        let data: Vec<(String, Vec<T>)> = vec![("a".into(), all[..n].to_vec()), ("".into(), all[all.len() - n..].to_vec())];
        let back = f.guard("file", &n, || {
            data.write(&path).unwrap();
            Vec::<(String, Vec<T>)>::read(&mut std::fs::File::open(&path).unwrap())
        });
        f.c.eval(1);
        if back.is_some_and(|b| b != data) {
            f.bad("file", format!("{n} values came back differently"));
        }
        let got = f.guard("buffered file", &n, || {
            let r = buffered_write_file(&path, |w| std::io::Write::write(w, &vec![7u8; n]).unwrap()).unwrap();
            (r, std::fs::read(&path).unwrap())
        });
        if got.is_some_and(|(r, b)| r > n || b != vec![7u8; r]) {
            f.bad("buffered file", format!("{n} bytes came back differently"));
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
}

fn main() {
    let c = Check::new(
        "C02",
        "exploration",
        "non-trivial: an element taken through all encodings, or a file with columns of different lengths",
        &["for fields too large to enumerate, the alphabet contains the values around limb and modulus boundaries"],
    );
    field::<BabyBearField>(&c, "BabyBear", KnownField::BabyBearField);
    field::<KoalaBearField>(&c, "KoalaBear", KnownField::KoalaBearField);
    field::<Mersenne31Field>(&c, "Mersenne31", KnownField::Mersenne31Field);
    field::<GoldilocksField>(&c, "Goldilocks", KnownField::GoldilocksField);
    field::<Bn254Field>(&c, "Bn254", KnownField::Bn254Field);
    // Computed representations (two zeros in Mersenne31) in text form.
    let z = -Mersenne31Field::from(0u32);
    if z.to_string() != "0" || format!("{z:x}") != "0" {
        c.violation("Mersenne31 decimal", format!("-0 is displayed as {z}"));
    }
    c.finish();
}
