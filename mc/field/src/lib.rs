//! Tiny prime fields behind the repository's own `FieldElement` trait, so that its
//! generic code can be run on *every* value of the field.
//!
//! `Tiny<P, NB>`: the field with P elements whose "machine integer" has NB bits.
//! Goldilocks is a prime just below 2^64 held in 64 bits (P close to 2^NB, sums of
//! two elements overflow); BabyBear leaves spare bits. Both shapes are reproduced.
use ibig::UBig;
use num_traits::{ConstOne, ConstZero, One, Zero};
use powdr_number::{FieldElement, KnownField, LargeInt};
use schemars::{gen::SchemaGenerator, schema::Schema, JsonSchema};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::ops::*;
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct TInt<const NB: usize>(pub u32);

const fn mask(nb: usize) -> u32 {
    ((1u64 << nb) - 1) as u32
}

impl<const NB: usize> TInt<NB> {
    fn chk(v: u64) -> Self {
        // The machine integers of the real fields panic on overflow in debug builds.
        assert!(v <= mask(NB) as u64, "attempt to overflow a {NB}-bit integer");
        TInt(v as u32)
    }
}
impl<const NB: usize> fmt::Display for TInt<NB> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const NB: usize> fmt::Debug for TInt<NB> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const NB: usize> fmt::LowerHex for TInt<NB> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(&self.0, f)
    }
}
impl<const NB: usize> From<u64> for TInt<NB> {
    fn from(v: u64) -> Self {
        Self::chk(v)
    }
}
macro_rules! bitop {
    ($tr:ident, $f:ident, $op:tt) => {
        impl<const NB: usize> $tr for TInt<NB> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                TInt(self.0 $op o.0)
            }
        }
    };
}
bitop!(BitAnd, bitand, &);
bitop!(BitOr, bitor, |);
bitop!(BitXor, bitxor, ^);
impl<const NB: usize> BitAndAssign for TInt<NB> {
    fn bitand_assign(&mut self, o: Self) {
        self.0 &= o.0
    }
}
impl<const NB: usize> BitOrAssign for TInt<NB> {
    fn bitor_assign(&mut self, o: Self) {
        self.0 |= o.0
    }
}
impl<const NB: usize> Add for TInt<NB> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Self::chk(self.0 as u64 + o.0 as u64)
    }
}
impl<const NB: usize> AddAssign for TInt<NB> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<const NB: usize> Sub for TInt<NB> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        TInt(self.0.checked_sub(o.0).expect("attempt to subtract with overflow"))
    }
}
impl<const NB: usize> SubAssign for TInt<NB> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<const NB: usize> Not for TInt<NB> {
    type Output = Self;
    fn not(self) -> Self {
        TInt(!self.0 & mask(NB))
    }
}
impl<const NB: usize> Shl<usize> for TInt<NB> {
    type Output = Self;
    fn shl(self, n: usize) -> Self {
        assert!(n < NB, "attempt to shift left with overflow");
        TInt((((self.0 as u64) << n) & mask(NB) as u64) as u32)
    }
}
impl<const NB: usize> Shr<usize> for TInt<NB> {
    type Output = Self;
    fn shr(self, n: usize) -> Self {
        assert!(n < NB, "attempt to shift right with overflow");
        TInt(self.0 >> n)
    }
}
impl<const NB: usize> Zero for TInt<NB> {
    fn zero() -> Self {
        TInt(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const NB: usize> ConstZero for TInt<NB> {
    const ZERO: Self = TInt(0);
}
impl<const NB: usize> LargeInt for TInt<NB> {
    const MAX: Self = TInt(mask(NB));
    const NUM_BITS: usize = NB;
    fn to_arbitrary_integer(self) -> UBig {
        self.0.into()
    }
    fn num_bits(&self) -> usize {
        32 - self.0.leading_zeros() as usize
    }
    fn one() -> Self {
        TInt(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
    fn try_into_u64(&self) -> Option<u64> {
        Some(self.0 as u64)
    }
    fn try_into_u32(&self) -> Option<u32> {
        Some(self.0)
    }
    fn from_hex(s: &str) -> Self {
        Self::chk(u64::from_str_radix(s, 16).unwrap())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Tiny<const P: u32, const NB: usize>(u32);

impl<const P: u32, const NB: usize> Tiny<P, NB> {
    pub fn new(v: i64) -> Self {
        Tiny(v.rem_euclid(P as i64) as u32)
    }
    pub fn val(self) -> u32 {
        self.0
    }
    pub fn all() -> impl Iterator<Item = Self> + Clone {
        (0..P).map(Tiny)
    }
}
impl<const P: u32, const NB: usize> fmt::Display for Tiny<P, NB> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32, const NB: usize> fmt::Debug for Tiny<P, NB> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32, const NB: usize> fmt::LowerHex for Tiny<P, NB> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(&self.0, f)
    }
}
impl<const P: u32, const NB: usize> Serialize for Tiny<P, NB> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.0)
    }
}
impl<'de, const P: u32, const NB: usize> Deserialize<'de> for Tiny<P, NB> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Self::from(u32::deserialize(d)?))
    }
}
impl<const P: u32, const NB: usize> JsonSchema for Tiny<P, NB> {
    fn schema_name() -> String {
        "Tiny".to_string()
    }
    fn json_schema(gen: &mut SchemaGenerator) -> Schema {
        gen.subschema_for::<u32>()
    }
}
macro_rules! from_int {
    ($t:ty) => {
        impl<const P: u32, const NB: usize> From<$t> for Tiny<P, NB> {
            fn from(v: $t) -> Self {
                Tiny((v as i128).rem_euclid(P as i128) as u32)
            }
        }
    };
}
from_int!(u32);
from_int!(u64);
from_int!(i32);
from_int!(i64);
from_int!(bool);
impl<const P: u32, const NB: usize> From<UBig> for Tiny<P, NB> {
    fn from(v: UBig) -> Self {
        Tiny(u32::try_from(v % UBig::from(P)).unwrap())
    }
}
impl<const P: u32, const NB: usize> From<TInt<NB>> for Tiny<P, NB> {
    fn from(v: TInt<NB>) -> Self {
        Tiny(v.0 % P)
    }
}
impl<const P: u32, const NB: usize> FromStr for Tiny<P, NB> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Self::from_str_radix(s, 10)
    }
}
impl<const P: u32, const NB: usize> Add for Tiny<P, NB> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Tiny((self.0 + o.0) % P)
    }
}
impl<const P: u32, const NB: usize> AddAssign for Tiny<P, NB> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl<const P: u32, const NB: usize> Sub for Tiny<P, NB> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Tiny((self.0 + P - o.0) % P)
    }
}
impl<const P: u32, const NB: usize> SubAssign for Tiny<P, NB> {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl<const P: u32, const NB: usize> Mul for Tiny<P, NB> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Tiny((self.0 as u64 * o.0 as u64 % P as u64) as u32)
    }
}
impl<const P: u32, const NB: usize> MulAssign for Tiny<P, NB> {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl<const P: u32, const NB: usize> Neg for Tiny<P, NB> {
    type Output = Self;
    fn neg(self) -> Self {
        Tiny((P - self.0) % P)
    }
}
impl<const P: u32, const NB: usize> Div for Tiny<P, NB> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        assert!(o.0 != 0, "division by zero");
        self * o.pow(TInt(P - 2))
    }
}
impl<const P: u32, const NB: usize> Zero for Tiny<P, NB> {
    fn zero() -> Self {
        Tiny(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u32, const NB: usize> One for Tiny<P, NB> {
    fn one() -> Self {
        Tiny(1)
    }
}
impl<const P: u32, const NB: usize> ConstZero for Tiny<P, NB> {
    const ZERO: Self = Tiny(0);
}
impl<const P: u32, const NB: usize> ConstOne for Tiny<P, NB> {
    const ONE: Self = Tiny(1);
}
impl<const P: u32, const NB: usize> FieldElement for Tiny<P, NB> {
    type Integer = TInt<NB>;
    const BITS: u32 = 32 - P.leading_zeros();
    fn to_degree(&self) -> u64 {
        self.0 as u64
    }
    fn to_integer(&self) -> TInt<NB> {
        TInt(self.0)
    }
    fn modulus() -> TInt<NB> {
        TInt::chk(P as u64)
    }
    fn pow(self, e: TInt<NB>) -> Self {
        let (mut b, mut e, mut r) = (self, e.0, Tiny(1 % P));
        while e > 0 {
            if e & 1 == 1 {
                r *= b;
            }
            b *= b;
            e >>= 1;
        }
        r
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.to_le_bytes().to_vec()
    }
    fn from_bytes_le(b: &[u8]) -> Self {
        u32::from_le_bytes(b.try_into().unwrap()).into()
    }
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
        u32::from_str_radix(s, radix)
            .map_err(|e| e.to_string())
            .and_then(|v| if v < P { Ok(Tiny(v)) } else { Err("too large".into()) })
    }
    fn checked_from(v: UBig) -> Option<Self> {
        (v < UBig::from(P)).then(|| v.into())
    }
    fn is_in_lower_half(&self) -> bool {
        self.0 <= (P - 1) / 2
    }
    fn known_field() -> Option<KnownField> {
        None
    }
    fn has_direct_repr() -> bool {
        false
    }
}
