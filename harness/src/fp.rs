//! A prime field of any odd prime order below 2^64 (plain integers mod P), written
//! for the harness: small orders make assignments enumerable.
use ff::{Field, FieldBits, PrimeField, PrimeFieldBits};
use rand_core::RngCore;
use std::iter::{Product, Sum};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Fp<const P: u64>(pub u64);

pub const fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % (p as u128)) as u64
}
pub const fn powm(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    a %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, p);
        }
        a = mulm(a, a, p);
        e >>= 1;
    }
    r
}
const fn is_gen(g: u64, p: u64) -> bool {
    let mut m = p - 1;
    let mut q = 2;
    while m > 1 {
        if q * q > m {
            q = m;
        }
        if m % q == 0 {
            if powm(g, (p - 1) / q, p) == 1 {
                return false;
            }
            while m % q == 0 {
                m /= q;
            }
        }
        q += 1;
    }
    true
}
const fn gen(p: u64) -> u64 {
    let mut g = 2;
    while !is_gen(g, p) {
        g += 1;
    }
    g
}
const fn inv(a: u64, p: u64) -> u64 {
    powm(a, p - 2, p)
}
const fn s_of(p: u64) -> u32 {
    (p - 1).trailing_zeros()
}

impl<const P: u64> Fp<P> {
    pub const BITS: u32 = 64 - P.leading_zeros();
    pub const GEN: u64 = gen(P);
    pub const ROOT: u64 = powm(Self::GEN, (P - 1) >> s_of(P), P);
    pub fn new(x: u64) -> Self {
        Fp(x % P)
    }
}
impl<const P: u64> ConstantTimeEq for Fp<P> {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl<const P: u64> ConditionallySelectable for Fp<P> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Fp(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64> From<u64> for Fp<P> {
    fn from(x: u64) -> Self {
        Fp(x % P)
    }
}
impl<const P: u64> Neg for Fp<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Fp(if self.0 == 0 { 0 } else { P - self.0 })
    }
}
macro_rules! binop {
    ($t:ident, $m:ident, $at:ident, $am:ident, $f:expr) => {
        impl<const P: u64> $t for Fp<P> {
            type Output = Self;
            fn $m(self, o: Self) -> Self {
                let f: fn(u64, u64, u64) -> u64 = $f;
                Fp(f(self.0, o.0, P))
            }
        }
        impl<'a, const P: u64> $t<&'a Fp<P>> for Fp<P> {
            type Output = Self;
            fn $m(self, o: &'a Self) -> Self {
                self.$m(*o)
            }
        }
        impl<const P: u64> $at for Fp<P> {
            fn $am(&mut self, o: Self) {
                *self = (*self).$m(o);
            }
        }
        impl<'a, const P: u64> $at<&'a Fp<P>> for Fp<P> {
            fn $am(&mut self, o: &'a Self) {
                *self = (*self).$m(*o);
            }
        }
    };
}
binop!(Add, add, AddAssign, add_assign, |a, b, p| ((a as u128 + b as u128) % p as u128) as u64);
binop!(Sub, sub, SubAssign, sub_assign, |a, b, p| ((a as u128 + p as u128 - b as u128) % p as u128) as u64);
binop!(Mul, mul, MulAssign, mul_assign, mulm);
impl<const P: u64> Sum for Fp<P> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<'a, const P: u64> Sum<&'a Fp<P>> for Fp<P> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(0), |a, b| a + b)
    }
}
impl<const P: u64> Product for Fp<P> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<'a, const P: u64> Product<&'a Fp<P>> for Fp<P> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Fp(1), |a, b| a * b)
    }
}
impl<const P: u64> Field for Fp<P> {
    const ZERO: Self = Fp(0);
    const ONE: Self = Fp(1);
    fn random(mut r: impl RngCore) -> Self {
        Fp(r.next_u64() % P)
    }
    fn is_zero_vartime(&self) -> bool {
        self.0 == 0
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Fp(inv(self.0, P)), !self.0.ct_eq(&0))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        ff::helpers::sqrt_ratio_generic(num, div)
    }
    fn sqrt(&self) -> CtOption<Self> {
        if self.0 == 0 {
            return CtOption::new(*self, Choice::from(1));
        }
        // Tonelli-Shanks
        if powm(self.0, (P - 1) / 2, P) != 1 {
            return CtOption::new(Fp(0), Choice::from(0));
        }
        let s = s_of(P);
        let t = (P - 1) >> s;
        let mut c = Self::ROOT;
        let mut x = powm(self.0, (t + 1) / 2, P);
        let mut b = powm(self.0, t, P);
        let mut m = s;
        while b != 1 {
            let mut i = 0;
            let mut z = b;
            while z != 1 {
                z = mulm(z, z, P);
                i += 1;
            }
            let mut w = c;
            for _ in 0..(m - i - 1) {
                w = mulm(w, w, P);
            }
            x = mulm(x, w, P);
            c = mulm(w, w, P);
            b = mulm(b, c, P);
            m = i;
        }
        CtOption::new(Fp(x), Choice::from(1))
    }
}
#[derive(Copy, Clone, Default, Debug, PartialEq, Eq)]
pub struct Repr(pub [u8; 8]);
impl AsRef<[u8]> for Repr {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for Repr {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl<const P: u64> PrimeField for Fp<P> {
    type Repr = Repr;
    const MODULUS: &'static str = "0x";
    const NUM_BITS: u32 = Self::BITS;
    const CAPACITY: u32 = Self::BITS - 1;
    const TWO_INV: Self = Fp((P + 1) / 2);
    const MULTIPLICATIVE_GENERATOR: Self = Fp(Self::GEN);
    const S: u32 = s_of(P);
    const ROOT_OF_UNITY: Self = Fp(Self::ROOT);
    const ROOT_OF_UNITY_INV: Self = Fp(inv(Self::ROOT, P));
    const DELTA: Self = Fp(powm(Self::GEN, 1 << s_of(P), P));
    fn from_repr(r: Repr) -> CtOption<Self> {
        let x = u64::from_le_bytes(r.0);
        CtOption::new(Fp(x % P), Choice::from((x < P) as u8))
    }
    fn to_repr(&self) -> Repr {
        Repr(self.0.to_le_bytes())
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
}
impl<const P: u64> PrimeFieldBits for Fp<P> {
    type ReprBits = [u64; 1];
    fn to_le_bits(&self) -> FieldBits<[u64; 1]> {
        FieldBits::new([self.0])
    }
    fn char_le_bits() -> FieldBits<[u64; 1]> {
        FieldBits::new([P])
    }
}
/// 64-bit modulus with capacity 63 (2^64 - 2^32 + 1)
pub const GOLD: u64 = 18446744069414584321;
