//! A pairing engine whose group elements are their discrete logarithms, over any
//! prime field: every equation of the proof system becomes an equation on field
//! elements that the harness computes on its own. Points carry a flag "outside the
//! prime-order subgroup" that only unchecked decoding can produce.
use crate::fp::*;
use ff::Field;
use group::{
    prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup},
    Curve, Group, GroupEncoding, UncompressedEncoding, WnafGroup,
};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop, PairingCurveAffine};
use rand_core::RngCore;
use std::iter::Sum;
use std::ops::*;
use subtle::{Choice, CtOption};

/// 2^60 - 2^18 + 1, two-adicity 18
pub const NTT60: u64 = 1152921504606584833;

macro_rules! group_type {
    ($n:ident, $tag:expr, $c:expr, $u:expr) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, Default)]
        pub struct $n<const P: u64> {
            pub v: Fp<P>,
            pub bad: bool,
        }
        impl<const P: u64> $n<P> {
            pub fn of(v: Fp<P>) -> Self {
                $n { v, bad: false }
            }
            fn enc(&self, out: &mut [u8]) {
                let n = out.len();
                out[0] = $tag + (n as u8 & 0x0f) + if self.bad { 0x80 } else { 0 };
                out[n - 8..].copy_from_slice(&self.v.0.to_be_bytes());
            }
            fn dec(b: &[u8], checked: bool) -> CtOption<Self> {
                let n = b.len();
                let mut w = [0u8; 8];
                w.copy_from_slice(&b[n - 8..]);
                let v = u64::from_be_bytes(w);
                let bad = b[0] & 0x80 != 0;
                let ok = v < P && b[0] & 0x7f == $tag + (n as u8 & 0x0f) && b[1..n - 8].iter().all(|x| *x == 0) && !(bad && checked);
                CtOption::new($n { v: Fp(v % P), bad }, Choice::from(ok as u8))
            }
        }
        impl<const P: u64> Neg for $n<P> {
            type Output = Self;
            fn neg(self) -> Self {
                $n { v: -self.v, bad: self.bad }
            }
        }
        impl<const P: u64> Add for $n<P> {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                $n { v: self.v + o.v, bad: self.bad ^ o.bad }
            }
        }
        impl<const P: u64> Sub for $n<P> {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                $n { v: self.v - o.v, bad: self.bad ^ o.bad }
            }
        }
        impl<'a, const P: u64> Add<&'a $n<P>> for $n<P> {
            type Output = Self;
            fn add(self, o: &'a Self) -> Self {
                self + *o
            }
        }
        impl<'a, const P: u64> Sub<&'a $n<P>> for $n<P> {
            type Output = Self;
            fn sub(self, o: &'a Self) -> Self {
                self - *o
            }
        }
        impl<const P: u64> AddAssign for $n<P> {
            fn add_assign(&mut self, o: Self) {
                *self = *self + o;
            }
        }
        impl<const P: u64> SubAssign for $n<P> {
            fn sub_assign(&mut self, o: Self) {
                *self = *self - o;
            }
        }
        impl<'a, const P: u64> AddAssign<&'a $n<P>> for $n<P> {
            fn add_assign(&mut self, o: &'a Self) {
                *self = *self + *o;
            }
        }
        impl<'a, const P: u64> SubAssign<&'a $n<P>> for $n<P> {
            fn sub_assign(&mut self, o: &'a Self) {
                *self = *self - *o;
            }
        }
        impl<const P: u64> Mul<Fp<P>> for $n<P> {
            type Output = Self;
            fn mul(self, s: Fp<P>) -> Self {
                $n { v: self.v * s, bad: self.bad && s.0 & 1 == 1 }
            }
        }
        impl<'a, const P: u64> Mul<&'a Fp<P>> for $n<P> {
            type Output = Self;
            fn mul(self, s: &'a Fp<P>) -> Self {
                self * *s
            }
        }
        impl<const P: u64> MulAssign<Fp<P>> for $n<P> {
            fn mul_assign(&mut self, s: Fp<P>) {
                *self = *self * s;
            }
        }
        impl<'a, const P: u64> MulAssign<&'a Fp<P>> for $n<P> {
            fn mul_assign(&mut self, s: &'a Fp<P>) {
                *self = *self * *s;
            }
        }
        impl<const P: u64> Sum for $n<P> {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Self::default(), |a, b| a + b)
            }
        }
        impl<'a, const P: u64> Sum<&'a $n<P>> for $n<P> {
            fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
                i.fold(Self::default(), |a, b| a + *b)
            }
        }
        impl<const P: u64> Group for $n<P> {
            type Scalar = Fp<P>;
            fn random(r: impl RngCore) -> Self {
                $n::of(Fp::random(r))
            }
            fn identity() -> Self {
                Self::default()
            }
            fn generator() -> Self {
                $n::of(Fp::ONE)
            }
            fn is_identity(&self) -> Choice {
                Choice::from((self.v.0 == 0 && !self.bad) as u8)
            }
            fn double(&self) -> Self {
                *self + *self
            }
        }
        impl<const P: u64> PrimeGroup for $n<P> {}
        impl<const P: u64> Curve for $n<P> {
            type AffineRepr = Self;
            fn to_affine(&self) -> Self {
                *self
            }
        }
        impl<const P: u64> WnafGroup for $n<P> {
            fn recommended_wnaf_for_num_scalars(_: usize) -> usize {
                3
            }
        }
        impl<const P: u64> PrimeCurve for $n<P> {
            type Affine = Self;
        }
        impl<const P: u64> PrimeCurveAffine for $n<P> {
            type Curve = Self;
            type Scalar = Fp<P>;
            fn identity() -> Self {
                Self::default()
            }
            fn generator() -> Self {
                <Self as Group>::generator()
            }
            fn is_identity(&self) -> Choice {
                <Self as Group>::is_identity(self)
            }
            fn to_curve(&self) -> Self {
                *self
            }
        }
        impl<const P: u64> GroupEncoding for $n<P> {
            type Repr = [u8; $c];
            fn from_bytes(b: &[u8; $c]) -> CtOption<Self> {
                Self::dec(b, true)
            }
            fn from_bytes_unchecked(b: &[u8; $c]) -> CtOption<Self> {
                Self::dec(b, false)
            }
            fn to_bytes(&self) -> [u8; $c] {
                let mut o = [0; $c];
                self.enc(&mut o);
                o
            }
        }
        impl<const P: u64> UncompressedEncoding for $n<P> {
            type Uncompressed = [u8; $u];
            fn from_uncompressed(b: &[u8; $u]) -> CtOption<Self> {
                Self::dec(b, true)
            }
            fn from_uncompressed_unchecked(b: &[u8; $u]) -> CtOption<Self> {
                Self::dec(b, false)
            }
            fn to_uncompressed(&self) -> [u8; $u] {
                let mut o = [0; $u];
                self.enc(&mut o);
                o
            }
        }
    };
}
group_type!(D1, 0x10, 9, 11);
group_type!(D2, 0x20, 12, 15);
group_type!(Dt, 0x30, 13, 14);

#[derive(Clone, Debug)]
pub struct Eng<const P: u64>;
#[derive(Clone, Debug)]
pub struct Prep<const P: u64>(pub D2<P>);
impl<const P: u64> From<D2<P>> for Prep<P> {
    fn from(x: D2<P>) -> Self {
        Prep(x)
    }
}
impl<const P: u64> Engine for Eng<P> {
    type Fr = Fp<P>;
    type G1 = D1<P>;
    type G1Affine = D1<P>;
    type G2 = D2<P>;
    type G2Affine = D2<P>;
    type Gt = Dt<P>;
    fn pairing(p: &D1<P>, q: &D2<P>) -> Dt<P> {
        Dt::of(p.v * q.v)
    }
}
impl<const P: u64> PairingCurveAffine for D1<P> {
    type Pair = D2<P>;
    type PairingResult = Dt<P>;
    fn pairing_with(&self, o: &D2<P>) -> Dt<P> {
        Dt::of(self.v * o.v)
    }
}
impl<const P: u64> PairingCurveAffine for D2<P> {
    type Pair = D1<P>;
    type PairingResult = Dt<P>;
    fn pairing_with(&self, o: &D1<P>) -> Dt<P> {
        Dt::of(self.v * o.v)
    }
}
/// before the final exponentiation: twice the exponent, so that skipping or repeating it shows
#[derive(Clone, Copy, Debug, Default)]
pub struct Ml<const P: u64>(Fp<P>);
impl<const P: u64> Add for Ml<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Ml(self.0 + o.0)
    }
}
impl<'a, const P: u64> Add<&'a Ml<P>> for Ml<P> {
    type Output = Self;
    fn add(self, o: &'a Self) -> Self {
        Ml(self.0 + o.0)
    }
}
impl<const P: u64> AddAssign for Ml<P> {
    fn add_assign(&mut self, o: Self) {
        self.0 += o.0;
    }
}
impl<'a, const P: u64> AddAssign<&'a Ml<P>> for Ml<P> {
    fn add_assign(&mut self, o: &'a Self) {
        self.0 += o.0;
    }
}
impl<const P: u64> MillerLoopResult for Ml<P> {
    type Gt = Dt<P>;
    fn final_exponentiation(&self) -> Dt<P> {
        Dt::of(self.0)
    }
}
impl<const P: u64> MultiMillerLoop for Eng<P> {
    type G2Prepared = Prep<P>;
    type Result = Ml<P>;
    fn multi_miller_loop(t: &[(&D1<P>, &Prep<P>)]) -> Ml<P> {
        Ml(t.iter().fold(Fp::ZERO, |a, (x, y)| a + x.v * y.0.v))
    }
}
impl<const P: u64> group::cofactor::CofactorGroup for D1<P> {
    type Subgroup = Self;
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn into_subgroup(self) -> CtOption<Self> {
        CtOption::new(self, Choice::from(1))
    }
    fn is_small_order(&self) -> Choice {
        Group::is_identity(self)
    }
    fn is_torsion_free(&self) -> Choice {
        Choice::from(1)
    }
}
impl<const P: u64> group::cofactor::CofactorCurve for D1<P> {
    type Affine = Self;
}
impl<const P: u64> group::cofactor::CofactorCurveAffine for D1<P> {
    type Scalar = Fp<P>;
    type Curve = Self;
    fn identity() -> Self {
        Self::default()
    }
    fn generator() -> Self {
        <Self as Group>::generator()
    }
    fn is_identity(&self) -> Choice {
        Group::is_identity(self)
    }
    fn to_curve(&self) -> Self {
        *self
    }
}
