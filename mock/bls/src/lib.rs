//! Small stand-in for `cosmian_bls12_381`: elements are logarithms modulo 2^31-1.
#![allow(clippy::all)]
pub mod sym;

use core::borrow::Borrow;
use core::fmt;
use core::hash::{Hash, Hasher};
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, PrimeField};
use group::{Curve, Group};
use rand_core::RngCore;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

macro_rules! element {
    ($t:ident) => {
        /// symbolic element
        #[derive(Clone, Copy)]
        pub struct $t(pub(crate) u32);
        impl $t {
            /// handle in the symbolic arena
            pub fn handle(&self) -> u32 {
                self.0
            }
            /// from a handle in the symbolic arena
            pub fn from_handle(h: u32) -> Self {
                $t(h)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({})", stringify!($t), self.0)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({})", stringify!($t), self.0)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                sym::equal(self.0, o.0)
            }
        }
        impl Eq for $t {}
        impl Hash for $t {
            fn hash<H: Hasher>(&self, s: &mut H) {
                self.0.hash(s)
            }
        }
        impl ConstantTimeEq for $t {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from(u8::from(self == o))
            }
        }
        impl ConditionallySelectable for $t {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                if bool::from(c) {
                    *b
                } else {
                    *a
                }
            }
        }
        impl Default for $t {
            fn default() -> Self {
                $t(0)
            }
        }
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t(sym::neg(self.0))
            }
        }
        impl<'a> Neg for &'a $t {
            type Output = $t;
            fn neg(self) -> $t {
                $t(sym::neg(self.0))
            }
        }
    };
}

macro_rules! binop {
    ($tr:ident, $m:ident, $f:path, $l:ty, $r:ty, $o:ident) => {
        impl $tr<$r> for $l {
            type Output = $o;
            fn $m(self, r: $r) -> $o {
                $o($f(self.0, r.0))
            }
        }
        impl<'b> $tr<&'b $r> for $l {
            type Output = $o;
            fn $m(self, r: &'b $r) -> $o {
                $o($f(self.0, r.0))
            }
        }
        impl<'a> $tr<$r> for &'a $l {
            type Output = $o;
            fn $m(self, r: $r) -> $o {
                $o($f(self.0, r.0))
            }
        }
        impl<'a, 'b> $tr<&'b $r> for &'a $l {
            type Output = $o;
            fn $m(self, r: &'b $r) -> $o {
                $o($f(self.0, r.0))
            }
        }
    };
}

macro_rules! assignop {
    ($tr:ident, $m:ident, $f:path, $l:ty, $r:ty) => {
        impl $tr<$r> for $l {
            fn $m(&mut self, r: $r) {
                self.0 = $f(self.0, r.0);
            }
        }
        impl<'b> $tr<&'b $r> for $l {
            fn $m(&mut self, r: &'b $r) {
                self.0 = $f(self.0, r.0);
            }
        }
    };
}

macro_rules! additive {
    ($t:ident) => {
        binop!(Add, add, sym::add, $t, $t, $t);
        binop!(Sub, sub, sym::sub, $t, $t, $t);
        assignop!(AddAssign, add_assign, sym::add, $t, $t);
        assignop!(SubAssign, sub_assign, sym::sub, $t, $t);
        impl<T: Borrow<$t>> Sum<T> for $t {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold($t(0), |a, b| $t(sym::add(a.0, b.borrow().0)))
            }
        }
    };
}

// ---------------------------------------------------------------- Scalar
element!(Scalar);
additive!(Scalar);
binop!(Mul, mul, sym::mul, Scalar, Scalar, Scalar);
assignop!(MulAssign, mul_assign, sym::mul, Scalar, Scalar);

impl From<u64> for Scalar {
    fn from(x: u64) -> Self {
        Scalar(sym::small(x))
    }
}

const TAG_SCALAR: u8 = 0x11;
const TAG_G1: u8 = 0x91;
const TAG_G2: u8 = 0x92;
const TAG_GT: u8 = 0x93;

impl Scalar {
    pub const fn zero() -> Scalar {
        Scalar(0)
    }
    pub const fn one() -> Scalar {
        Scalar(1)
    }
    pub fn double(&self) -> Scalar {
        Scalar(sym::add(self.0, self.0))
    }
    pub fn square(&self) -> Scalar {
        Scalar(sym::mul(self.0, self.0))
    }
    pub fn add(&self, r: &Self) -> Scalar {
        Scalar(sym::add(self.0, r.0))
    }
    pub fn sub(&self, r: &Self) -> Scalar {
        Scalar(sym::sub(self.0, r.0))
    }
    pub fn mul(&self, r: &Self) -> Scalar {
        Scalar(sym::mul(self.0, r.0))
    }
    pub fn neg(&self) -> Scalar {
        Scalar(sym::neg(self.0))
    }
    pub fn from_bytes(b: &[u8; 32]) -> CtOption<Scalar> {
        match sym::decode(TAG_SCALAR, b) {
            Some(h) => CtOption::new(Scalar(h), Choice::from(1)),
            None => CtOption::new(Scalar(0), Choice::from(0)),
        }
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        let mut o = [0; 32];
        sym::encode(TAG_SCALAR, self.0, &mut o);
        o
    }
    pub fn from_bytes_wide(b: &[u8; 64]) -> Scalar {
        Scalar(sym::draw(&b[..]))
    }
    pub fn from_raw(v: [u64; 4]) -> Self {
        let mut b = [0; 32];
        for i in 0..4 {
            b[8 * i..8 * i + 8].copy_from_slice(&v[i].to_le_bytes());
        }
        Scalar(sym::draw(&b[..]))
    }
    pub fn pow(&self, by: &[u64; 4]) -> Self {
        let mut res = Scalar(1);
        for e in by.iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                if (*e >> i) & 1 == 1 {
                    res = Scalar(sym::mul(res.0, self.0));
                }
            }
        }
        res
    }
    pub fn pow_vartime(&self, by: &[u64; 4]) -> Self {
        self.pow(by)
    }
    pub fn invert(&self) -> CtOption<Self> {
        match sym::inv(self.0) {
            Some(h) => CtOption::new(Scalar(h), Choice::from(1)),
            None => CtOption::new(Scalar(0), Choice::from(0)),
        }
    }
    pub fn sqrt(&self) -> CtOption<Self> {
        unimplemented!("symbls: sqrt")
    }
}

impl From<Scalar> for [u8; 32] {
    fn from(s: Scalar) -> [u8; 32] {
        s.to_bytes()
    }
}

impl<'a> From<&'a Scalar> for [u8; 32] {
    fn from(s: &'a Scalar) -> [u8; 32] {
        s.to_bytes()
    }
}

impl Field for Scalar {
    fn random(mut rng: impl RngCore) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        Scalar(sym::draw(&b[..]))
    }
    fn zero() -> Self {
        Scalar(0)
    }
    fn one() -> Self {
        Scalar(1)
    }
    fn is_zero(&self) -> bool {
        sym::is_zero(self.0)
    }
    fn square(&self) -> Self {
        self.square()
    }
    fn double(&self) -> Self {
        self.double()
    }
    fn invert(&self) -> CtOption<Self> {
        self.invert()
    }
    fn sqrt(&self) -> CtOption<Self> {
        unimplemented!("symbls: sqrt")
    }
}

impl PrimeField for Scalar {
    type Repr = [u8; 32];
    type ReprBits = [u8; 32];
    const NUM_BITS: u32 = 255;
    const CAPACITY: u32 = 254;
    const S: u32 = 32;
    fn from_repr(r: [u8; 32]) -> Option<Self> {
        Self::from_bytes(&r).into()
    }
    fn to_repr(&self) -> [u8; 32] {
        self.to_bytes()
    }
    fn to_le_bits(&self) -> ff::FieldBits<[u8; 32]> {
        unimplemented!("symbls: bits")
    }
    fn is_odd(&self) -> bool {
        unimplemented!("symbls: bits")
    }
    fn char_le_bits() -> ff::FieldBits<[u8; 32]> {
        unimplemented!("symbls: bits")
    }
    fn multiplicative_generator() -> Self {
        Scalar(7)
    }
    fn root_of_unity() -> Self {
        unimplemented!("symbls: root of unity")
    }
}

// ---------------------------------------------------------------- curves
macro_rules! curve {
    ($aff:ident, $proj:ident, $tag:expr, $clen:expr, $ulen:expr) => {
        element!($aff);
        element!($proj);
        additive!($proj);
        binop!(Add, add, sym::add, $aff, $proj, $proj);
        binop!(Add, add, sym::add, $proj, $aff, $proj);
        binop!(Sub, sub, sym::sub, $aff, $proj, $proj);
        binop!(Sub, sub, sym::sub, $proj, $aff, $proj);
        assignop!(AddAssign, add_assign, sym::add, $proj, $aff);
        assignop!(SubAssign, sub_assign, sym::sub, $proj, $aff);
        binop!(Mul, mul, sym::mul, $proj, Scalar, $proj);
        binop!(Mul, mul, sym::mul, $aff, Scalar, $proj);
        assignop!(MulAssign, mul_assign, sym::mul, $proj, Scalar);
        impl From<$proj> for $aff {
            fn from(x: $proj) -> Self {
                $aff(x.0)
            }
        }
        impl<'a> From<&'a $proj> for $aff {
            fn from(x: &'a $proj) -> Self {
                $aff(x.0)
            }
        }
        impl From<$aff> for $proj {
            fn from(x: $aff) -> Self {
                $proj(x.0)
            }
        }
        impl<'a> From<&'a $aff> for $proj {
            fn from(x: &'a $aff) -> Self {
                $proj(x.0)
            }
        }
        impl $aff {
            pub fn identity() -> Self {
                $aff(0)
            }
            pub fn generator() -> Self {
                $aff(1)
            }
            pub fn to_compressed(&self) -> [u8; $clen] {
                let mut o = [0; $clen];
                sym::encode($tag, self.0, &mut o);
                o
            }
            pub fn to_uncompressed(&self) -> [u8; $ulen] {
                let mut o = [0; $ulen];
                sym::encode($tag, self.0, &mut o);
                o
            }
            pub fn from_compressed(b: &[u8; $clen]) -> CtOption<Self> {
                match sym::decode($tag, b) {
                    Some(h) => CtOption::new($aff(h), Choice::from(1)),
                    None => CtOption::new($aff(0), Choice::from(0)),
                }
            }
            pub fn from_compressed_unchecked(b: &[u8; $clen]) -> CtOption<Self> {
                Self::from_compressed(b)
            }
            pub fn from_uncompressed(b: &[u8; $ulen]) -> CtOption<Self> {
                match sym::decode($tag, b) {
                    Some(h) => CtOption::new($aff(h), Choice::from(1)),
                    None => CtOption::new($aff(0), Choice::from(0)),
                }
            }
            pub fn from_uncompressed_unchecked(b: &[u8; $ulen]) -> CtOption<Self> {
                Self::from_uncompressed(b)
            }
            pub fn is_identity(&self) -> Choice {
                Choice::from(u8::from(sym::is_zero(self.0)))
            }
            pub fn is_torsion_free(&self) -> Choice {
                Choice::from(1)
            }
            pub fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
        }
        impl $proj {
            pub fn identity() -> Self {
                $proj(0)
            }
            pub fn generator() -> Self {
                $proj(1)
            }
            pub fn double(&self) -> Self {
                $proj(sym::add(self.0, self.0))
            }
            pub fn add(&self, r: &Self) -> Self {
                $proj(sym::add(self.0, r.0))
            }
            pub fn add_mixed(&self, r: &$aff) -> Self {
                $proj(sym::add(self.0, r.0))
            }
            pub fn batch_normalize(p: &[Self], q: &mut [$aff]) {
                assert_eq!(p.len(), q.len());
                for (a, b) in p.iter().zip(q.iter_mut()) {
                    *b = $aff(a.0);
                }
            }
            pub fn is_identity(&self) -> Choice {
                Choice::from(u8::from(sym::is_zero(self.0)))
            }
            pub fn is_on_curve(&self) -> Choice {
                Choice::from(1)
            }
        }
        impl Group for $proj {
            type Scalar = Scalar;
            fn random(mut rng: impl RngCore) -> Self {
                let mut b = [0u8; 64];
                rng.fill_bytes(&mut b);
                $proj(sym::draw(&b[..]))
            }
            fn identity() -> Self {
                $proj(0)
            }
            fn generator() -> Self {
                $proj(1)
            }
            fn is_identity(&self) -> Choice {
                self.is_identity()
            }
            fn double(&self) -> Self {
                self.double()
            }
        }
        impl Curve for $proj {
            type AffineRepr = $aff;
            fn to_affine(&self) -> $aff {
                $aff(self.0)
            }
        }
    };
}

curve!(G1Affine, G1Projective, TAG_G1, 48, 96);
curve!(G2Affine, G2Projective, TAG_G2, 96, 192);

// ---------------------------------------------------------------- pairing
/// prepared G2 element
#[derive(Clone, Debug)]
pub struct G2Prepared(pub(crate) u32);

impl G2Prepared {
    pub fn handle(&self) -> u32 {
        self.0
    }
}

impl From<G2Affine> for G2Prepared {
    fn from(q: G2Affine) -> Self {
        G2Prepared(q.0)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct MillerLoopResult(u32);

impl Default for MillerLoopResult {
    fn default() -> Self {
        MillerLoopResult(0)
    }
}

impl MillerLoopResult {
    pub fn final_exponentiation(&self) -> Gt {
        Gt(self.0)
    }
}

binop!(Add, add, sym::add, MillerLoopResult, MillerLoopResult, MillerLoopResult);
assignop!(AddAssign, add_assign, sym::add, MillerLoopResult, MillerLoopResult);

pub fn multi_miller_loop(terms: &[(&G1Affine, &G2Prepared)]) -> MillerLoopResult {
    let mut r = 0;
    for (i, (p, q)) in terms.iter().enumerate() {
        let t = sym::mul(p.0, q.0);
        r = if i == 0 { t } else { sym::add(r, t) };
    }
    MillerLoopResult(r)
}

pub fn pairing(p: &G1Affine, q: &G2Affine) -> Gt {
    Gt(sym::mul(p.0, q.0))
}

element!(Gt);
additive!(Gt);
binop!(Mul, mul, sym::mul, Gt, Scalar, Gt);
assignop!(MulAssign, mul_assign, sym::mul, Gt, Scalar);

impl Gt {
    pub fn identity() -> Gt {
        Gt(0)
    }
    pub fn double(&self) -> Gt {
        Gt(sym::add(self.0, self.0))
    }
    pub fn to_compressed(&self) -> [u8; 288] {
        let mut o = [0; 288];
        sym::encode(TAG_GT, self.0, &mut o);
        o
    }
    pub fn from_compressed(b: &[u8; 288]) -> CtOption<Self> {
        match sym::decode(TAG_GT, b) {
            Some(h) => CtOption::new(Gt(h), Choice::from(1)),
            None => CtOption::new(Gt(0), Choice::from(0)),
        }
    }
    pub fn from_compressed_unchecked(b: &[u8; 288]) -> CtOption<Self> {
        Self::from_compressed(b)
    }
    pub fn to_uncompressed(&self) -> [u8; 576] {
        let mut o = [0; 576];
        sym::encode(TAG_GT, self.0, &mut o);
        o
    }
    pub fn from_uncompressed(b: &[u8; 576]) -> CtOption<Self> {
        match sym::decode(TAG_GT, b) {
            Some(h) => CtOption::new(Gt(h), Choice::from(1)),
            None => CtOption::new(Gt(0), Choice::from(0)),
        }
    }
}

impl Group for Gt {
    type Scalar = Scalar;
    fn random(mut rng: impl RngCore) -> Self {
        let mut b = [0u8; 64];
        rng.fill_bytes(&mut b);
        Gt(sym::draw(&b[..]))
    }
    fn identity() -> Self {
        Gt(0)
    }
    fn generator() -> Self {
        Gt(1)
    }
    fn is_identity(&self) -> Choice {
        Choice::from(u8::from(sym::is_zero(self.0)))
    }
    fn double(&self) -> Self {
        self.double()
    }
}
