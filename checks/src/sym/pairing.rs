//! Symbolic target group and pairing.
use super::engine::*;
use super::field::{de_tag, ser_tag, SymF};
use super::group::*;
use super::q::Q;
use ark_bls12_381::Fr;
use ark_ec::pairing::{MillerLoopOutput, Pairing, PairingOutput};
use ark_ff::{CyclotomicMultSubgroup, Field, LegendreSymbol, SqrtPrecomputation};
use ark_ff::{One, Zero};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use std::cmp::Ordering;
use std::ops::*;

pub const K_GT: u8 = 9;

/// Element of the order-r subgroup of the target field (its logarithm), or the field's zero.
#[derive(Clone, Copy)]
pub struct SymGT {
    pub l: T,
    pub z: bool,
}
const fn gt(l: T) -> SymGT {
    SymGT { l, z: false }
}
impl std::fmt::Debug for SymGT {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.z {
            write!(f, "GT0")
        } else {
            write!(f, "GT[{}]", st().show(self.l))
        }
    }
}
impl std::fmt::Display for SymGT {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl Default for SymGT {
    // the default of a field is its zero, but PairingOutput::default() is only used as a neutral filler
    fn default() -> Self {
        SymGT { l: T_ZERO, z: true }
    }
}
impl PartialEq for SymGT {
    fn eq(&self, o: &Self) -> bool {
        if self.z || o.z {
            return self.z == o.z;
        }
        SymF(self.l) == SymF(o.l)
    }
}
impl Eq for SymGT {}
impl PartialOrd for SymGT {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymGT {
    fn cmp(&self, o: &Self) -> Ordering {
        if self == o {
            return Ordering::Equal;
        }
        unsupported("ordering of symbolic target field elements")
    }
}
impl std::hash::Hash for SymGT {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        std::hash::Hash::hash(&SymF(self.l), h)
    }
}
impl zeroize::Zeroize for SymGT {
    fn zeroize(&mut self) {
        *self = SymGT::default()
    }
}
impl Zero for SymGT {
    fn zero() -> Self {
        SymGT::default()
    }
    fn is_zero(&self) -> bool {
        self.z
    }
}
impl One for SymGT {
    fn one() -> Self {
        gt(T_ZERO)
    }
    fn is_one(&self) -> bool {
        !self.z && st().is_zero(self.l)
    }
}
impl Neg for SymGT {
    type Output = SymGT;
    fn neg(self) -> SymGT {
        unsupported("negation in the target field")
    }
}
fn g_add(_a: SymGT, _b: SymGT) -> SymGT {
    if _a.z {
        return _b;
    }
    if _b.z {
        return _a;
    }
    unsupported("addition in the target field")
}
fn g_sub(_a: SymGT, _b: SymGT) -> SymGT {
    unsupported("subtraction in the target field")
}
fn g_mul(a: SymGT, b: SymGT) -> SymGT {
    if a.z || b.z {
        return SymGT::default();
    }
    gt(st().add(a.l, b.l))
}
fn g_div(a: SymGT, b: SymGT) -> SymGT {
    if b.z {
        panic!("division by zero");
    }
    if a.z {
        return a;
    }
    gt(st().sub(a.l, b.l))
}
macro_rules! bin {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
        impl $tr<SymGT> for SymGT {
            type Output = SymGT;
            fn $m(self, o: SymGT) -> SymGT {
                $f(self, o)
            }
        }
        impl<'a> $tr<&'a SymGT> for SymGT {
            type Output = SymGT;
            fn $m(self, o: &'a SymGT) -> SymGT {
                $f(self, *o)
            }
        }
        impl<'a> $tr<&'a mut SymGT> for SymGT {
            type Output = SymGT;
            fn $m(self, o: &'a mut SymGT) -> SymGT {
                $f(self, *o)
            }
        }
        impl $tra<SymGT> for SymGT {
            fn $ma(&mut self, o: SymGT) {
                *self = $f(*self, o)
            }
        }
        impl<'a> $tra<&'a SymGT> for SymGT {
            fn $ma(&mut self, o: &'a SymGT) {
                *self = $f(*self, *o)
            }
        }
        impl<'a> $tra<&'a mut SymGT> for SymGT {
            fn $ma(&mut self, o: &'a mut SymGT) {
                *self = $f(*self, *o)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, g_add);
bin!(Sub, sub, SubAssign, sub_assign, g_sub);
bin!(Mul, mul, MulAssign, mul_assign, g_mul);
bin!(Div, div, DivAssign, div_assign, g_div);
impl std::iter::Sum<SymGT> for SymGT {
    fn sum<I: Iterator<Item = SymGT>>(i: I) -> SymGT {
        i.fold(SymGT::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a SymGT> for SymGT {
    fn sum<I: Iterator<Item = &'a SymGT>>(i: I) -> SymGT {
        i.fold(SymGT::zero(), |a, b| a + b)
    }
}
impl std::iter::Product<SymGT> for SymGT {
    fn product<I: Iterator<Item = SymGT>>(i: I) -> SymGT {
        i.fold(SymGT::one(), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a SymGT> for SymGT {
    fn product<I: Iterator<Item = &'a SymGT>>(i: I) -> SymGT {
        i.fold(SymGT::one(), |a, b| a * b)
    }
}
macro_rules! froms {
    ($($t:ty),*) => { $( impl From<$t> for SymGT { fn from(v: $t) -> SymGT {
        let v = v as u128;
        if v == 0 { SymGT::zero() } else if v == 1 { SymGT::one() } else { unsupported("integer in the target field") }
    } } )* };
}
froms!(u128, u64, u32, u16, u8, bool);
impl Distribution<SymGT> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SymGT {
        let f: SymF = self.sample(rng);
        gt(f.0)
    }
}
impl CanonicalSerialize for SymGT {
    fn serialize_with_mode<W: Write>(&self, w: W, _c: Compress) -> Result<(), SerializationError> {
        ser_tag(w, self.l, if self.z { K_GT + 1 } else { K_GT })
    }
    fn serialized_size(&self, _c: Compress) -> usize {
        32
    }
}
impl CanonicalSerializeWithFlags for SymGT {
    fn serialize_with_flags<W: Write, F: Flags>(&self, _w: W, _f: F) -> Result<(), SerializationError> {
        unsupported("target field with flags")
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        33
    }
}
impl Valid for SymGT {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for SymGT {
    fn deserialize_with_mode<R: Read>(mut r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
        let mut b = [0u8; 32];
        r.read_exact(&mut b)?;
        if let Ok(l) = de_tag(&b[..], K_GT) {
            return Ok(gt(l));
        }
        de_tag(&b[..], K_GT + 1).map(|l| SymGT { l, z: true })
    }
}
impl CanonicalDeserializeWithFlags for SymGT {
    fn deserialize_with_flags<R: Read, F: Flags>(_r: R) -> Result<(Self, F), SerializationError> {
        unsupported("target field with flags")
    }
}
impl Field for SymGT {
    type BasePrimeField = SymF;
    type BasePrimeFieldIter = std::iter::Empty<SymF>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = SymGT { l: T_ZERO, z: true };
    const ONE: Self = gt(T_ZERO);
    fn characteristic() -> &'static [u64] {
        <Fr as Field>::characteristic()
    }
    fn extension_degree() -> u64 {
        12
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        unsupported("coordinates of a target field element")
    }
    fn from_base_prime_field_elems(_e: &[SymF]) -> Option<Self> {
        unsupported("coordinates of a target field element")
    }
    fn from_base_prime_field(_e: SymF) -> Self {
        unsupported("coordinates of a target field element")
    }
    fn double(&self) -> Self {
        unsupported("addition in the target field")
    }
    fn double_in_place(&mut self) -> &mut Self {
        unsupported("addition in the target field")
    }
    fn neg_in_place(&mut self) -> &mut Self {
        unsupported("negation in the target field")
    }
    fn from_random_bytes_with_flags<F: Flags>(_b: &[u8]) -> Option<(Self, F)> {
        unsupported("target field element from random bytes")
    }
    fn legendre(&self) -> LegendreSymbol {
        unsupported("legendre")
    }
    fn square(&self) -> Self {
        if self.z {
            return *self;
        }
        gt(st().scale(self.l, &Q::int(2)))
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        if self.z {
            None
        } else {
            Some(gt(st().neg(self.l)))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        match self.inverse() {
            Some(i) => {
                *self = i;
                Some(self)
            }
            None => None,
        }
    }
    fn frobenius_map_in_place(&mut self, _p: usize) {
        unsupported("frobenius in the target field")
    }
    fn pow<S: AsRef<[u64]>>(&self, e: S) -> Self {
        let e = e.as_ref();
        if self.z {
            return if e.iter().all(|x| *x == 0) { SymGT::one() } else { *self };
        }
        if e == <Fr as Field>::characteristic() {
            return SymGT::one();
        }
        gt(mul_limbs(self.l, e))
    }
}
impl CyclotomicMultSubgroup for SymGT {
    const INVERSE_IS_FAST: bool = true;
    fn cyclotomic_exp(&self, e: impl AsRef<[u64]>) -> Self {
        self.pow(e)
    }
    fn cyclotomic_exp_in_place(&mut self, e: impl AsRef<[u64]>) {
        *self = self.pow(e)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Prep<const K: u8>(pub T);
macro_rules! prep_from {
    ($G:ident) => {
        impl<const K: u8> From<$G<K>> for Prep<K> {
            fn from(g: $G<K>) -> Self {
                Prep(g.0)
            }
        }
        impl<'a, const K: u8> From<&'a $G<K>> for Prep<K> {
            fn from(g: &'a $G<K>) -> Self {
                Prep(g.0)
            }
        }
    };
}
prep_from!(SymG);
prep_from!(SymA);
impl<const K: u8> CanonicalSerialize for Prep<K> {
    fn serialize_with_mode<W: Write>(&self, w: W, _c: Compress) -> Result<(), SerializationError> {
        ser_tag(w, self.0, K)
    }
    fn serialized_size(&self, _c: Compress) -> usize {
        32
    }
}
impl<const K: u8> Valid for Prep<K> {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl<const K: u8> CanonicalDeserialize for Prep<K> {
    fn deserialize_with_mode<R: Read>(r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
        de_tag(r, K).map(Prep)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SymP;
impl Pairing for SymP {
    type BaseField = SymF;
    type ScalarField = SymF;
    type G1 = SymG<1>;
    type G1Affine = SymA<1>;
    type G1Prepared = Prep<1>;
    type G2 = SymG<2>;
    type G2Affine = SymA<2>;
    type G2Prepared = Prep<2>;
    type TargetField = SymGT;
    fn multi_miller_loop(
        a: impl IntoIterator<Item = impl Into<Prep<1>>>,
        b: impl IntoIterator<Item = impl Into<Prep<2>>>,
    ) -> MillerLoopOutput<Self> {
        // real engines use zip_eq here: lists of different length panic
        let a: Vec<Prep<1>> = a.into_iter().map(|x| x.into()).collect();
        let b: Vec<Prep<2>> = b.into_iter().map(|x| x.into()).collect();
        if a.len() != b.len() {
            panic!("itertools: .zip_eq() reached end of one iterator before the other");
        }
        let mut s = st();
        let mut acc = T_ZERO;
        for (x, y) in a.iter().zip(&b) {
            let p = s.mul(x.0, y.0);
            acc = s.add(acc, p);
        }
        MillerLoopOutput(gt(acc))
    }
    fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
        if m.0.z {
            None
        } else {
            Some(PairingOutput(m.0))
        }
    }
}
