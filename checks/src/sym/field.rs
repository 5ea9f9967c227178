//! Symbolic prime field.
use super::engine::*;
use super::q::Q;
use ark_bls12_381::Fr;
use ark_ff::{BigInt as ABig, FftField, Field, LegendreSymbol, PrimeField, SqrtPrecomputation};
use ark_ff::{One, Zero};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use num_bigint::{BigInt, BigUint};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct SymF(pub T);

impl SymF {
    pub fn int(i: i64) -> SymF {
        SymF(st().int(BigInt::from(i)))
    }
    pub fn shadow(&self) -> Fr {
        st().shadow[self.0 as usize]
    }
}
impl std::fmt::Debug for SymF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", st().show(self.0))
    }
}
impl std::fmt::Display for SymF {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", st().show(self.0))
    }
}
impl Default for SymF {
    fn default() -> Self {
        SymF(T_ZERO)
    }
}
impl PartialEq for SymF {
    fn eq(&self, o: &SymF) -> bool {
        if self.0 == o.0 {
            return true;
        }
        let mut s = st();
        let d = s.sub(self.0, o.0);
        s.is_zero(d)
    }
}
impl Eq for SymF {}
impl PartialOrd for SymF {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SymF {
    fn cmp(&self, o: &Self) -> Ordering {
        if self == o {
            return Ordering::Equal;
        }
        let s = st();
        if s.const_of(self.0).is_some() && s.const_of(o.0).is_some() {
            return s.shadow[self.0 as usize].cmp(&s.shadow[o.0 as usize]);
        }
        drop(s);
        unsupported("ordering of symbolic field elements")
    }
}
impl std::hash::Hash for SymF {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        std::hash::Hash::hash(&self.shadow(), h)
    }
}
impl zeroize::Zeroize for SymF {
    fn zeroize(&mut self) {
        self.0 = T_ZERO
    }
}
impl Zero for SymF {
    fn zero() -> Self {
        SymF(T_ZERO)
    }
    fn is_zero(&self) -> bool {
        st().is_zero(self.0)
    }
}
impl One for SymF {
    fn one() -> Self {
        SymF(T_ONE)
    }
    fn is_one(&self) -> bool {
        *self == SymF(T_ONE)
    }
}
impl Neg for SymF {
    type Output = SymF;
    fn neg(self) -> SymF {
        SymF(st().neg(self.0))
    }
}
fn f_add(a: T, b: T) -> T {
    st().add(a, b)
}
fn f_sub(a: T, b: T) -> T {
    st().sub(a, b)
}
fn f_mul(a: T, b: T) -> T {
    st().mul(a, b)
}
fn f_div(a: T, b: T) -> T {
    let mut s = st();
    if s.is_zero(b) {
        drop(s);
        panic!("division by zero");
    }
    let i = s.powi(b, -1);
    s.mul(a, i)
}
macro_rules! bin {
    ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
        impl $tr<SymF> for SymF {
            type Output = SymF;
            fn $m(self, o: SymF) -> SymF {
                SymF($f(self.0, o.0))
            }
        }
        impl<'a> $tr<&'a SymF> for SymF {
            type Output = SymF;
            fn $m(self, o: &'a SymF) -> SymF {
                SymF($f(self.0, o.0))
            }
        }
        impl<'a> $tr<&'a mut SymF> for SymF {
            type Output = SymF;
            fn $m(self, o: &'a mut SymF) -> SymF {
                SymF($f(self.0, o.0))
            }
        }
        impl<'b> $tr<SymF> for &'b SymF {
            type Output = SymF;
            fn $m(self, o: SymF) -> SymF {
                SymF($f(self.0, o.0))
            }
        }
        impl<'a, 'b> $tr<&'a SymF> for &'b SymF {
            type Output = SymF;
            fn $m(self, o: &'a SymF) -> SymF {
                SymF($f(self.0, o.0))
            }
        }
        impl $tra<SymF> for SymF {
            fn $ma(&mut self, o: SymF) {
                self.0 = $f(self.0, o.0)
            }
        }
        impl<'a> $tra<&'a SymF> for SymF {
            fn $ma(&mut self, o: &'a SymF) {
                self.0 = $f(self.0, o.0)
            }
        }
        impl<'a> $tra<&'a mut SymF> for SymF {
            fn $ma(&mut self, o: &'a mut SymF) {
                self.0 = $f(self.0, o.0)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, f_add);
bin!(Sub, sub, SubAssign, sub_assign, f_sub);
bin!(Mul, mul, MulAssign, mul_assign, f_mul);
bin!(Div, div, DivAssign, div_assign, f_div);

impl std::iter::Sum<SymF> for SymF {
    fn sum<I: Iterator<Item = SymF>>(i: I) -> SymF {
        i.fold(SymF(T_ZERO), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a SymF> for SymF {
    fn sum<I: Iterator<Item = &'a SymF>>(i: I) -> SymF {
        i.fold(SymF(T_ZERO), |a, b| a + b)
    }
}
impl std::iter::Product<SymF> for SymF {
    fn product<I: Iterator<Item = SymF>>(i: I) -> SymF {
        i.fold(SymF(T_ONE), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a SymF> for SymF {
    fn product<I: Iterator<Item = &'a SymF>>(i: I) -> SymF {
        i.fold(SymF(T_ONE), |a, b| a * b)
    }
}
impl From<u128> for SymF {
    fn from(v: u128) -> SymF {
        if v >> 64 == 0 {
            return SymF(st().int(BigInt::from(v)));
        }
        SymF(st().of_int_challenge(v, 128))
    }
}
impl From<u64> for SymF {
    fn from(v: u64) -> SymF {
        let mut s = st();
        if v >> 40 != 0 && s.locate(&v.to_be_bytes()).is_some() {
            return SymF(s.of_int_challenge(v as u128, 64));
        }
        SymF(s.int(BigInt::from(v)))
    }
}
macro_rules! small {
    ($($t:ty),*) => { $( impl From<$t> for SymF { fn from(v: $t) -> SymF { SymF(st().int(BigInt::from(v as u64))) } } )* };
}
small!(u32, u16, u8, bool);
impl From<BigUint> for SymF {
    fn from(v: BigUint) -> SymF {
        let d = v.to_u64_digits();
        SymF(st().of_limbs(&d))
    }
}
impl From<SymF> for BigUint {
    fn from(f: SymF) -> BigUint {
        f.into_bigint().into()
    }
}
impl From<ABig<4>> for SymF {
    fn from(v: ABig<4>) -> SymF {
        SymF(st().of_limbs(&v.0))
    }
}
impl From<SymF> for ABig<4> {
    fn from(f: SymF) -> ABig<4> {
        st().to_bigint(f.0)
    }
}
impl std::str::FromStr for SymF {
    type Err = ();
    fn from_str(s: &str) -> Result<SymF, ()> {
        let n: BigInt = s.parse().map_err(|_| ())?;
        Ok(SymF(st().int(n)))
    }
}
impl Distribution<SymF> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> SymF {
        // keep the generator moving as the real sampler would
        for _ in 0..4 {
            rng.next_u64();
        }
        let mut s = st();
        let k = s.path.rng_ctr;
        s.path.rng_ctr += 1;
        SymF(s.var(&format!("rng#{}", k), Class::Rng, None))
    }
}

// ---- serialization: 32-byte tags ----
pub fn ser_tag<W: Write>(mut w: W, t: T, kind: u8) -> Result<(), SerializationError> {
    let b = st().tag(t, kind);
    w.write_all(&b)?;
    Ok(())
}
pub fn de_tag<R: Read>(mut r: R, kind: u8) -> Result<T, SerializationError> {
    let mut b = [0u8; 32];
    r.read_exact(&mut b)?;
    match st().untag(&b) {
        Some((t, k)) if k == kind => Ok(t),
        _ => Err(SerializationError::InvalidData),
    }
}
pub const K_F: u8 = 0;
impl CanonicalSerialize for SymF {
    fn serialize_with_mode<W: Write>(&self, w: W, _c: Compress) -> Result<(), SerializationError> {
        ser_tag(w, self.0, K_F)
    }
    fn serialized_size(&self, _c: Compress) -> usize {
        32
    }
}
impl CanonicalSerializeWithFlags for SymF {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        ser_tag(&mut w, self.0, K_F)?;
        w.write_all(&[flags.u8_bitmask()])?;
        Ok(())
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        33
    }
}
impl Valid for SymF {
    fn check(&self) -> Result<(), SerializationError> {
        Ok(())
    }
}
impl CanonicalDeserialize for SymF {
    fn deserialize_with_mode<R: Read>(r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
        de_tag(r, K_F).map(SymF)
    }
}
impl CanonicalDeserializeWithFlags for SymF {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let t = de_tag(&mut r, K_F)?;
        let mut b = [0u8; 1];
        r.read_exact(&mut b)?;
        Ok((SymF(t), F::from_u8(b[0]).ok_or(SerializationError::UnexpectedFlags)?))
    }
}

impl Field for SymF {
    type BasePrimeField = SymF;
    type BasePrimeFieldIter = std::iter::Once<SymF>;
    const SQRT_PRECOMP: Option<SqrtPrecomputation<Self>> = None;
    const ZERO: Self = SymF(T_ZERO);
    const ONE: Self = SymF(T_ONE);
    fn characteristic() -> &'static [u64] {
        <Fr as Field>::characteristic()
    }
    fn extension_degree() -> u64 {
        1
    }
    fn to_base_prime_field_elements(&self) -> Self::BasePrimeFieldIter {
        std::iter::once(*self)
    }
    fn from_base_prime_field_elems(e: &[SymF]) -> Option<Self> {
        if e.len() == 1 {
            Some(e[0])
        } else {
            None
        }
    }
    fn from_base_prime_field(e: SymF) -> Self {
        e
    }
    fn double(&self) -> Self {
        let mut s = st();
        SymF(s.scale(self.0, &Q::int(2)))
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn neg_in_place(&mut self) -> &mut Self {
        *self = -*self;
        self
    }
    fn from_random_bytes_with_flags<F: Flags>(b: &[u8]) -> Option<(Self, F)> {
        if F::BIT_SIZE != 0 {
            unsupported("from_random_bytes with flags");
        }
        let t = st().of_random_bytes(b)?;
        Some((SymF(t), F::default()))
    }
    fn legendre(&self) -> LegendreSymbol {
        unsupported("legendre")
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self> {
        let mut s = st();
        if s.is_zero(self.0) {
            None
        } else {
            Some(SymF(s.powi(self.0, -1)))
        }
    }
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        match self.inverse() {
            Some(i) => {
                *self = i;
                Some(self)
            }
            None => None,
        }
    }
    fn frobenius_map_in_place(&mut self, _p: usize) {}
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let e = exp.as_ref();
        let n = e.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
        match n {
            0 => SymF(T_ONE),
            1 if e[0] < (1 << 24) => SymF(st().powi(self.0, e[0] as i64)),
            _ => unsupported("power with a huge exponent"),
        }
    }
}
impl FftField for SymF {
    const GENERATOR: Self = SymF(T_GEN);
    const TWO_ADICITY: u32 = <Fr as FftField>::TWO_ADICITY;
    const TWO_ADIC_ROOT_OF_UNITY: Self = SymF(T_ROOT);
}
impl PrimeField for SymF {
    type BigInt = ABig<4>;
    const MODULUS: Self::BigInt = <Fr as PrimeField>::MODULUS;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt = <Fr as PrimeField>::MODULUS_MINUS_ONE_DIV_TWO;
    const MODULUS_BIT_SIZE: u32 = <Fr as PrimeField>::MODULUS_BIT_SIZE;
    const TRACE: Self::BigInt = <Fr as PrimeField>::TRACE;
    const TRACE_MINUS_ONE_DIV_TWO: Self::BigInt = <Fr as PrimeField>::TRACE_MINUS_ONE_DIV_TWO;
    fn from_bigint(r: ABig<4>) -> Option<Self> {
        if r >= Self::MODULUS {
            return None;
        }
        Some(SymF(st().of_limbs(&r.0)))
    }
    fn into_bigint(self) -> ABig<4> {
        st().to_bigint(self.0)
    }
    fn from_be_bytes_mod_order(b: &[u8]) -> Self {
        SymF(st().of_mod_order(b, true))
    }
    fn from_le_bytes_mod_order(b: &[u8]) -> Self {
        SymF(st().of_mod_order(b, false))
    }
}
