//! Symbolic groups: an element is its discrete logarithm to the generator.
use super::engine::*;
use super::field::{de_tag, ser_tag, SymF};
use super::q::Q;
use ark_ec::{AffineRepr, CurveConfig, CurveGroup, Group, ScalarMul, VariableBaseMSM};
use ark_ff::{BigInt as ABig, Zero};
use ark_serialize::*;
use ark_std::rand::{distributions::{Distribution, Standard}, Rng};
use std::ops::*;

/// Group K in projective form.
#[derive(Clone, Copy)]
pub struct SymG<const K: u8>(pub T);
/// Group K in affine form.
#[derive(Clone, Copy)]
pub struct SymA<const K: u8>(pub T);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct SymCfg<const K: u8>;
impl<const K: u8> CurveConfig for SymCfg<K> {
    type BaseField = SymF;
    type ScalarField = SymF;
    const COFACTOR: &'static [u64] = &[1];
    const COFACTOR_INV: SymF = SymF(T_ONE);
}

pub fn mul_limbs(t: T, e: &[u64]) -> T {
    let mut s = st();
    let k = s.of_limbs(e);
    s.mul(t, k)
}

macro_rules! common {
    ($G:ident, $aff:expr) => {
        impl<const K: u8> std::fmt::Debug for $G<K> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "G{}[{}]", K, st().show(self.0))
            }
        }
        impl<const K: u8> std::fmt::Display for $G<K> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "G{}[{}]", K, st().show(self.0))
            }
        }
        impl<const K: u8> Default for $G<K> {
            fn default() -> Self {
                $G(T_ZERO)
            }
        }
        impl<const K: u8> PartialEq for $G<K> {
            fn eq(&self, o: &Self) -> bool {
                SymF(self.0) == SymF(o.0)
            }
        }
        impl<const K: u8> Eq for $G<K> {}
        impl<const K: u8> std::hash::Hash for $G<K> {
            fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
                std::hash::Hash::hash(&SymF(self.0), h)
            }
        }
        impl<const K: u8> zeroize::Zeroize for $G<K> {
            fn zeroize(&mut self) {
                self.0 = T_ZERO
            }
        }
        impl<const K: u8> Distribution<$G<K>> for Standard {
            fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $G<K> {
                let f: SymF = self.sample(rng);
                $G(f.0)
            }
        }
        impl<const K: u8> Neg for $G<K> {
            type Output = Self;
            fn neg(self) -> Self {
                $G(st().neg(self.0))
            }
        }
        impl<const K: u8> Mul<SymF> for $G<K> {
            type Output = SymG<K>;
            fn mul(self, o: SymF) -> SymG<K> {
                SymG(st().mul(self.0, o.0))
            }
        }
        impl<'a, const K: u8> Mul<&'a SymF> for $G<K> {
            type Output = SymG<K>;
            fn mul(self, o: &'a SymF) -> SymG<K> {
                SymG(st().mul(self.0, o.0))
            }
        }
        impl<const K: u8> CanonicalSerialize for $G<K> {
            fn serialize_with_mode<W: Write>(&self, w: W, _c: Compress) -> Result<(), SerializationError> {
                ser_tag(w, self.0, K)
            }
            fn serialized_size(&self, _c: Compress) -> usize {
                32
            }
        }
        impl<const K: u8> Valid for $G<K> {
            fn check(&self) -> Result<(), SerializationError> {
                Ok(())
            }
        }
        impl<const K: u8> CanonicalDeserialize for $G<K> {
            fn deserialize_with_mode<R: Read>(r: R, _c: Compress, _v: Validate) -> Result<Self, SerializationError> {
                de_tag(r, K).map($G)
            }
        }
    };
}
common!(SymG, false);
common!(SymA, true);

impl<const K: u8> From<SymA<K>> for SymG<K> {
    fn from(a: SymA<K>) -> Self {
        SymG(a.0)
    }
}
impl<const K: u8> From<SymG<K>> for SymA<K> {
    fn from(a: SymG<K>) -> Self {
        SymA(a.0)
    }
}
macro_rules! addsub {
    ($L:ident, $R:ident) => {
        impl<const K: u8> Add<$R<K>> for $L<K> {
            type Output = SymG<K>;
            fn add(self, o: $R<K>) -> SymG<K> {
                SymG(st().add(self.0, o.0))
            }
        }
        impl<'a, const K: u8> Add<&'a $R<K>> for $L<K> {
            type Output = SymG<K>;
            fn add(self, o: &'a $R<K>) -> SymG<K> {
                SymG(st().add(self.0, o.0))
            }
        }
        impl<const K: u8> Sub<$R<K>> for $L<K> {
            type Output = SymG<K>;
            fn sub(self, o: $R<K>) -> SymG<K> {
                SymG(st().sub(self.0, o.0))
            }
        }
        impl<'a, const K: u8> Sub<&'a $R<K>> for $L<K> {
            type Output = SymG<K>;
            fn sub(self, o: &'a $R<K>) -> SymG<K> {
                SymG(st().sub(self.0, o.0))
            }
        }
    };
}
addsub!(SymG, SymG);
addsub!(SymG, SymA);
addsub!(SymA, SymA);
addsub!(SymA, SymG);
macro_rules! assign {
    ($R:ident) => {
        impl<const K: u8> AddAssign<$R<K>> for SymG<K> {
            fn add_assign(&mut self, o: $R<K>) {
                self.0 = st().add(self.0, o.0)
            }
        }
        impl<'a, const K: u8> AddAssign<&'a $R<K>> for SymG<K> {
            fn add_assign(&mut self, o: &'a $R<K>) {
                self.0 = st().add(self.0, o.0)
            }
        }
        impl<const K: u8> SubAssign<$R<K>> for SymG<K> {
            fn sub_assign(&mut self, o: $R<K>) {
                self.0 = st().sub(self.0, o.0)
            }
        }
        impl<'a, const K: u8> SubAssign<&'a $R<K>> for SymG<K> {
            fn sub_assign(&mut self, o: &'a $R<K>) {
                self.0 = st().sub(self.0, o.0)
            }
        }
        impl<const K: u8> std::iter::Sum<$R<K>> for SymG<K> {
            fn sum<I: Iterator<Item = $R<K>>>(i: I) -> Self {
                i.fold(SymG(T_ZERO), |a, b| a + b)
            }
        }
        impl<'a, const K: u8> std::iter::Sum<&'a $R<K>> for SymG<K> {
            fn sum<I: Iterator<Item = &'a $R<K>>>(i: I) -> Self {
                i.fold(SymG(T_ZERO), |a, b| a + b)
            }
        }
    };
}
assign!(SymG);
assign!(SymA);
impl<const K: u8> MulAssign<SymF> for SymG<K> {
    fn mul_assign(&mut self, o: SymF) {
        self.0 = st().mul(self.0, o.0)
    }
}
impl<'a, const K: u8> MulAssign<&'a SymF> for SymG<K> {
    fn mul_assign(&mut self, o: &'a SymF) {
        self.0 = st().mul(self.0, o.0)
    }
}
impl<const K: u8> Zero for SymG<K> {
    fn zero() -> Self {
        SymG(T_ZERO)
    }
    fn is_zero(&self) -> bool {
        st().is_zero(self.0)
    }
}
impl<const K: u8> Group for SymG<K> {
    type ScalarField = SymF;
    fn generator() -> Self {
        SymG(T_ONE)
    }
    fn double_in_place(&mut self) -> &mut Self {
        self.0 = st().scale(self.0, &Q::int(2));
        self
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> Self {
        SymG(mul_limbs(self.0, o.as_ref()))
    }
}
impl<const K: u8> ScalarMul for SymG<K> {
    type MulBase = SymA<K>;
    const NEGATION_IS_CHEAP: bool = true;
    fn batch_convert_to_mul_base(b: &[Self]) -> Vec<SymA<K>> {
        b.iter().map(|x| SymA(x.0)).collect()
    }
}
impl<const K: u8> VariableBaseMSM for SymG<K> {
    fn msm_unchecked(b: &[SymA<K>], s: &[SymF]) -> Self {
        b.iter().zip(s).map(|(b, s)| *b * s).sum()
    }
    fn msm_bigint(b: &[SymA<K>], s: &[ABig<4>]) -> Self {
        b.iter().zip(s).map(|(b, s)| SymG(mul_limbs(b.0, &s.0))).sum()
    }
}
impl<const K: u8> CurveGroup for SymG<K> {
    type Config = SymCfg<K>;
    type BaseField = SymF;
    type Affine = SymA<K>;
    type FullGroup = SymA<K>;
    fn normalize_batch(v: &[Self]) -> Vec<SymA<K>> {
        v.iter().map(|x| SymA(x.0)).collect()
    }
}
impl<const K: u8> AffineRepr for SymA<K> {
    type Config = SymCfg<K>;
    type ScalarField = SymF;
    type BaseField = SymF;
    type Group = SymG<K>;
    fn xy(&self) -> Option<(&SymF, &SymF)> {
        unsupported("affine coordinates")
    }
    fn zero() -> Self {
        SymA(T_ZERO)
    }
    fn is_zero(&self) -> bool {
        st().is_zero(self.0)
    }
    fn generator() -> Self {
        SymA(T_ONE)
    }
    fn from_random_bytes(_b: &[u8]) -> Option<Self> {
        unsupported("affine point from random bytes")
    }
    fn mul_bigint(&self, o: impl AsRef<[u64]>) -> SymG<K> {
        SymG(mul_limbs(self.0, o.as_ref()))
    }
    fn clear_cofactor(&self) -> Self {
        *self
    }
    fn mul_by_cofactor_to_group(&self) -> SymG<K> {
        SymG(self.0)
    }
}
