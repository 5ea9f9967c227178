//! The three worlds a scenario runs in: symbolic, concrete with a programmable oracle, concrete with Blake2.
use crate::sym::digest::*;
use crate::sym::engine::{self, prf, st, Class, Failure, UNSUPPORTED};
use crate::sym::explore::{panic_text, ChalRec};
use crate::sym::field::SymF;
use crate::sym::pairing::SymP;
use ark_bls12_381::{Bls12_381, Fr};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::Group;
use ark_ff::{Field, PrimeField};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_std::rand::{CryptoRng, Error as RandError, RngCore};
use digest::generic_array::typenum::{U32, U64};
use digest::Digest;
use num_bigint::BigUint;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub const STMT: Class = Class::Stmt;
pub const FREE: Class = Class::Free;
pub const KEY: Class = Class::Key;

#[derive(Default)]
pub struct RealState {
    pub assign: BTreeMap<String, Fr>,
    pub failures: Vec<Failure>,
    pub observations: Vec<(String, String)>,
    pub chals: Vec<ChalRec>,
    pub seed: u64,
    pub rng_ctr: usize,
    pub asserts: u64,
}
pub static REALW: Mutex<Option<RealState>> = Mutex::new(None);
fn rw() -> std::sync::MutexGuard<'static, Option<RealState>> {
    REALW.lock().unwrap_or_else(|e| e.into_inner())
}

/// A digest query as an oracle sees it: which values and bytes were hashed.
#[derive(Clone, Debug)]
pub struct Chal<F> {
    pub v: F,
    pub ordinal: Option<usize>,
    pub bits: u32,
    pub at: usize,
    /// position of the query among all queries made
    pub pos: usize,
    pub name: String,
}

pub type F<W> = <<W as World>::P as Pairing>::ScalarField;
pub type G1<W> = <<W as World>::P as Pairing>::G1;
pub type G2<W> = <<W as World>::P as Pairing>::G2;
pub type A1<W> = <<W as World>::P as Pairing>::G1Affine;
pub type A2<W> = <<W as World>::P as Pairing>::G2Affine;
pub type GT<W> = PairingOutput<<W as World>::P>;

pub trait World: 'static + Clone + Send + Sync {
    type P: Pairing;
    type D: Digest<OutputSize = U64> + Clone + Send + Sync + 'static;
    type D32: Digest<OutputSize = U32> + Clone + Send + Sync + 'static;
    const SYM: bool;
    fn f(name: &str, c: Class) -> F<Self>;
    fn rng() -> ScriptRng;
    fn fail(label: &str, detail: String);
    fn count_assert();
    fn observe(label: &str, v: String);
    fn chals() -> Vec<Chal<F<Self>>>;
    /// number of distinct digest queries so far
    fn n_queries() -> usize;
    /// number of digest queries so far, repetitions counted
    fn log_len() -> usize;
    /// have the queries at these log positions the same input?
    fn same_query(a: usize, b: usize) -> bool;
    /// does the input of the query at this log position contain these bytes?
    fn query_has(pos: usize, b: &[u8]) -> bool;
    /// How many bits of the digest output at log position `pos` change what `f` returns (None: this world cannot tell).
    /// With step 8, whole bytes are tried, by their lowest bit.
    fn sensitivity(pos: usize, step: usize, f: &dyn Fn() -> Vec<u8>) -> Option<u32>;
    /// the two values are sampled from disjoint randomness
    fn independent(a: F<Self>, b: F<Self>) -> bool;
    fn set_cost(c: u32) -> u32;
    /// the first k digest outputs drawn for every challenge are unusable
    fn stubborn(k: usize);
    /// declare a variable ("*": every wide challenge, "u128": every challenge drawn as an integer) formal: decisions on polynomials in it are taken coefficient-wise
    fn formal(name: &str);
    fn formal_off();

    fn g1(name: &str, c: Class) -> G1<Self> {
        G1::<Self>::generator() * Self::f(name, c)
    }
    fn g2(name: &str, c: Class) -> G2<Self> {
        G2::<Self>::generator() * Self::f(name, c)
    }
    fn gt(name: &str, c: Class) -> GT<Self> {
        gtgen::<Self>() * Self::f(name, c)
    }
    fn check(label: &str, b: bool) {
        Self::count_assert();
        if !b {
            Self::fail(label, String::new());
        }
    }
    fn check_msg(label: &str, b: bool, msg: impl FnOnce() -> String) {
        Self::count_assert();
        if !b {
            Self::fail(label, msg());
        }
    }
}
pub fn gtgen<W: World>() -> GT<W> {
    W::P::pairing(G1::<W>::generator(), G2::<W>::generator())
}

/// Runs code under test; a panic becomes Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let s = panic_text(&*e);
            if s.starts_with(UNSUPPORTED) {
                resume_unwind(e)
            }
            Err(s)
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Reject,
    Err,
    Panic,
}
impl Verdict {
    pub fn accepted(&self) -> bool {
        *self == Verdict::Accept
    }
    pub fn refused(&self) -> bool {
        !self.accepted()
    }
}
pub fn verdict<E>(f: impl FnOnce() -> Result<bool, E>) -> Verdict {
    match guard(f) {
        Ok(Ok(true)) => Verdict::Accept,
        Ok(Ok(false)) => Verdict::Reject,
        Ok(Err(_)) => Verdict::Err,
        Err(_) => Verdict::Panic,
    }
}
pub fn ser<T: CanonicalSerialize>(x: &T, out: &mut Vec<u8>) {
    x.serialize_uncompressed(out).expect("serialize");
}
pub fn bytes<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    ser(x, &mut v);
    v
}
pub fn de<T: CanonicalDeserialize>(b: &[u8]) -> T {
    T::deserialize_uncompressed_unchecked(b).expect("deserialize")
}

// ---------------------------------------------------------------- symbolic world
#[derive(Clone)]
pub struct Sym;
impl World for Sym {
    type P = SymP;
    type D = SymD;
    type D32 = SymD32;
    const SYM: bool = true;
    fn f(name: &str, c: Class) -> SymF {
        SymF(st().var(name, c, None))
    }
    fn rng() -> ScriptRng {
        ScriptRng { k: 0, buf: [0; 4], real: false }
    }
    fn fail(label: &str, detail: String) {
        st().path.failures.push(Failure { label: label.into(), detail, witness: None });
    }
    fn count_assert() {
        st().path.n_asserts += 1;
    }
    fn observe(label: &str, v: String) {
        st().path.observations.push((label.into(), v));
    }
    fn chals() -> Vec<Chal<SymF>> {
        st().path
            .chals
            .iter()
            .map(|c| Chal { v: SymF(c.t), ordinal: c.ordinal, bits: c.bits, at: c.at, pos: c.pos, name: c.name.clone() })
            .collect()
    }
    fn n_queries() -> usize {
        st().path.queries.len()
    }
    fn independent(a: SymF, b: SymF) -> bool {
        let s = st();
        let (x, y) = (s.var_set(a.0), s.var_set(b.0));
        !x.is_empty() && !y.is_empty() && x.is_disjoint(&y)
    }
    fn log_len() -> usize {
        st().path.log.len()
    }
    fn same_query(a: usize, b: usize) -> bool {
        let mut s = st();
        let (x, y) = (s.path.log[a], s.path.log[b]);
        s.same_query(x, y)
    }
    fn query_has(pos: usize, b: &[u8]) -> bool {
        let s = st();
        match s.path.log.get(pos) {
            Some(o) => s.path.queries[*o].raw.windows(b.len()).any(|w| w == b),
            None => false,
        }
    }
    fn sensitivity(_pos: usize, _step: usize, _f: &dyn Fn() -> Vec<u8>) -> Option<u32> {
        None
    }
    fn stubborn(k: usize) {
        st().path.stubborn = Some(k);
    }
    fn set_cost(c: u32) -> u32 {
        std::mem::replace(&mut st().path.cost, c)
    }
    fn formal(name: &str) {
        let mut s = st();
        if name == "*" {
            s.path.formal_wide = true;
            return;
        }
        if name == "u128" {
            s.path.formal_ints = true;
            return;
        }
        let v = s.var_by_name[name];
        s.path.formal.push(v);
    }
    fn formal_off() {
        let mut s = st();
        s.path.formal.clear();
        s.path.formal_wide = false;
        s.path.formal_ints = false;
    }
}

// ---------------------------------------------------------------- concrete worlds
macro_rules! concrete {
    ($W:ident, $D:ty, $D32:ty, $nq:expr) => {
        #[derive(Clone)]
        pub struct $W;
        impl World for $W {
            type P = Bls12_381;
            type D = $D;
            type D32 = $D32;
            const SYM: bool = false;
            fn f(name: &str, _c: Class) -> Fr {
                real_value(name)
            }
            fn rng() -> ScriptRng {
                ScriptRng { k: 0, buf: [0; 4], real: true }
            }
            fn fail(label: &str, detail: String) {
                rw().as_mut().unwrap().failures.push(Failure { label: label.into(), detail, witness: None });
            }
            fn count_assert() {
                rw().as_mut().unwrap().asserts += 1;
            }
            fn observe(label: &str, v: String) {
                rw().as_mut().unwrap().observations.push((label.into(), v));
            }
            fn chals() -> Vec<Chal<Fr>> {
                let n = Self::log_len();
                rw().as_ref()
                    .unwrap()
                    .chals
                    .iter()
                    .filter(|c| c.at <= n)
                    .map(|c| Chal { v: c.value, ordinal: c.ordinal, bits: c.bits, at: c.at, pos: c.pos, name: c.name.clone() })
                    .collect()
            }
            fn n_queries() -> usize {
                $nq()
            }
            fn independent(a: Fr, b: Fr) -> bool {
                a != b
            }
            fn log_len() -> usize {
                real().as_ref().map(|r| r.log.len()).unwrap_or(0)
            }
            fn same_query(a: usize, b: usize) -> bool {
                let g = real();
                let r = g.as_ref().unwrap();
                a < r.log.len() && b < r.log.len() && r.log[a] == r.log[b]
            }
            fn query_has(pos: usize, b: &[u8]) -> bool {
                let g = real();
                match g.as_ref().and_then(|r| r.log.get(pos).map(|o| &r.contents[*o])) {
                    Some(c) => c.windows(b.len()).any(|w| w == b),
                    None => false,
                }
            }
            fn sensitivity(pos: usize, step: usize, f: &dyn Fn() -> Vec<u8>) -> Option<u32> {
                let ord = match real().as_ref().unwrap().log.get(pos) {
                    Some(o) => *o,
                    None => return Some(0),
                };
                let base = f();
                let mut n = 0;
                let len = real().as_ref().unwrap().lens[ord];
                for bit in (0..8 * len).step_by(step) {
                    real().as_mut().unwrap().flips = vec![(ord, bit)];
                    if f() != base {
                        n += step as u32;
                    }
                }
                real().as_mut().unwrap().flips.clear();
                Some(n)
            }
            fn stubborn(_k: usize) {}
            fn set_cost(_c: u32) -> u32 {
                1
            }
            fn formal(_name: &str) {}
            fn formal_off() {}
        }
    };
}
fn real_value(name: &str) -> Fr {
    let g = rw();
    let r = g.as_ref().expect("real world not initialised");
    match r.assign.get(name) {
        Some(v) => *v,
        None => Fr::from_le_bytes_mod_order(&prf(r.seed, &format!("var:{}", name), 40)),
    }
}
concrete!(RealRoW, RealD, RealD32, || real().as_ref().map(|r| r.contents.len()).unwrap_or(0));
concrete!(RealBlakeW, blake2::Blake2b, blake2::Blake2s, || 0usize);

pub fn real_reset(seed: u64, assign: BTreeMap<String, Fr>, chals: Vec<ChalRec>, patches: Vec<(usize, usize, Vec<u8>)>) {
    *rw() = Some(RealState { assign, chals, seed, ..Default::default() });
    let mut by_query: std::collections::HashMap<usize, Vec<(usize, Vec<u8>)>> = Default::default();
    for (o, off, b) in patches {
        by_query.entry(o).or_default().push((off, b));
    }
    *real() = Some(RealRo { patches: by_query, seed, ..Default::default() });
}
pub fn real_take() -> RealState {
    rw().take().unwrap()
}

/// In the concrete worlds, four consecutive u64 words are the limbs of the value of variable rng#k.
pub struct ScriptRng {
    k: usize,
    buf: [u64; 4],
    real: bool,
}
impl ScriptRng {
    /// bytes drawn so far
    pub fn drawn(&self) -> usize {
        8 * self.k
    }
}
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let i = self.k % 4;
        if i == 0 {
            let n = self.k / 4;
            if self.real {
                let v = real_value(&format!("rng#{}", n));
                // Fr's sampler reads the Montgomery representation
                self.buf = (v.0).0;
            } else {
                let b = prf(engine::h128(&n.to_le_bytes()) as u64, "rngwords", 32);
                for j in 0..4 {
                    let mut w = [0u8; 8];
                    w.copy_from_slice(&b[8 * j..8 * j + 8]);
                    self.buf[j] = u64::from_le_bytes(w);
                }
            }
        }
        self.k += 1;
        self.buf[i]
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), RandError> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ScriptRng {}

pub fn fr_hex(x: &Fr) -> String {
    let u: BigUint = (*x).into();
    format!("0x{:x}", u)
}
pub fn fi<W: World>(i: u64) -> F<W> {
    F::<W>::from(i)
}
pub fn powers<W: World>(x: F<W>, n: usize) -> Vec<F<W>> {
    let mut v = vec![];
    let mut c = F::<W>::from(1u64);
    for _ in 0..n {
        v.push(c);
        c *= x;
    }
    v
}
pub fn fpow<W: World>(x: F<W>, n: u64) -> F<W> {
    x.pow([n])
}
