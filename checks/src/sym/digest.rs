//! Programmable random oracle with the digest-0.9 interface.
use super::engine::*;
use digest::generic_array::{typenum::{U32, U64}, ArrayLength, GenericArray};
use digest::{BlockInput, FixedOutputDirty, Reset, Update};
use std::marker::PhantomData;
use std::sync::Mutex;

/// Random oracle of the concrete world: same ordinals as the symbolic one, with patched outputs.
#[derive(Default)]
pub struct RealRo {
    pub map: std::collections::HashMap<Vec<u8>, usize>,
    pub contents: Vec<Vec<u8>>,
    pub lens: Vec<usize>,
    pub log: Vec<usize>,
    pub patches: std::collections::HashMap<usize, Vec<(usize, Vec<u8>)>>,
    pub seed: u64,
    pub flips: Vec<(usize, usize)>,
}
pub static REAL: Mutex<Option<RealRo>> = Mutex::new(None);
pub fn real() -> std::sync::MutexGuard<'static, Option<RealRo>> {
    REAL.lock().unwrap_or_else(|e| e.into_inner())
}

fn real_ro(input: &[u8], outlen: usize) -> Vec<u8> {
    let mut g = real();
    let r = g.as_mut().expect("real oracle not initialised");
    let mut key = input.to_vec();
    key.push(outlen as u8);
    let n = r.contents.len();
    let o = *r.map.entry(key).or_insert(n);
    r.log.push(o);
    if r.log.len() > QUERIES_MAX {
        drop(g);
        panic!("the digest is queried without end");
    }
    if o == n {
        r.contents.push(input.to_vec());
        r.lens.push(outlen);
    }
    let mut out = prf(r.seed, &format!("ro:{}", o), outlen);
    for (off, b) in r.patches.get(&o).into_iter().flatten() {
        for (i, x) in b.iter().enumerate() {
            if off + i < out.len() {
                out[off + i] = *x;
            }
        }
    }
    for (k, bit) in &r.flips {
        if *k == o && bit / 8 < out.len() {
            out[bit / 8] ^= 1 << (bit % 8);
        }
    }
    out
}

pub trait Side: 'static + Send + Sync {
    fn ro(input: &[u8], outlen: usize) -> Vec<u8>;
}
pub struct SymSide;
pub struct RealSide;
impl Side for SymSide {
    fn ro(i: &[u8], n: usize) -> Vec<u8> {
        st().ro(i, n)
    }
}
impl Side for RealSide {
    fn ro(i: &[u8], n: usize) -> Vec<u8> {
        real_ro(i, n)
    }
}

pub struct RoDigest<S: Side, N: ArrayLength<u8> + 'static> {
    buf: Vec<u8>,
    _p: PhantomData<fn() -> (S, N)>,
}
impl<S: Side, N: ArrayLength<u8>> Clone for RoDigest<S, N> {
    fn clone(&self) -> Self {
        RoDigest { buf: self.buf.clone(), _p: PhantomData }
    }
}
impl<S: Side, N: ArrayLength<u8>> Default for RoDigest<S, N> {
    fn default() -> Self {
        RoDigest { buf: vec![], _p: PhantomData }
    }
}
impl<S: Side, N: ArrayLength<u8>> Update for RoDigest<S, N> {
    fn update(&mut self, d: impl AsRef<[u8]>) {
        self.buf.extend_from_slice(d.as_ref())
    }
}
impl<S: Side, N: ArrayLength<u8>> Reset for RoDigest<S, N> {
    fn reset(&mut self) {
        self.buf.clear()
    }
}
impl<S: Side, N: ArrayLength<u8>> BlockInput for RoDigest<S, N> {
    type BlockSize = U64;
}
impl<S: Side, N: ArrayLength<u8>> FixedOutputDirty for RoDigest<S, N> {
    type OutputSize = N;
    fn finalize_into_dirty(&mut self, out: &mut GenericArray<u8, N>) {
        let o = S::ro(&self.buf, N::to_usize());
        out.copy_from_slice(&o);
    }
}
pub type SymD = RoDigest<SymSide, U64>;
pub type SymD32 = RoDigest<SymSide, U32>;
pub type RealD = RoDigest<RealSide, U64>;
pub type RealD32 = RoDigest<RealSide, U32>;
