//! SIPP and its Fiat-Shamir generator: C21, C22, C23 and parts of C06, C07, C26.
use crate::runner::Scen;
use crate::scen;
use crate::scen::basic::{dot, fs};
use crate::scen::bind::*;
use crate::scen::tipa::{in_pool, POOLS};
use crate::world::*;
use ark_ec::{CurveGroup, Group};
use ark_ff::{Field, One, Zero};
use ark_sipp::rng::FiatShamirRng;
use ark_sipp::*;
use ark_std::rand::RngCore;

type Pr<W> = Proof<<W as World>::P>;
type Rng<W> = FiatShamirRng<<W as World>::D32>;

/// logs of a statement
#[derive(Clone)]
struct St<W: World> {
    a: Vec<F<W>>,
    b: Vec<F<W>>,
    r: Vec<F<W>>,
    z: F<W>,
}
impl<W: World> St<W> {
    fn honest(n: usize) -> Self {
        let mut s = St { a: fs::<W>("a", n), b: fs::<W>("b", n), r: fs::<W>("r", n), z: F::<W>::zero() };
        s.z = s.truth();
        s
    }
    fn free(n: usize) -> Self {
        St { z: W::f("z", FREE), ..Self::honest(n) }
    }
    fn truth(&self) -> F<W> {
        self.a.iter().zip(&self.b).zip(&self.r).fold(F::<W>::zero(), |s, ((a, b), r)| s + *a * *b * *r)
    }
    fn pa(&self) -> Vec<A1<W>> {
        self.a.iter().map(|x| (G1::<W>::generator() * *x).into_affine()).collect()
    }
    fn pb(&self) -> Vec<A2<W>> {
        self.b.iter().map(|x| (G2::<W>::generator() * *x).into_affine()).collect()
    }
    fn pz(&self) -> GT<W> {
        gtgen::<W>() * self.z
    }
    fn prove(&self) -> Result<Pr<W>, String> {
        let (a, b) = (self.pa(), self.pb());
        guard(|| SIPP::<W::P, W::D32>::prove(&a, &b, &self.r, self.pz()).map_err(|_| "error".to_string())).and_then(|r| r)
    }
    fn verify(&self, p: &Pr<W>) -> Verdict {
        let (a, b) = (self.pa(), self.pb());
        verdict(|| SIPP::<W::P, W::D32>::verify(&a, &b, &self.r, self.pz(), p))
    }
    /// the element-th value of the statement: a, b, r, value
    fn at(&mut self, what: usize) -> &mut F<W> {
        let n = self.a.len();
        match what / n {
            0 => &mut self.a[what],
            1 => &mut self.b[what - n],
            2 => &mut self.r[what - 2 * n],
            _ => &mut self.z,
        }
    }
}
/// bytes of a proof
pub fn sized<W: World>(n: usize) -> Result<usize, String> {
    St::<W>::honest(n).prove().map(|p| bytes(&p).len())
}
fn zero_challenge<W: World>() -> bool {
    W::chals().iter().any(|c| c.v.is_zero())
}
type Elems<W> = Vec<(F<W>, F<W>)>;
fn proof<W: World>(l: &Elems<W>) -> Pr<W> {
    let mut v = vec![];
    ser(&(l.len() as u64), &mut v);
    for (x, y) in l {
        ser(&(gtgen::<W>() * *x), &mut v);
        ser(&(gtgen::<W>() * *y), &mut v);
    }
    de(&v)
}
fn free_elems<W: World>(k: usize) -> Elems<W> {
    (0..k).map(|j| (W::f(&format!("zl{}", j), FREE), W::f(&format!("zr{}", j), FREE))).collect()
}
/// the challenge of each round: the first one after the previous round's whose digest input contains both messages
fn rounds<W: World>(l: &Elems<W>) -> Option<Vec<F<W>>> {
    let mut from = 0;
    let d = drawn::<W>(0);
    let mut out = vec![];
    for (x, y) in l {
        let (x, y) = (bytes(&(gtgen::<W>() * *x)), bytes(&(gtgen::<W>() * *y)));
        let i = (from..d.len()).find(|i| W::query_has(d[*i].pos, &x) && W::query_has(d[*i].pos, &y))?;
        out.push(d[i].v);
        from = i + 1;
    }
    Some(out)
}

// ---------------------------------------------------------------- C21
fn complete<W: World>(n: usize) {
    let s = St::<W>::honest(n);
    let p = s.prove();
    if zero_challenge::<W>() {
        return;
    }
    let p = match p { Ok(p) => p, Err(e) => return W::fail("true product is proven", e) };
    let q = W::n_queries();
    let v = s.verify(&p);
    W::observe("verdict", format!("{:?}", v));
    W::check("honest proof accepted", v == Verdict::Accept);
    W::check("verifier derives the prover's challenges", W::n_queries() == q);
}
/// generic values, the product computed by the crate, prover and verifier in their own pools
fn complete_pools<W: World>(n: usize) {
    W::set_cost(u32::MAX);
    let mut s = St::<W>::honest(n);
    s.z = s.truth();
    for t in POOLS {
        for u in [1, t, 13 - t] {
            let v = in_pool(t, || {
                let z = product_of_pairings_with_coeffs::<W::P>(&s.pa(), &s.pb(), &s.r);
                let p = SIPP::<W::P, W::D32>::prove(&s.pa(), &s.pb(), &s.r, z).ok();
                in_pool(u, || p.map(|p| verdict(|| SIPP::<W::P, W::D32>::verify(&s.pa(), &s.pb(), &s.r, z, &p))))
            });
            W::check_msg("honest proof accepted whatever the pools", v == Some(Verdict::Accept), || format!("proven with {}, verified with {} threads: {:?}", t, u, v));
        }
    }
    W::observe("done", String::new());
}
fn products<W: World>(n: usize, pool: usize) {
    let (a, b, r) = (fs::<W>("a", n), fs::<W>("b", n), fs::<W>("r", n));
    let s = St::<W> { a: a.clone(), b: b.clone(), r: r.clone(), z: F::<W>::zero() };
    let got = guard(|| in_pool(pool, || (product_of_pairings_with_coeffs::<W::P>(&s.pa(), &s.pb(), &r), product_of_pairings::<W::P>(&s.pa(), &s.pb()))));
    let (x, y) = match got { Ok(g) => g, Err(e) => return W::fail("product of pairings is computed", e) };
    W::observe("len", format!("{}", n));
    W::check_msg("product of pairings with coefficients", x == gtgen::<W>() * s.truth(), || format!("length {}, {} threads", n, pool));
    W::check_msg("product of pairings", y == gtgen::<W>() * dot::<W>(&a, &b), || format!("length {}, {} threads", n, pool));
}

// ---------------------------------------------------------------- C22
fn exact<W: World>(n: usize) {
    let s = St::<W>::free(n);
    let l = free_elems::<W>(n.trailing_zeros() as usize);
    let got = s.verify(&proof::<W>(&l));
    if zero_challenge::<W>() {
        return;
    }
    W::observe("verdict", format!("{:?}", got));
    W::set_cost(0);
    judge::<W>(&got, &[&|| {
        let x = rounds::<W>(&l)?;
        let (mut a, mut b, mut z) = (s.a.iter().zip(&s.r).map(|(a, r)| *a * *r).collect::<Vec<_>>(), s.b.clone(), s.z);
        for (x, (l, r)) in x.iter().zip(&l) {
            let i = x.inverse().unwrap();
            let h = a.len() / 2;
            a = (0..h).map(|j| a[j] + *x * a[j + h]).collect();
            b = (0..h).map(|j| b[j] + i * b[j + h]).collect();
            z += *x * *l + i * *r;
        }
        Some(z == a[0] * b[0])
    }]);
}
/// an honest proof against a claimed value that is wrong by delta
fn wrong_value<W: World>(n: usize) {
    let mut s = St::<W>::honest(n);
    let d = W::f("delta", FREE);
    W::formal("u128");
    let p = match s.prove() { Ok(p) => p, Err(e) => return if zero_challenge::<W>() { } else { W::fail("true product is proven", e) } };
    s.z += d;
    let v = s.verify(&p);
    if zero_challenge::<W>() {
        return;
    }
    W::observe("verdict", format!("{:?}", v));
    W::formal_off();
    W::set_cost(0);
    if d.is_zero() {
        W::check("the true value is accepted", v == Verdict::Accept)
    } else {
        W::check("a wrong value is rejected", v == Verdict::Reject)
    }
}
/// an honest proof, one element of the statement or the proof changed; generic values
fn tamper<W: World>(n: usize) {
    W::set_cost(u32::MAX);
    let s = St::<W>::honest(n);
    let p = match s.prove() { Ok(p) => p, Err(e) => return W::fail("true product is proven", e) };
    W::check("honest proof accepted", s.verify(&p) == Verdict::Accept);
    let d = W::f("delta", FREE);
    for what in 0..3 * n + 1 {
        let mut t = s.clone();
        *t.at(what) += d;
        let v = t.verify(&p);
        W::check_msg("changed statement rejected", v == Verdict::Reject, || format!("element {}: {:?}", what, v));
    }
    for i in 0..n {
        let j = (i + 1) % n;
        for what in 0..3 {
            let mut t = s.clone();
            match what { 0 => t.a.swap(i, j), 1 => t.b.swap(i, j), _ => t.r.swap(i, j) }
            let v = t.verify(&p);
            W::check_msg("reordered statement rejected", v == Verdict::Reject, || format!("elements {} and {}: {:?}", i, j, v));
        }
    }
    let k = n.trailing_zeros() as usize;
    let b = bytes(&p);
    let g = (b.len() - 8) / (2 * k);
    let set = |i: usize, x: &[u8]| -> Pr<W> {
        let mut c = b.clone();
        c[8 + i * g..8 + (i + 1) * g].copy_from_slice(x);
        de(&c)
    };
    for i in 0..2 * k {
        for (name, x) in [("identity", bytes(&(gtgen::<W>() * F::<W>::zero()))), ("other", bytes(&(gtgen::<W>() * d))), ("neighbour", b[8 + (i ^ 1) * g..8 + ((i ^ 1) + 1) * g].to_vec())] {
            let v = s.verify(&set(i, &x));
            W::check_msg("changed proof rejected", v == Verdict::Reject, || format!("element {} replaced by {}: {:?}", i, name, v));
        }
    }
    W::observe("done", String::new());
}
fn wrong_length<W: World>(n: usize) {
    W::set_cost(u32::MAX);
    let s = St::<W>::honest(n);
    let k = n.trailing_zeros() as usize;
    let p = match s.prove() { Ok(p) => p, Err(e) => return W::fail("true product is proven", e) };
    let b = bytes(&p);
    let g = (b.len() - 8) / k.max(1);
    for m in 0..k + 3 {
        if m == k {
            continue;
        }
        let mut c = vec![];
        ser(&(m as u64), &mut c);
        for i in 0..m {
            if i < k {
                c.extend(&b[8 + i * g..8 + (i + 1) * g])
            } else {
                c.extend(bytes(&(gtgen::<W>() * F::<W>::zero())));
                c.extend(bytes(&(gtgen::<W>() * F::<W>::zero())))
            }
        }
        let v = s.verify(&de::<Pr<W>>(&c));
        W::check_msg("proof with another number of elements is not accepted", v.refused(), || format!("{} elements for length {}: {:?}", m, n, v));
    }
    W::observe("done", String::new());
}

/// any statement, any proof with the wrong number of elements
fn wrong_count<W: World>(n: usize, m: usize) {
    let s = St::<W>::free(n);
    let v = s.verify(&proof::<W>(&free_elems::<W>(m)));
    W::observe("refused", format!("{}", v.refused()));
    W::check_msg("proof with another number of elements is not accepted", v.refused(), || format!("{} elements for length {}: {:?}", m, n, v));
}

// ---------------------------------------------------------------- C23
/// A message of `n` symbolic elements after `pre` constant bytes.
fn msg<W: World>(name: &str, pre: usize, n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..pre).map(|i| i as u8 ^ 0x5a).collect();
    for i in 0..n {
        ser(&W::f(&format!("{}_{}", name, i), FREE), &mut v);
    }
    v
}
fn take<W: World>(g: &mut Rng<W>, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    g.fill_bytes(&mut v);
    v
}
/// seed, then absorbs; reads of `read` bytes before each absorb
fn run<W: World>(seed: &[u8], absorbs: &[Vec<u8>], read: usize) -> (Rng<W>, usize) {
    let mut g = Rng::<W>::from_seed(seed);
    for a in absorbs {
        take::<W>(&mut g, read);
        g.absorb(a);
    }
    (g, W::log_len() - 1)
}
/// Two histories of the same shape; every content of the second is symbolic and may equal the first's or not.
fn histories<W: World>(shape: &'static [(usize, usize)]) {
    let mk = |p: &str| -> Vec<Vec<u8>> { shape.iter().enumerate().map(|(i, (pre, n))| msg::<W>(&format!("{}{}", p, i), *pre, *n)).collect() };
    let (x, y) = (mk("x"), mk("y"));
    W::set_cost(u32::MAX);
    let before = W::log_len();
    let (mut g, p) = run::<W>(&x[0], &x[1..], 0);
    W::check_msg("one digest per operation", W::log_len() - before == shape.len(), || format!("{}", W::log_len() - before));
    // the same history, reads in between
    for read in [0usize, 1, 4, 33, 200] {
        let (mut h, q) = run::<W>(&x[0], &x[1..], read);
        W::check("same history, same state", W::same_query(p, q));
        let want = take::<W>(&mut run::<W>(&x[0], &x[1..], 0).0, 150);
        W::check_msg("same history, same stream", take::<W>(&mut h, 150) == want, || format!("{} bytes read before each message", read));
    }
    let mine = take::<W>(&mut g, 150);
    W::set_cost(0);
    let (mut h, q) = run::<W>(&y[0], &y[1..], 0);
    let eq = W::same_query(p, q);
    let theirs = take::<W>(&mut h, 150);
    W::observe("same state", format!("{}", eq));
    W::check("the stream is determined by the state", (mine == theirs) == eq);
    if eq {
        W::check("equal states only for equal histories", x == y || (0..shape.len()).all(|i| (0..shape[i].1).all(|j| W::f(&format!("x{}_{}", i, j), FREE) == W::f(&format!("y{}_{}", i, j), FREE))));
    }
}
/// constant messages: any differing byte, length or boundary gives another state
fn boundaries<W: World>(len: usize) {
    let base: Vec<u8> = (0..len).map(|i| (i * 7 + 3) as u8).collect();
    let seed = msg::<W>("s", 3, 1);
    W::set_cost(u32::MAX);
    let state = |absorbs: &[Vec<u8>]| -> (usize, Vec<u8>) {
        let (mut g, p) = run::<W>(&seed, absorbs, 0);
        (p, take::<W>(&mut g, 48))
    };
    let p = state(&[base.clone(), vec![9; 5]]);
    let mut others: Vec<(String, Vec<Vec<u8>>)> = vec![];
    for i in 0..len {
        for bit in [0, 3, 7] {
            let mut c = base.clone();
            c[i] ^= 1 << bit;
            others.push((format!("bit {} of byte {} flipped", bit, i), vec![c, vec![9; 5]]));
        }
        others.push((format!("boundary moved to {}", i), vec![base[..i].to_vec(), [&base[i..], &[9; 5]].concat()]));
        others.push((format!("split at {}", i), vec![base[..i].to_vec(), base[i..].to_vec(), vec![9; 5]]));
        others.push((format!("cut at {}", i), vec![base[..i].to_vec(), vec![9; 5]]));
    }
    others.push(("byte appended".into(), vec![[&base[..], &[0]].concat(), vec![9; 5]]));
    others.push(("message dropped".into(), vec![vec![9; 5]]));
    others.push(("messages joined".into(), vec![[&base[..], &[9; 5]].concat()]));
    others.push(("messages swapped".into(), vec![vec![9; 5], base.clone()]));
    others.push(("message repeated".into(), vec![base.clone(), base.clone(), vec![9; 5]]));
    others.push(("empty message added".into(), vec![base.clone(), vec![], vec![9; 5]]));
    for (n, o) in others {
        if o == [base.clone(), vec![9; 5]] || (len == 5 && base == [9; 5]) {
            continue;
        }
        let q = state(&o);
        W::check_msg("different histories, different states", !W::same_query(p.0, q.0) && p.1 != q.1, || n.clone());
    }
    // differing seeds
    for i in 0..len {
        let mut c = base.clone();
        c[i] ^= 0x10;
        let (mut g, a) = run::<W>(&base, &[], 0);
        let (mut h, b) = run::<W>(&c, &[], 0);
        W::check_msg("different seeds, different states", !W::same_query(a, b) && take::<W>(&mut g, 48) != take::<W>(&mut h, 48), || format!("byte {}", i));
        let (mut g, a) = run::<W>(&base, &[vec![1]], 0);
        let (mut h, b) = run::<W>(&c, &[vec![1]], 0);
        W::check_msg("different seeds, different later states", !W::same_query(a, b) && take::<W>(&mut g, 48) != take::<W>(&mut h, 48), || format!("byte {}", i));
    }
    W::observe("done", String::new());
}
/// reading continues one stream, whatever the method
fn reads<W: World>(absorbs: usize) {
    W::set_cost(u32::MAX);
    let seed = msg::<W>("s", 0, 1);
    let ms: Vec<Vec<u8>> = (0..absorbs).map(|i| msg::<W>(&format!("m{}", i), i, 1)).collect();
    let fresh = || run::<W>(&seed, &ms, 0).0;
    let n = 512;
    let all = take::<W>(&mut fresh(), n);
    let chunks: Vec<&[u8]> = all.chunks(16).collect();
    W::check("the stream does not repeat", (0..chunks.len()).all(|i| (0..i).all(|j| chunks[i] != chunks[j])));
    let mut g = fresh();
    let mut words = vec![];
    for i in 0..n / 16 {
        match i % 4 {
            0 => {
                for _ in 0..4 {
                    words.extend(g.next_u32().to_le_bytes())
                }
            }
            1 => {
                words.extend(g.next_u64().to_le_bytes());
                words.extend(g.next_u64().to_le_bytes())
            }
            2 => words.extend(take::<W>(&mut g, 16)),
            _ => {
                let mut v = [0u8; 16];
                W::check("reading succeeds", g.try_fill_bytes(&mut v).is_ok());
                words.extend(v)
            }
        }
    }
    W::check("every reading method continues the stream", words == all);
    let (p, q) = (W::log_len(), take::<W>(&mut g, 8));
    W::check("reading makes no digest query", W::log_len() == p && q.len() == 8);
    let pos = W::log_len() - 1;
    match W::sensitivity(pos, 1, &|| take::<W>(&mut fresh(), 48)) {
        Some(k) => W::check_msg("the stream depends on the whole digest output", k == 256, || format!("{} of 256 bits", k)),
        None => W::check("the stream depends on the whole digest output", true),
    }
    W::observe("done", String::new());
}

// ---------------------------------------------------------------- C06, C07
fn is_round<W: World>(c: &Chal<F<W>>) -> bool {
    c.bits >= 64
}
fn bind_round<W: World>(n: usize, j: usize, right: bool) {
    let k = n.trailing_zeros() as usize;
    let s = St::<W>::free(n);
    let old = free_elems::<W>(k);
    let mut new = old.clone();
    let w = W::f("w", FREE);
    let slot = if right { &mut new[j].1 } else { &mut new[j].0 };
    let was = *slot;
    *slot = w;
    let (x, y) = twice::<W>(&|| { let _ = s.verify(&proof::<W>(&old)); }, &|| { let _ = s.verify(&proof::<W>(&new)); });
    determines::<W>(&format!("SIPP: challenge {} determines the round's messages", j), k, j, &x, &y, &[(was, w)]);
}
fn bind_statement<W: World>(n: usize, what: usize) {
    let k = n.trailing_zeros() as usize;
    let s = St::<W>::free(n);
    let mut t = s.clone();
    let w = W::f("w", FREE);
    let was = *t.at(what);
    *t.at(what) = w;
    let l = free_elems::<W>(k);
    let (x, y) = twice::<W>(&|| { let _ = s.verify(&proof::<W>(&l)); }, &|| { let _ = t.verify(&proof::<W>(&l)); });
    determines::<W>(&format!("SIPP: first challenge determines element {} of the statement", what), k, 0, &x, &y, &[(was, w)]);
}
fn entropy<W: World>(n: usize) {
    W::set_cost(u32::MAX);
    let s = St::<W>::honest(n);
    let k = n.trailing_zeros() as usize;
    let p = match s.prove() { Ok(p) => p, Err(e) => return W::fail("true product is proven", e) };
    let _ = p;
    let c: Vec<_> = drawn::<W>(0).into_iter().filter(is_round::<W>).collect();
    W::check_msg("one challenge of at least 128 bits per round", c.len() == k && c.iter().all(|c| c.bits >= 128), || format!("{} challenges of {:?} bits", c.len(), c.iter().map(|c| c.bits).collect::<Vec<_>>()));
    for i in 0..k - 1 {
        match W::sensitivity(c[i].pos, 1, &|| match s.prove() { Ok(p) => bytes(&p), Err(_) => vec![] }) {
            Some(b) => W::check_msg("at least 128 bits of digest output in each challenge", b >= 128, || format!("challenge {}: {} bits", i, b)),
            None => W::check("at least 128 bits of digest output in each challenge", true),
        }
    }
    // no bit of a challenge is constant over many statements
    let (mut or, mut and) = (0u128, u128::MAX);
    for i in 0..64u64 {
        let mut t = s.clone();
        t.z = fi::<W>(i + 1000);
        let n = W::chals().len();
        let _ = t.prove();
        for c in W::chals().into_iter().skip(n) {
            if let Some(h) = c.name.strip_prefix("u128:") {
                let v = u128::from_str_radix(h, 16).unwrap();
                or |= v;
                and &= v;
            }
        }
    }
    if or != 0 {
        W::check_msg("every bit of a challenge varies", or == u128::MAX && and == 0, || format!("{:x} {:x}", or, and));
    }
    W::observe("done", String::new());
}

// ---------------------------------------------------------------- C26
fn threads<W: World>(n: usize) {
    W::set_cost(u32::MAX);
    let s = St::<W>::honest(n);
    let bad = St::<W> { z: s.z + F::<W>::one(), ..s.clone() };
    let mut base: Option<Vec<u8>> = None;
    for t in POOLS {
        let got = in_pool(t, || {
            let mut v = bytes(&product_of_pairings_with_coeffs::<W::P>(&s.pa(), &s.pb(), &s.r));
            v.extend(bytes(&s.prove()?));
            Ok::<_, String>(v)
        });
        let got = match got { Ok(g) => g, Err(e) => return W::fail("something is computed", e) };
        let zl = bytes(&gtgen::<W>()).len();
        for u in [1, t, 13 - t] {
            let v = in_pool(u, || {
                let p: Pr<W> = de(&got[zl..]);
                (s.verify(&p), bad.verify(&p))
            });
            W::check_msg("same verdicts whatever the pools", v == (Verdict::Accept, Verdict::Reject), || format!("proven with {}, verified with {} threads: {:?}", t, u, v));
        }
        match &base {
            None => base = Some(got),
            Some(b) => W::check_msg("same bytes whatever the pool", *b == got, || format!("{} threads", t)),
        }
    }
    W::observe("done", String::new());
}

pub fn register(v: &mut Vec<Scen>) {
    for n in [2usize, 4, 8] {
        scen!(v, "C21", format!("C21/n={}", n), format!("length {}, all vectors, coefficients and non-zero challenges", n), depth = 2, paths = 80, replays = 4, complete(n));
        scen!(v, "C22", format!("C22/exact/n={}", n), format!("length {}, every element of proof and statement free", n), depth = 2, paths = 60, replays = 6, exact(n));
        scen!(v, "C22", format!("C22/wrong-value/n={}", n), format!("honest proof, length {}, any error", n), depth = 3, paths = 60, replays = 4, wrong_value(n));
        scen!(v, "C22", format!("C22/tamper/n={}", n), "honest proof, one element changed, generic values", depth = 0, paths = 1, replays = 1, tamper(n));
        for m in 0..n.trailing_zeros() as usize + 3 {
            if m != n.trailing_zeros() as usize {
                scen!(v, "C22", format!("C22/count/n={}/elements={}", n, m), "arbitrary statement and proof elements, wrong number of them", depth = 2, paths = 30, replays = 3, wrong_count(n, m));
            }
        }
        scen!(v, "C22", format!("C22/wrong-length/n={}", n), "honest proof, elements dropped or added", depth = 0, paths = 1, replays = 1, wrong_length(n));
        for j in 0..n.trailing_zeros() as usize {
            for right in [false, true] {
                scen!(v, "C06", format!("C06/sipp/n={}/round={}/{}", n, j, if right { "right" } else { "left" }), "SIPP verifier, one message of a round replaced", depth = 0, paths = 30, replays = 6, bind_round(n, j, right));
            }
        }
        if n < 8 {
            scen!(v, "C06", format!("C06/sipp/entropy/n={}", n), "SIPP prover, 64 statements", depth = 0, paths = 1, replays = 1, entropy(n));
        } else {
            scen!(deep v, "C06", format!("C06/sipp/entropy/n={}", n), "SIPP prover, 64 statements", depth = 0, paths = 1, replays = 1, entropy(n));
        }
        if n < 8 {
            for what in 0..3 * n + 1 {
                scen!(v, "C07", format!("C07/sipp/n={}/{}", n, what), "SIPP verifier, one element of the statement replaced", depth = 0, paths = 20, replays = 4, bind_statement(n, what));
            }
        }
        scen!(v, "C26", format!("C26/sipp/n={}", n), "pools of 1, 2, 3, 5 and 8 threads", depth = 0, paths = 1, replays = 1, threads(n));
    }
    for n in [16usize, 32] {
        scen!(v, "C21", format!("C21/n={}", n), format!("length {}, up to one special branch", n), depth = 1, paths = 40, replays = 2, complete(n));
        scen!(v, "C22", format!("C22/exact/n={}", n), format!("length {}, every element free", n), depth = 1, paths = 30, replays = 2, exact(n));
    }
    scen!(deep v, "C21", "C21/n=1024", "length 1024, generic values", depth = 0, paths = 1, replays = 1, complete(1024));
    scen!(deep v, "C22", "C22/exact/n=1024", "length 1024, every element free", depth = 0, paths = 30, replays = 2, exact(1024));
    for n in [64usize, 128, 256, 512] {
        scen!(v, "C21", format!("C21/n={}", n), format!("length {}, generic values", n), depth = 0, paths = 1, replays = 1, complete(n));
        scen!(v, "C22", format!("C22/exact/n={}", n), format!("length {}, every element free", n), depth = 0, paths = 30, replays = 2, exact(n));
    }
    for n in [2usize, 4, 16] {
        scen!(v, "C21", format!("C21/pools/n={}", n), "prover and verifier pools of 1, 2, 3, 5, 8 threads, generic values", depth = 0, paths = 1, replays = 1, complete_pools(n));
    }
    for t in POOLS {
        for n in 0..10usize {
            scen!(v, "C21", format!("C21/product/threads={}/n={}", t, n), "all points and coefficients", depth = 1, paths = 40, replays = 2, products(n, t));
        }
        scen!(v, "C21", format!("C21/product/threads={}/n=23", t), "generic points and coefficients", depth = 0, paths = 1, replays = 1, products(23, t));
    }
    const SHAPES: [&[(usize, usize)]; 14] = [
        &[(0, 1)], &[(5, 1)], &[(0, 3)], &[(0, 0), (0, 1)], &[(0, 1), (0, 0)], &[(0, 1), (0, 1)], &[(3, 1), (1, 2)], &[(0, 2), (70, 1)],
        &[(0, 1), (0, 1), (0, 1)], &[(1, 0), (0, 2), (0, 1)], &[(0, 1), (0, 0), (0, 1)], &[(0, 1), (64, 0), (0, 4)], &[(0, 1), (0, 1), (0, 1), (0, 1)], &[(0, 8), (2, 8), (0, 8)],
    ];
    for (i, s) in SHAPES.iter().enumerate() {
        scen!(v, "C23", format!("C23/histories/{}", i), format!("(constant bytes, symbolic elements) per operation: {:?}", s), depth = 0, paths = 40, replays = 12, histories(s));
    }
    for len in [0usize, 1, 5, 31, 32, 33, 64, 100] {
        scen!(v, "C23", format!("C23/boundaries/len={}", len), "messages that differ in a bit, length or boundary", depth = 0, paths = 1, replays = 1, boundaries(len));
    }
    for a in [0usize, 1, 3] {
        scen!(v, "C23", format!("C23/reads/absorbs={}", a), "512 bytes by every reading method", depth = 0, paths = 1, replays = 1, reads(a));
    }
}
