//! TIPA over the three inner products, and GIPA's binding, malformed-proof and serialization scenarios.
use crate::runner::Scen;
use crate::scen;
use crate::scen::basic::{dot, fs};
use crate::scen::bind::*;
use crate::scen::ipa::*;
use crate::world::*;
use ark_dh_commitments::DoublyHomomorphicCommitment as Dhc;
use ark_ec::Group;
use ark_ff::{Field, One, Zero};
use ark_inner_products::InnerProduct;
use ark_ip_proofs::tipa::*;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};

/// An SRS with the given secrets (discrete logs to the generators).
pub fn make_srs<W: World>(n: usize, alpha: F<W>, beta: F<W>) -> SRS<W::P> {
    SRS {
        g_alpha_powers: powers::<W>(alpha, 2 * n - 1).into_iter().map(|x| G1::<W>::generator() * x).collect(),
        h_beta_powers: powers::<W>(beta, 2 * n - 1).into_iter().map(|x| G2::<W>::generator() * x).collect(),
        g_beta: G1::<W>::generator() * beta,
        h_alpha: G2::<W>::generator() * alpha,
    }
}
pub struct Vk<W: World> {
    pub g: F<W>,
    pub h: F<W>,
    pub gb: F<W>,
    pub ha: F<W>,
}
impl<W: World> Vk<W> {
    pub fn free() -> Self {
        Vk { g: W::f("vg", KEY), h: W::f("vh", KEY), gb: W::f("vgb", KEY), ha: W::f("vha", KEY) }
    }
    pub fn of(alpha: F<W>, beta: F<W>) -> Self {
        Vk { g: F::<W>::one(), h: F::<W>::one(), gb: beta, ha: alpha }
    }
    pub fn srs(&self) -> VerifierSRS<W::P> {
        VerifierSRS {
            g: G1::<W>::generator() * self.g,
            h: G2::<W>::generator() * self.h,
            g_beta: G1::<W>::generator() * self.gb,
            h_alpha: G2::<W>::generator() * self.ha,
        }
    }
    /// opening of a key in G2 (the left one)
    pub fn opens_g2(&self, ck: F<W>, p: F<W>, y: &[F<W>], r: F<W>, c: F<W>) -> bool {
        let e = prod_form::<W>(y, c * c * r);
        (self.g * (ck - self.h * e) - (self.gb - self.g * c) * p).is_zero()
    }
    pub fn opens_g1(&self, ck: F<W>, p: F<W>, y: &[F<W>], r: F<W>, c: F<W>) -> bool {
        let e = prod_form::<W>(y, c * c * r);
        ((ck - self.g * e) * self.h - p * (self.ha - self.h * c)).is_zero()
    }
}
/// Every cut of the bytes tried is an error, and the bytes round-trip.
pub fn round_trip<W: World, X: CanonicalSerialize + CanonicalDeserialize + Clone>(x: &X) -> Vec<X> {
    let mut out = vec![x.clone()];
    let mut unc = vec![];
    if x.serialize_uncompressed(&mut unc).is_err() {
        W::fail("proof serializes", "uncompressed".into());
        return out;
    }
    let mut com = vec![];
    if x.serialize_compressed(&mut com).is_err() {
        W::fail("proof serializes", "compressed".into());
        return out;
    }
    W::check("stated size is the size", x.compressed_size() == com.len() && x.uncompressed_size() == unc.len());
    match guard(|| X::deserialize_uncompressed(&unc[..])) {
        Ok(Ok(y)) => out.push(y),
        _ => W::fail("uncompressed proof deserializes", String::new()),
    }
    match guard(|| X::deserialize_compressed(&com[..])) {
        Ok(Ok(y)) => out.push(y),
        _ => W::fail("compressed proof deserializes", String::new()),
    }
    match guard(|| X::deserialize_uncompressed_unchecked(&unc[..])) {
        Ok(Ok(y)) => out.push(y),
        _ => W::fail("uncompressed proof deserializes", "unchecked".into()),
    }
    for y in &out {
        let mut u2 = vec![];
        let mut c2 = vec![];
        let ok = y.serialize_uncompressed(&mut u2).is_ok() && y.serialize_compressed(&mut c2).is_ok();
        W::check("copies re-serialize to the same bytes", ok && u2 == unc && c2 == com);
    }
    let cuts = |n: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..20).map(|i| i * n / 20).collect();
        v.extend([8.min(n - 1), 9.min(n - 1), n - 1]);
        v
    };
    for c in cuts(unc.len()) {
        W::check_msg("truncated bytes are an error", matches!(guard(|| X::deserialize_uncompressed_unchecked(&unc[..c]).is_err()), Ok(true)), || format!("uncompressed"));
    }
    for c in cuts(com.len()) {
        W::check_msg("truncated bytes are an error", matches!(guard(|| X::deserialize_compressed(&com[..c]).is_err()), Ok(true)), || format!("compressed"));
    }
    out
}
pub use crate::runner::in_pool;
pub const POOLS: [usize; 5] = [1, 2, 3, 5, 8];

macro_rules! tipa {
    ($m:ident, $b:ident, $tag:expr) => {
        pub mod $m {
            use super::*;
            use crate::scen::ipa::$b::*;

            pub struct Tw<W: World> {
                pub s: St<W>,
                pub srs: SRS<W::P>,
                pub al: F<W>,
                pub be: F<W>,
                pub r: F<W>,
            }
            /// true statement under the keys of an SRS with arbitrary secrets
            pub fn world<W: World>(n: usize, shifted: bool) -> Tw<W> {
                let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
                let r = if shifted { W::f("rshift", STMT) } else { F::<W>::one() };
                let mut s = statement::<W>(n);
                let p = powers::<W>(be, 2 * n - 1);
                let q = powers::<W>(al, 2 * n - 1);
                s.ka = (0..n).map(|i| p[2 * i] * fpow::<W>(r, i as u64).inverse().unwrap_or(F::<W>::one())).collect();
                s.kb = (0..n).map(|i| q[2 * i]).collect();
                s.com = [dot::<W>(&s.a, &s.ka), dot::<W>(&s.b, &s.kb), tcom::<W>(s.t, s.kt)];
                Tw { s, srs: make_srs::<W>(n, al, be), al, be, r }
            }
            pub fn tprove<W: World>(w: &Tw<W>) -> Result<Result<TP<W>, String>, String> {
                let s = &w.s;
                let (a, b, ka, kb, kt) = (lms::<W>(&s.a), rms::<W>(&s.b), lks::<W>(&s.ka), rks::<W>(&s.kb), tk::<W>(s.kt));
                if w.r.is_one() {
                    guard(|| TI::<W>::prove(&w.srs, (&a, &b), (&ka, &kb, &kt)).map_err(|e| e.to_string()))
                } else {
                    guard(|| TI::<W>::prove_with_srs_shift(&w.srs, (&a, &b), (&ka, &kb, &kt), &w.r).map_err(|e| e.to_string()))
                }
            }
            pub fn tverify<W: World>(v: &Vk<W>, s: &St<W>, p: &TP<W>, r: F<W>, shifted: bool) -> Verdict {
                let kt = tk::<W>(s.kt);
                let (ca, cb, ct) = (lc::<W>(s.com[0]), rc::<W>(s.com[1]), tc::<W>(s.com[2]));
                let vs = v.srs();
                if shifted {
                    verdict(|| TI::<W>::verify_with_srs_shift(&vs, &kt, (&ca, &cb, &ct), p, &r))
                } else {
                    verdict(|| TI::<W>::verify(&vs, &kt, (&ca, &cb, &ct), p))
                }
            }
            // ---- C08
            pub fn complete<W: World>(n: usize, shifted: bool) {
                let mut w = world::<W>(n, shifted);
                if shifted && w.r.is_zero() { return; }
                if !shifted {
                    // keys taken from the SRS by its own method
                    let (k1, k2) = w.srs.get_commitment_keys();
                    W::check("keys of the SRS", k1 == lks::<W>(&w.s.ka) && k2 == rks::<W>(&w.s.kb));
                }
                let p = match tprove::<W>(&w) {
                    Ok(Ok(p)) => p,
                    Ok(Err(e)) => return W::fail("prover returns a proof of a true statement", e),
                    Err(e) => return W::fail("prover returns a proof of a true statement", format!("panic: {}", e)),
                };
                let q = W::n_queries();
                w.s.t = F::<W>::zero();
                let v = tverify::<W>(&Vk::of(w.al, w.be), &w.s, &p, w.r, shifted);
                W::observe("verdict", format!("{:?}", v));
                W::check("honest proof accepted", v == Verdict::Accept);
                W::check("verifier derives the prover's challenges", W::n_queries() == q);
            }
            pub fn complete_setup<W: World>(n: usize) {
                let mut rng = W::rng();
                let v = verdict(|| {
                    let (srs, kt) = TI::<W>::setup(&mut rng, n)?;
                    let (ka, kb) = srs.get_commitment_keys();
                    let (a, b) = (lms::<W>(&fs::<W>("a", n)), rms::<W>(&fs::<W>("b", n)));
                    let t = Ip::<W>::inner_product(&a, &b)?;
                    let (ca, cb, ct) = (L::<W>::commit(&ka, &a)?, R::<W>::commit(&kb, &b)?, T::<W>::commit(&[kt.clone()], &[t])?);
                    let p = TI::<W>::prove(&srs, (&a, &b), (&ka, &kb, &kt))?;
                    TI::<W>::verify(&srs.get_verifier_key(), &kt, (&ca, &cb, &ct), &p)
                });
                W::observe("verdict", format!("{:?}", v));
                W::check("honest proof over a fresh SRS accepted", v == Verdict::Accept);
            }
            // ---- C09
            pub fn tipa_bytes<W: World>(steps: &[[[F<W>; 3]; 2]], base: (F<W>, F<W>), ck: (F<W>, F<W>), op: (F<W>, F<W>)) -> Vec<u8> {
                let mut b = gipa_bytes::<W>(steps, base);
                ser(&lk::<W>(ck.0), &mut b);
                ser(&rk::<W>(ck.1), &mut b);
                ser(&lk::<W>(op.0), &mut b);
                ser(&rk::<W>(op.1), &mut b);
                b
            }
            pub fn exact<W: World>(n: usize, shifted: bool) {
                let k = n.trailing_zeros() as usize;
                let s = free_statement::<W>(n);
                let steps = free_steps::<W>(k);
                let base = (W::f("fa", STMT), W::f("fb", STMT));
                let ck = (W::f("cka", STMT), W::f("ckb", STMT));
                let op = (W::f("pa", FREE), W::f("pb", FREE));
                let r = if shifted { W::f("rshift", STMT) } else { F::<W>::one() };
                if r.is_zero() { return; }
                let v = Vk::<W>::free();
                let p: TP<W> = de(&tipa_bytes::<W>(&steps, base, ck, op));
                let got = tverify::<W>(&v, &s, &p, r, shifted);
                W::observe("verdict", format!("{:?}", got));
                W::set_cost(0);
                let h = find_rounds::<W>(&round_msgs::<W>(&steps));
                let c = find_chal::<W>(true, &[bytes(&lk::<W>(ck.0)), bytes(&rk::<W>(ck.1))]);
                let fo = h.map(|h| fold::<W>(s.com, &steps, &h));
                let o = match (&fo, c) { (Some(fo), Some(c)) => Some((fo.x.clone(), c)), _ => None };
                judge::<W>(&got, &[
                    &|| o.as_ref().map(|(x, c)| v.opens_g2(ck.0, op.0, &inv_all::<W>(x), r.inverse().unwrap(), *c)),
                    &|| o.as_ref().map(|(x, c)| v.opens_g1(ck.1, op.1, x, F::<W>::one(), *c)),
                    &|| fo.as_ref().map(|fo| (fo.com[0] - base.0 * ck.0).is_zero()),
                    &|| fo.as_ref().map(|fo| (fo.com[1] - base.1 * ck.1).is_zero()),
                    &|| fo.as_ref().map(|fo| (fo.com[2] - tcom::<W>(base.0 * base.1, s.kt)).is_zero()),
                ]);
            }
            /// An honest proof and one part of what it is checked against replaced by another value.
            pub fn tamper<W: World>(n: usize, what: usize) {
                W::set_cost(u32::MAX);
                let w = world::<W>(n, true);
                let p = match tprove::<W>(&w) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) };
                let d = W::f("delta", FREE);
                let mut v = Vk::of(w.al, w.be);
                let mut s = St::<W> { a: vec![], b: vec![], ka: vec![], kb: vec![], ..w.s };
                let mut r = w.r;
                match what {
                    0..=2 => s.com[what] += d,
                    3 => r += d,
                    4 => v.g += d,
                    5 => v.h += d,
                    6 => v.gb += d,
                    7 => v.ha += d,
                    _ => r = F::<W>::one(),
                }
                let got = tverify::<W>(&v, &s, &p, r, true);
                W::observe("verdict", format!("{:?}", got));
                W::check("a proof is not accepted for another statement, shift or SRS", got == Verdict::Reject);
            }
            /// Honest proof, one element of the proof moved.
            pub fn tamper_proof<W: World>(n: usize, pos: usize) {
                W::set_cost(u32::MAX);
                let w = world::<W>(n, false);
                let p = match tprove::<W>(&w) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) };
                let d = W::f("delta", FREE);
                let b = bytes(&p);
                // the last four elements: final keys and their openings
                let n2 = bytes(&lk::<W>(F::<W>::one())).len();
                let n1 = bytes(&rk::<W>(F::<W>::one())).len();
                let at = b.len() - [2 * n1 + 2 * n2, 2 * n1 + n2, n1 + n2, n1][pos];
                let (size, new) = if pos % 2 == 0 {
                    (n2, add_raw::<W, G2<W>>(&b[at..at + n2], lk::<W>(d)))
                } else {
                    (n1, add_raw::<W, G1<W>>(&b[at..at + n1], rk::<W>(d)))
                };
                let mut b2 = b[..at].to_vec();
                b2.extend(new);
                b2.extend(&b[at + size..]);
                let p2: TP<W> = de(&b2);
                let got = tverify::<W>(&Vk::of(w.al, w.be), &w.s, &p2, F::<W>::one(), false);
                W::observe("verdict", format!("{:?}", got));
                W::check("a moved proof element is rejected", got == Verdict::Reject);
            }
            // ---- C06: rounds
            fn gipa_run<W: World>(s: &St<W>, steps: &[[[F<W>; 3]; 2]]) {
                let base = (W::f("fa", STMT), W::f("fb", STMT));
                let p: GP<W> = de(&gipa_bytes::<W>(steps, base));
                let _ = verify::<W>(s, &p);
            }
            pub fn renew<W: World>(s: &[[F<W>; 3]; 2]) -> ([[F<W>; 3]; 2], Vec<(F<W>, F<W>)>) {
                let mut t = *s;
                let mut pairs = vec![];
                for h in 0..2 {
                    for e in 0..3 {
                        t[h][e] = W::f(&format!("n{}{}", h, e), FREE);
                        pairs.push((s[h][e], t[h][e]));
                    }
                }
                (t, pairs)
            }
            pub fn bind_round<W: World>(n: usize, j: usize) {
                let k = n.trailing_zeros() as usize;
                let s = free_statement::<W>(n);
                let steps = free_steps::<W>(k);
                let mut steps2 = steps.clone();
                let (t, pairs) = renew::<W>(&steps[j]);
                steps2[j] = t;
                let (x, y) = twice::<W>(&|| gipa_run::<W>(&s, &steps), &|| gipa_run::<W>(&s, &steps2));
                determines::<W>("round challenge determines the round's messages", k, j, &x, &y, &pairs);
            }
            fn tipa_run<W: World>(s: &St<W>, steps: &[[[F<W>; 3]; 2]], ck: (F<W>, F<W>)) {
                let base = (W::f("fa", STMT), W::f("fb", STMT));
                let p: TP<W> = de(&tipa_bytes::<W>(steps, base, ck, (W::f("pa", FREE), W::f("pb", FREE))));
                let _ = tverify::<W>(&Vk::free(), s, &p, W::f("rshift", STMT), true);
            }
            pub fn tbind_round<W: World>(n: usize, j: usize) {
                let k = n.trailing_zeros() as usize;
                let s = free_statement::<W>(n);
                let ck = (W::f("cka", STMT), W::f("ckb", STMT));
                let steps = free_steps::<W>(k);
                let mut steps2 = steps.clone();
                if j < k {
                    let (t, pairs) = renew::<W>(&steps[j]);
                    steps2[j] = t;
                    let (x, y) = twice::<W>(&|| tipa_run::<W>(&s, &steps, ck), &|| tipa_run::<W>(&s, &steps2, ck));
                    determines::<W>("round challenge determines the round's messages", k + 1, j, &x, &y, &pairs);
                } else {
                    let ck2 = (W::f("cka2", FREE), W::f("ckb2", FREE));
                    let (x, y) = twice::<W>(&|| tipa_run::<W>(&s, &steps, ck), &|| tipa_run::<W>(&s, &steps, ck2));
                    determines::<W>("opening challenge determines the final keys", k + 1, k, &x, &y, &[(ck.0, ck2.0), (ck.1, ck2.1)]);
                }
            }
            /// prover and verifier make the same digest queries, also after unusable outputs
            pub fn same_queries<W: World>(n: usize) {
                let s = statement::<W>(n);
                let p = match prove::<W>(&s) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) };
                let q = W::n_queries();
                let _ = verify::<W>(&s, &p);
                W::observe("queries", format!("{}", q));
                W::check("verifier derives the prover's challenges", W::n_queries() == q);
            }
            /// honest proofs when k digest outputs in a row are unusable
            pub fn stubborn<W: World>(n: usize, k: usize, tipa: bool) {
                W::set_cost(u32::MAX);
                W::stubborn(k);
                if tipa { complete::<W>(n, false) } else { same_queries::<W>(n) }
            }
            /// entropy of each challenge
            pub fn entropy<W: World>(n: usize) {
                let k = n.trailing_zeros() as usize;
                let s = free_statement::<W>(n);
                let steps = free_steps::<W>(k);
                let old = W::set_cost(u32::MAX);
                let p: GP<W> = de(&gipa_bytes::<W>(&steps, (W::f("fa", STMT), W::f("fb", STMT))));
                let (ca, cb, ct) = (lc::<W>(s.com[0]), rc::<W>(s.com[1]), tc::<W>(s.com[2]));
                let l = W::log_len();
                let f = || match guard(|| G::<W>::verify_recursive_challenge_transcript((&ca, &cb, &ct), &p).ok()) { Ok(Some((_, t))) => bytes(&t), _ => vec![] };
                f();
                for c in drawn::<W>(0) {
                    if c.ordinal.is_some() && W::SYM {
                        W::check_msg("a challenge carries at least 128 bits of digest output", c.bits >= 128, || format!("{} bits", c.bits));
                    }
                }
                for r in 0..k {
                    if let Some(b) = W::sensitivity(l + r, 1, &f) {
                        W::check_msg("a challenge carries at least 128 bits of digest output", b >= 128, || format!("round {}: {} bits", r, b));
                    }
                }
                W::set_cost(old);
            }
            pub fn tipa_entropy<W: World>(n: usize) {
                let w = world::<W>(n, false);
                let k = n.trailing_zeros() as usize;
                crate::scen::bind::entropy::<W>(k + 1, &|| match tprove::<W>(&w) { Ok(Ok(p)) => bytes(&p), _ => vec![] });
            }
            // ---- C07
            pub fn gipa_binds<W: World>(n: usize, what: usize) {
                let k = n.trailing_zeros() as usize;
                let s = free_statement::<W>(n);
                let steps = free_steps::<W>(k);
                let mut s2 = free_statement::<W>(n);
                s2.com[what] = W::f("c2", FREE);
                let pair = [(s.com[what], s2.com[what])];
                let (x, y) = twice::<W>(&|| gipa_run::<W>(&s, &steps), &|| gipa_run::<W>(&s2, &steps));
                determines::<W>(&format!("GIPA/{}: first challenge determines the {}", $tag, ["left commitment", "right commitment", "inner product commitment"][what]), k, 0, &x, &y, &pair);
            }
            pub fn tipa_binds<W: World>(n: usize, what: usize) {
                let k = n.trailing_zeros() as usize;
                let s = free_statement::<W>(n);
                let steps = free_steps::<W>(k);
                let ck = (W::f("cka", STMT), W::f("ckb", STMT));
                let mut s2 = free_statement::<W>(n);
                s2.com[what] = W::f("c2", FREE);
                let pair = [(s.com[what], s2.com[what])];
                let (x, y) = twice::<W>(&|| tipa_run::<W>(&s, &steps, ck), &|| tipa_run::<W>(&s2, &steps, ck));
                determines::<W>(&format!("TIPA/{}: first challenge determines the {}", $tag, ["left commitment", "right commitment", "inner product commitment"][what]), k + 1, 0, &x, &y, &pair);
            }
            // ---- C24
            pub fn gipa_rounds<W: World>(n: usize, k: usize) {
                let s = free_statement::<W>(n);
                let steps = free_steps::<W>(k);
                let p: GP<W> = de(&gipa_bytes::<W>(&steps, (W::f("fa", STMT), W::f("fb", STMT))));
                let v = verify::<W>(&s, &p);
                W::observe("verdict", format!("{:?}", v));
                W::check_msg("verifier does not panic", v != Verdict::Panic, || format!("{} rounds against {} keys", k, n));
                if n.is_power_of_two() && k != n.trailing_zeros() as usize || !n.is_power_of_two() {
                    W::check_msg("wrong number of rounds refused", v.refused(), || format!("{} rounds against {} keys", k, n));
                }
            }
            /// the two key lists differ in length: no proof may be accepted
            pub fn gipa_keylens<W: World>(n: usize, m: usize, k: usize) {
                let s = St::<W> { kb: (0..m).map(|i| W::f(&format!("kb{}", i), KEY)).collect(), ..free_statement::<W>(n) };
                let steps = free_steps::<W>(k);
                let p: GP<W> = de(&gipa_bytes::<W>(&steps, (W::f("fa", STMT), W::f("fb", STMT))));
                let v = verify::<W>(&s, &p);
                W::observe("verdict", format!("{:?}", v));
                W::check_msg("verifier does not panic", v != Verdict::Panic, || format!("{} and {} keys, {} rounds", n, m, k));
                W::check_msg("key lists of different lengths refused", v.refused(), || format!("{} and {} keys, {} rounds", n, m, k));
            }
            /// honest proof, last right keys and values missing or extra: the verifier's lists still differ
            pub fn gipa_keycut<W: World>(n: usize) {
                W::set_cost(u32::MAX);
                let mut s = statement::<W>(n);
                let p = match prove::<W>(&s) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) };
                let (ka, kb) = (s.ka.clone(), s.kb.clone());
                let e = W::f("kextra", KEY);
                for (da, db) in [(0i32, 1i32), (1, 0), (0, 2), (0, -1), (-1, 0), (1, 1), (-1, -1)] {
                    let cut = |v: &[F<W>], d: i32| { let mut v = v.to_vec(); for _ in 0..d { v.push(e); } v.truncate((n as i32 + d).max(0) as usize); v };
                    s.ka = cut(&ka, da);
                    s.kb = cut(&kb, db);
                    let v = verify::<W>(&s, &p);
                    W::check_msg("keys missing or added: refused without a panic", v.refused() && v != Verdict::Panic, || format!("{:+} left, {:+} right keys: {:?}", da, db, v));
                }
            }
            pub fn tipa_rounds<W: World>(k: usize, shifted: bool) {
                let s = free_statement::<W>(1);
                let steps = free_steps::<W>(k);
                let p: TP<W> = de(&tipa_bytes::<W>(&steps, (W::f("fa", STMT), W::f("fb", STMT)), (W::f("cka", STMT), W::f("ckb", STMT)), (W::f("pa", FREE), W::f("pb", FREE))));
                let r = if shifted { W::f("rshift", STMT) } else { F::<W>::one() };
                if r.is_zero() { return; }
                let v = tverify::<W>(&Vk::free(), &s, &p, r, shifted);
                W::observe("verdict", format!("{:?}", v));
                W::check_msg("verifier does not panic", v != Verdict::Panic, || format!("{} rounds", k));
            }
            /// the stored rounds of serialized proof bytes: (prefix, rounds, rest)
            pub fn split_rounds<W: World>(b: &[u8], k: usize) -> (Vec<Vec<u8>>, Vec<u8>) {
                let one = F::<W>::one();
                let size = 2 * (bytes(&lc::<W>(one)).len() + bytes(&rc::<W>(one)).len() + bytes(&tc::<W>(one)).len());
                ((0..k).map(|i| b[8 + i * size..8 + (i + 1) * size].to_vec()).collect(), b[8 + k * size..].to_vec())
            }
            pub fn gipa_reshaped<W: World>(n: usize) {
                let k = n.trailing_zeros() as usize;
                let s = statement::<W>(n);
                W::set_cost(u32::MAX);
                let p = match prove::<W>(&s) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) };
                let (rounds, rest) = split_rounds::<W>(&bytes(&p), k);
                for rs in reshapes(&rounds) {
                    let mut b = vec_bytes(&rs);
                    b.extend(&rest);
                    let p2: GP<W> = de(&b);
                    let v = verify::<W>(&s, &p2);
                    W::check_msg("honest proof with rounds removed or repeated is rejected", v.refused() && v != Verdict::Panic, || format!("{} of {} rounds, {:?}", rs.len(), k, v));
                }
            }
            pub fn tipa_reshaped<W: World>(n: usize) {
                let k = n.trailing_zeros() as usize;
                W::set_cost(u32::MAX);
                let w = world::<W>(n, false);
                let p = match tprove::<W>(&w) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) };
                let (rounds, rest) = split_rounds::<W>(&bytes(&p), k);
                for rs in reshapes(&rounds) {
                    let mut b = vec_bytes(&rs);
                    b.extend(&rest);
                    let p2: TP<W> = de(&b);
                    let v = tverify::<W>(&Vk::of(w.al, w.be), &w.s, &p2, F::<W>::one(), false);
                    W::check_msg("honest proof with rounds removed or repeated is rejected", v.refused() && v != Verdict::Panic, || format!("{} of {} rounds, {:?}", rs.len(), k, v));
                }
            }
            // ---- C25
            pub fn gipa_serial<W: World>(n: usize, honest: bool) {
                let k = n.trailing_zeros() as usize;
                let s = if honest { statement::<W>(n) } else { free_statement::<W>(n) };
                let p: GP<W> = if honest {
                    match prove::<W>(&s) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) }
                } else {
                    de(&gipa_bytes::<W>(&free_steps::<W>(k), (W::f("fa", STMT), W::f("fb", STMT))))
                };
                let v = verify::<W>(&s, &p);
                W::observe("verdict", format!("{:?}", v));
                for q in round_trip::<W, _>(&p) {
                    W::check("copies get the same verdict", verify::<W>(&s, &q) == v);
                }
            }
            pub fn tipa_serial<W: World>(n: usize, honest: bool) {
                let k = n.trailing_zeros() as usize;
                let w = world::<W>(n, false);
                let vk = if honest { Vk::of(w.al, w.be) } else { Vk::free() };
                let p: TP<W> = if honest {
                    match tprove::<W>(&w) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) }
                } else {
                    de(&tipa_bytes::<W>(&free_steps::<W>(k), (W::f("fa", STMT), W::f("fb", STMT)), (W::f("cka", STMT), W::f("ckb", STMT)), (W::f("pa", FREE), W::f("pb", FREE))))
                };
                let v = tverify::<W>(&vk, &w.s, &p, F::<W>::one(), false);
                W::observe("verdict", format!("{:?}", v));
                for q in round_trip::<W, _>(&p) {
                    W::check("copies get the same verdict", tverify::<W>(&vk, &w.s, &q, F::<W>::one(), false) == v);
                }
            }
            // ---- C26
            pub fn threads<W: World>(n: usize) {
                W::set_cost(u32::MAX);
                let w = world::<W>(n, true);
                let mut base: Option<(Vec<u8>, Vec<u8>, Vec<u8>)> = None;
                for t in POOLS {
                    let s = &w.s;
                    let got = in_pool(t, || {
                        let c = match guard(|| -> Result<Vec<u8>, Error> {
                            let mut v = bytes(&L::<W>::commit(&lks::<W>(&s.ka), &lms::<W>(&s.a))?);
                            v.extend(bytes(&R::<W>::commit(&rks::<W>(&s.kb), &rms::<W>(&s.b))?));
                            Ok(v)
                        }) { Ok(Ok(v)) => v, _ => vec![] };
                        let g = match prove::<W>(s) { Ok(Ok(p)) => bytes(&p), _ => vec![] };
                        let t = match tprove::<W>(&w) { Ok(Ok(p)) => bytes(&p), _ => vec![] };
                        (c, g, t)
                    });
                    W::check_msg("something is computed", !got.0.is_empty() && !got.1.is_empty() && !got.2.is_empty(), || format!("{} threads", t));
                    if got.1.is_empty() || got.2.is_empty() { return; }
                    for u in [1, t] {
                        let v = in_pool(u, || {
                            let g: GP<W> = de(&got.1);
                            let p: TP<W> = de(&got.2);
                            (verify::<W>(&w.s, &g), tverify::<W>(&Vk::of(w.al, w.be), &w.s, &p, w.r, true))
                        });
                        W::check_msg("proof accepted whatever the pools", v == (Verdict::Accept, Verdict::Accept), || format!("proved with {}, verified with {} threads: {:?}", t, u, v));
                    }
                    match &base {
                        None => base = Some(got),
                        Some(b) => W::check_msg("same bytes whatever the pool", *b == got, || format!("{} threads", t)),
                    }
                }
            }
        }
    };
}
pub type Error = Box<dyn std::error::Error>;
pub fn reshapes(r: &[Vec<u8>]) -> Vec<Vec<Vec<u8>>> {
    let mut out = vec![];
    for i in 0..r.len() {
        let mut x = r.to_vec();
        x.remove(i);
        out.push(x);
        let mut y = r.to_vec();
        y.insert(i, r[i].clone());
        out.push(y);
    }
    out.push(vec![]);
    let mut z = r.to_vec();
    z.extend_from_slice(r);
    out.push(z);
    if r.len() > 1 {
        let mut w = r.to_vec();
        w.reverse();
        out.push(w);
    }
    out
}
tipa!(pair, pair, "pairing");
tipa!(mexp, mexp, "multiexp");
tipa!(scal, scal, "scalar");

// ---- C12, C13
pub fn srs_helpers<W: World>(max: usize) {
    let g = W::g1("base", STMT);
    let h = W::g2("base2", STMT);
    let s = W::f("s", STMT);
    for n in (1..=max).chain([31, 32, 33, 63, 64, 65, 100, 128, 129, 257]) {
        let p = powers::<W>(s, n);
        let x = structured_generators_scalar_power::<G1<W>>(n, &g, &s);
        W::check_msg("consecutive powers of a G1 base", x == p.iter().map(|e| g * *e).collect::<Vec<_>>(), || format!("{}", n));
        let x = structured_generators_scalar_power::<G2<W>>(n, &h, &s);
        W::check_msg("consecutive powers of a G2 base", x == p.iter().map(|e| h * *e).collect::<Vec<_>>(), || format!("{}", n));
        let x = structured_scalar_message::structured_scalar_power::<F<W>>(n, &s);
        W::check_msg("consecutive powers of a scalar", x == p, || format!("{}", n));
    }
}
/// (alpha, beta) and whether the SRS is well formed
pub fn srs_ok<W: World>(srs: &SRS<W::P>, n: usize) {
    W::check("number of powers", srs.g_alpha_powers.len() == 2 * n - 1 && srs.h_beta_powers.len() == 2 * n - 1);
    // the secrets are the first two samples, in either role
    let (x, y) = (W::f("rng#0", KEY), W::f("rng#1", KEY));
    let (g, h) = (G1::<W>::generator(), G2::<W>::generator());
    let (al, be) = if srs.g_beta == g * y && srs.h_alpha == h * x { (x, y) } else { (y, x) };
    W::check("cross elements", srs.g_beta == g * be && srs.h_alpha == h * al);
    W::check("secrets are independent", W::independent(al, be));
    W::check("powers of one secret in G1", srs.g_alpha_powers == powers::<W>(al, 2 * n - 1).into_iter().map(|e| g * e).collect::<Vec<_>>());
    W::check("powers of the other secret in G2", srs.h_beta_powers == powers::<W>(be, 2 * n - 1).into_iter().map(|e| h * e).collect::<Vec<_>>());
    let (ka, kb) = srs.get_commitment_keys();
    W::check("left keys are the even powers", ka == (0..n).map(|i| h * fpow::<W>(be, 2 * i as u64)).collect::<Vec<_>>());
    W::check("right keys are the even powers", kb == (0..n).map(|i| g * fpow::<W>(al, 2 * i as u64)).collect::<Vec<_>>());
    let v = srs.get_verifier_key();
    W::check("verifier key", v.g == g && v.h == h && v.g_beta == g * be && v.h_alpha == h * al);
}
pub fn srs_setup<W: World>(n: usize, which: usize) {
    let mut rng = W::rng();
    W::set_cost(u32::MAX);
    let r = guard(|| match which {
        0 => crate::scen::ipa::pair::TI::<W>::setup(&mut rng, n).map(|x| x.0),
        1 => crate::scen::ipa::mexp::TI::<W>::setup(&mut rng, n).map(|x| x.0),
        2 => crate::scen::ipa::scal::TI::<W>::setup(&mut rng, n).map(|x| x.0),
        3 => crate::scen::ssm::sm::TS::<W>::setup(&mut rng, n).map(|x| x.0),
        4 => crate::scen::ssm::sk::TS::<W>::setup(&mut rng, n).map(|x| x.0),
        _ => ark_ip_proofs::applications::groth16_aggregation::setup_inner_product::<W::P, W::D, _>(&mut rng, n),
    });
    match r {
        Ok(Ok(s)) => srs_ok::<W>(&s, n),
        _ => W::fail("setup", format!("size {}", n)),
    }
}
/// keys of an arbitrary SRS: any length, any elements
pub fn srs_keys<W: World>(max: usize) {
    for l in (1..=max).chain([17, 31, 63, 65, 127, 255, 513]) {
        let s = SRS::<W::P> {
            g_alpha_powers: (0..l).map(|i| W::g1(&format!("ga{}", i), STMT)).collect(),
            h_beta_powers: (0..l).map(|i| W::g2(&format!("hb{}", i), STMT)).collect(),
            g_beta: W::g1("gb", STMT),
            h_alpha: W::g2("ha", STMT),
        };
        let (a, b) = s.get_commitment_keys();
        W::check("keys are the elements at even positions", a == s.h_beta_powers.iter().step_by(2).cloned().collect::<Vec<_>>() && b == s.g_alpha_powers.iter().step_by(2).cloned().collect::<Vec<_>>());
        let v = s.get_verifier_key();
        W::check("verifier key elements", v.g == s.g_alpha_powers[0] && v.h == s.h_beta_powers[0] && v.g_beta == s.g_beta && v.h_alpha == s.h_alpha);
    }
}
fn chals_vars<W: World>(k: usize) -> Vec<F<W>> {
    (0..k).map(|i| W::f(&format!("x{}", i), STMT)).collect()
}
pub fn opening_complete<W: World>(k: usize, g2: bool) {
    let n = 1usize << k;
    let x = chals_vars::<W>(k);
    let r = W::f("r", STMT);
    if r.is_zero() || x.iter().any(|x| x.is_zero()) { return; }
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let c = W::f("c", STMT);
    let srs = make_srs::<W>(n, al, be);
    let v = Vk::<W>::of(al, be).srs();
    let secret = if g2 { be } else { al };
    // the folded key, from its definition: even powers of the secret, shifted by r
    let keys: Vec<F<W>> = (0..n).map(|i| fpow::<W>(secret, 2 * i as u64) * fpow::<W>(r, i as u64)).collect();
    let fk = fold_key::<W>(&keys, &x);
    let got = if g2 {
        verdict(|| {
            let p = prove_commitment_key_kzg_opening::<G2<W>>(&srs.h_beta_powers, &x, &r, &c)?;
            verify_commitment_key_g2_kzg_opening::<W::P>(&v, &(G2::<W>::generator() * fk), &p, &x, &r, &c)
        })
    } else {
        verdict(|| {
            let p = prove_commitment_key_kzg_opening::<G1<W>>(&srs.g_alpha_powers, &x, &r, &c)?;
            verify_commitment_key_g1_kzg_opening::<W::P>(&v, &(G1::<W>::generator() * fk), &p, &x, &r, &c)
        })
    };
    W::observe("verdict", format!("{:?}", got));
    W::check("opening of the folded key accepted", got == Verdict::Accept);
}
/// the verifiers accept exactly the key-opening relation, for arbitrary elements
pub fn opening_exact<W: World>(k: usize, g2: bool) {
    let x = chals_vars::<W>(k);
    let (r, c) = (W::f("r", STMT), W::f("c", STMT));
    let v = Vk::<W>::free();
    let (ck, op) = (W::f("ck", FREE), W::f("op", FREE));
    let (got, want) = if g2 {
        (verdict(|| verify_commitment_key_g2_kzg_opening::<W::P>(&v.srs(), &(G2::<W>::generator() * ck), &(G2::<W>::generator() * op), &x, &r, &c)), v.opens_g2(ck, op, &x, r, c))
    } else {
        (verdict(|| verify_commitment_key_g1_kzg_opening::<W::P>(&v.srs(), &(G1::<W>::generator() * ck), &(G1::<W>::generator() * op), &x, &r, &c)), v.opens_g1(ck, op, &x, r, c))
    };
    W::observe("verdict", format!("{:?}", got));
    W::check("accepts exactly the opening relation", got == if want { Verdict::Accept } else { Verdict::Reject });
}
/// An algebraic prover: elements are combinations of the SRS elements; the secrets are formal.
pub fn opening_sound<W: World>(k: usize, g2: bool) {
    let n = 1usize << k;
    let x = chals_vars::<W>(k);
    let (r, c) = (W::f("r", STMT), W::f("c", STMT));
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    W::formal("alpha");
    W::formal("beta");
    W::set_cost(0);
    let m = 2 * n - 1;
    // powers of this group's secret, and the one element of the other secret in this group
    let (own, other) = if g2 { (be, al) } else { (al, be) };
    let comb = |s: &str| -> (F<W>, Vec<F<W>>, F<W>) {
        let co: Vec<F<W>> = (0..m).map(|i| W::f(&format!("{}{}", s, i), FREE)).collect();
        let o = W::f(&format!("{}x", s), FREE);
        (dot::<W>(&co, &powers::<W>(own, m)) + o * other, co, o)
    };
    let (ck, s, so) = comb("s");
    let (op, _, _) = comb("q");
    let v = Vk::<W>::of(al, be).srs();
    let got = if g2 {
        verdict(|| verify_commitment_key_g2_kzg_opening::<W::P>(&v, &(G2::<W>::generator() * ck), &(G2::<W>::generator() * op), &x, &r, &c))
    } else {
        verdict(|| verify_commitment_key_g1_kzg_opening::<W::P>(&v, &(G1::<W>::generator() * ck), &(G1::<W>::generator() * op), &x, &r, &c))
    };
    W::observe("verdict", format!("{:?}", got));
    if got.accepted() {
        // the value of the prover's polynomial at the challenge is the value of the folded key's polynomial
        let keys: Vec<F<W>> = (0..n).map(|i| fpow::<W>(c, 2 * i as u64) * fpow::<W>(r, i as u64)).collect();
        let want = fold_key::<W>(&keys, &x);
        W::formal_off();
        W::check("accepted key agrees with the folded key at the challenge", dot::<W>(&s, &powers::<W>(c, m)) == want && so.is_zero());
    }
}

macro_rules! reg {
    ($v:expr, $m:ident, $tag:expr) => {
        for n in [1usize, 2, 4, 8] {
            for sh in [false, true] {
                scen!($v, "C08", format!("C08/{}/n={}/shift={}", $tag, n, sh), format!("size {}, {} shift, secrets, messages and challenges symbolic", n, if sh { "any non-zero" } else { "no" }), depth = if n < 8 { 2 } else { 1 }, paths = 30, replays = 3, $m::complete(n, sh));
                scen!($v, "C09", format!("C09/{}/exact/n={}/shift={}", $tag, n, sh), format!("{} rounds, every element of proof, statement and verifier key free", n.trailing_zeros()), depth = 1, paths = 60, replays = 6, $m::exact(n, sh));
            }
        }
        scen!($v, "C08", format!("C08/{}/n=16", $tag), "size 16, any shift", depth = 1, paths = 10, replays = 1, $m::complete(16, true));
        for n in [32usize, 64, 128] {
            scen!($v, "C08", format!("C08/{}/n={}", $tag, n), format!("size {}, any shift, generic values", n), depth = 0, paths = 1, replays = 1, $m::complete(n, true));
            scen!($v, "C08", format!("C08/{}/n={}/unshifted", $tag, n), format!("size {}, keys of the SRS, generic values", n), depth = 0, paths = 1, replays = 1, $m::complete(n, false));
        }
        for n in [16usize, 32, 64, 128, 256, 512] {
            scen!($v, "C09", format!("C09/{}/exact/n={}", $tag, n), format!("{} rounds", n.trailing_zeros()), depth = 1, paths = 40, replays = 2, $m::exact(n, true));
        }
        for n in [1usize, 2, 4] {
            scen!($v, "C08", format!("C08/{}/setup/n={}", $tag, n), "fresh SRS", depth = 1, paths = 10, replays = 2, $m::complete_setup(n));
        }
        for w in 0..9usize {
            scen!($v, "C09", format!("C09/{}/tamper/n=4/what={}", $tag, w), "size 4, one part of the statement or key changed, generic values", depth = 0, paths = 2, replays = 1, $m::tamper(4, w));
        }
        for w in 0..4usize {
            scen!($v, "C09", format!("C09/{}/tamper-proof/n=2/pos={}", $tag, w), "size 2, one final key or opening changed, generic values", depth = 0, paths = 2, replays = 1, $m::tamper_proof(2, w));
        }
        for n in [2usize, 4, 8] {
            for j in 0..n.trailing_zeros() as usize {
                scen!($v, "C06", format!("C06/gipa/{}/n={}/round={}", $tag, n, j), format!("GIPA verifier, {} rounds, all messages of a round replaced", n.trailing_zeros()), depth = 0, paths = 40, replays = 10, $m::bind_round(n, j));
            }
            for j in 0..=n.trailing_zeros() as usize {
                scen!($v, "C06", format!("C06/tipa/{}/n={}/round={}", $tag, n, j), format!("TIPA verifier, {} rounds, all messages of a round or both final keys replaced", n.trailing_zeros()), depth = 0, paths = 40, replays = 10, $m::tbind_round(n, j));
            }
        }
        for n in [2usize, 4] {
            for k in [4usize, 20, 300, 66_000] {
                if k > 1000 && n > 2 { continue; }
                scen!($v, "C06", format!("C06/gipa/{}/stubborn={}/n={}", $tag, k, n), "honest GIPA proof, 4, 20, 300 or 66000 unusable digest outputs before each challenge", depth = 0, paths = 1, replays = (k < 1000) as usize, $m::stubborn(n, k, false));
                scen!($v, "C06", format!("C06/tipa/{}/stubborn={}/n={}", $tag, k, n), "honest TIPA proof, 4, 20, 300 or 66000 unusable digest outputs before each challenge", depth = 0, paths = 1, replays = (k < 1000) as usize, $m::stubborn(n, k, true));
            }
            scen!($v, "C06", format!("C06/gipa/{}/retry/n={}", $tag, n), "honest GIPA proof, up to 3 unusable digest outputs", depth = 3, paths = 40, replays = 8, $m::same_queries(n));
            scen!($v, "C06", format!("C06/tipa/{}/retry/n={}", $tag, n), "honest TIPA proof, up to 3 unusable digest outputs", depth = 3, paths = 40, replays = 8, $m::complete(n, false));
        }
        scen!($v, "C06", format!("C06/gipa/{}/entropy/n=4", $tag), "2 rounds", depth = 0, paths = 1, replays = 1, $m::entropy(4));
        for n in [2usize] {
            scen!($v, "C06", format!("C06/tipa/{}/entropy/n={}", $tag, n), "TIPA prover, round and opening challenges", depth = 0, paths = 1, replays = 1, $m::tipa_entropy(n));
        }
        for w in 0..3usize {
            scen!($v, "C07", format!("C07/gipa/{}/{}", $tag, w), "GIPA verifier, 2 rounds", depth = 0, paths = 10, replays = 2, $m::gipa_binds(4, w));
            scen!($v, "C07", format!("C07/tipa/{}/{}", $tag, w), "TIPA verifier, 2 rounds", depth = 0, paths = 10, replays = 2, $m::tipa_binds(4, w));
        }
        for k in 0..5usize {
            for n in [1usize, 2, 4, 8] {
                scen!($v, "C24", format!("C24/gipa/{}/keys={}/rounds={}", $tag, n, k), "GIPA verifier, keys up to 8, rounds 0..4, arbitrary elements", depth = 1, paths = 20, replays = 2, $m::gipa_rounds(n, k));
            }
            for sh in [false, true] {
                scen!($v, "C24", format!("C24/tipa/{}/rounds={}/shift={}", $tag, k, sh), "TIPA verifier, rounds 0..4, arbitrary elements", depth = 1, paths = 20, replays = 2, $m::tipa_rounds(k, sh));
            }
        }
        for k in [5usize, 6, 7, 8, 9, 10, 16, 24, 30, 31, 32, 33, 63, 64, 65, 66, 128] {
            scen!($v, "C24", format!("C24/gipa/{}/keys=4/rounds={}", $tag, k), "GIPA verifier, up to 128 rounds, generic elements", depth = 0, paths = 2, replays = 1, $m::gipa_rounds(4, k));
            // exponents of 2^30 and more are outside the encoding
            if k >= 30 { continue; }
            scen!($v, "C24", format!("C24/tipa/{}/rounds={}/shift=true", $tag, k), "TIPA verifier, up to 24 rounds, generic elements", depth = 0, paths = 2, replays = 1, $m::tipa_rounds(k, true));
        }
        for (n, m) in [(1usize, 0usize), (0, 1), (1, 2), (2, 1), (2, 3), (2, 4), (4, 2), (4, 3), (4, 5), (3, 4), (4, 8), (8, 4)] {
            for k in 0..4usize {
                if k > 0 && n.max(m) < k { continue; }
                if k < 3 { scen!($v, "C05", format!("C05/{}/keys={}+{}/rounds={}", $tag, n, m, k), "two key lists of different lengths, arbitrary elements", depth = 1, paths = 20, replays = 1, $m::gipa_keylens(n, m, k)); }
                scen!($v, "C24", format!("C24/gipa/{}/keys={}+{}/rounds={}", $tag, n, m, k), "GIPA verifier, two key lists of different lengths, arbitrary elements", depth = 1, paths = 20, replays = 1, $m::gipa_keylens(n, m, k));
            }
        }
        for n in [0usize, 3, 5, 6] {
            scen!($v, "C24", format!("C24/gipa/{}/keys={}/rounds=2", $tag, n), "GIPA verifier, number of keys not a power of two", depth = 1, paths = 20, replays = 2, $m::gipa_rounds(n, 2));
        }
        for n in [2usize, 4, 8] {
            scen!($v, "C05", format!("C05/{}/keys-cut/n={}", $tag, n), "honest proof, one or two keys missing or added", depth = 0, paths = 1, replays = 1, $m::gipa_keycut(n));
            scen!($v, "C24", format!("C24/gipa/{}/keys-cut/n={}", $tag, n), "honest GIPA proof, one or two keys missing or added", depth = 0, paths = 1, replays = 1, $m::gipa_keycut(n));
            scen!($v, "C24", format!("C24/gipa/{}/reshaped/n={}", $tag, n), "honest GIPA proof, rounds removed, repeated, reversed; generic values", depth = 0, paths = 1, replays = 1, $m::gipa_reshaped(n));
            scen!($v, "C24", format!("C24/tipa/{}/reshaped/n={}", $tag, n), "honest TIPA proof, rounds removed, repeated, reversed; generic values", depth = 0, paths = 1, replays = 1, $m::tipa_reshaped(n));
        }
        for n in [1usize, 2, 4] {
            for h in [false, true] {
                scen!($v, "C25", format!("C25/gipa/{}/n={}/honest={}", $tag, n, h), format!("GIPA proof, {} rounds", n.trailing_zeros()), depth = 1, paths = 12, replays = 2, $m::gipa_serial(n, h));
                scen!($v, "C25", format!("C25/tipa/{}/n={}/honest={}", $tag, n, h), format!("TIPA proof, {} rounds", n.trailing_zeros()), depth = 1, paths = 12, replays = 2, $m::tipa_serial(n, h));
            }
        }
        for n in [1usize, 2, 4, 8] {
            scen!($v, "C26", format!("C26/tipa/{}/n={}", $tag, n), format!("size {}, pools of 1, 2, 3, 5 and 8 threads", n), depth = 0, paths = 1, replays = 1, $m::threads(n));
        }
    };
}
pub fn register(v: &mut Vec<Scen>) {
    reg!(v, pair, "pairing");
    reg!(v, mexp, "multiexp");
    reg!(v, scal, "scalar");
    scen!(v, "C12", "C12/helpers", "1 to 17 and up to 257 powers, every base and scalar", depth = 1, paths = 10, replays = 4, srs_helpers(17));
    scen!(v, "C12", "C12/keys", "SRS of 1 to 9 and up to 513 arbitrary elements", depth = 0, paths = 1, replays = 1, srs_keys(9));
    for n in [1usize, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 64, 65, 100, 128] {
        for w in 0..6usize {
            if n > 33 && n % 64 != w % 2 && n != 100 { continue; }
            scen!(v, "C12", format!("C12/setup/{}/n={}", ["tipa-pairing", "tipa-multiexp", "tipa-scalar", "ssm-multiexp", "ssm-scalar", "groth16"][w], n), format!("size {}", n), depth = 0, paths = 1, replays = 1, srs_setup(n, w));
        }
    }
    for g2 in [false, true] {
        let g = if g2 { "G2" } else { "G1" };
        for k in 0..4usize {
            scen!(v, "C13", format!("C13/complete/{}/rounds={}", g, k), format!("{} rounds, any challenges, shift, point, secrets", k), depth = 2, paths = 40, replays = 6, opening_complete(k, g2));
            scen!(v, "C13", format!("C13/exact/{}/rounds={}", g, k), format!("{} rounds, arbitrary elements", k), depth = 2, paths = 40, replays = 6, opening_exact(k, g2));
        }
        for k in 4..8usize {
            scen!(v, "C13", format!("C13/complete/{}/rounds={}", g, k), format!("{} rounds, generic values", k), depth = 0, paths = 1, replays = 1, opening_complete(k, g2));
            scen!(v, "C13", format!("C13/exact/{}/rounds={}", g, k), format!("{} rounds, arbitrary elements", k), depth = 1, paths = 20, replays = 2, opening_exact(k, g2));
        }
        for k in 0..3usize {
            scen!(v, "C13", format!("C13/sound/{}/rounds={}", g, k), format!("{} rounds, algebraic prover", k), depth = 1, paths = 60, replays = 6, opening_sound(k, g2));
        }
        scen!(deep v, "C13", format!("C13/sound/{}/rounds=3", g), "3 rounds, algebraic prover", depth = 1, paths = 60, replays = 4, opening_sound(3, g2));
    }
}
