//! GIPA and TIPA with a structured scalar message.
use crate::runner::Scen;
use crate::scen;
use crate::scen::basic::{dot, fs};
use crate::scen::bind::*;
use crate::scen::ipa::{add_raw, fold, fold_key, inv_all, prod_form, vec_bytes};
use crate::scen::tipa::{in_pool, make_srs, reshapes, round_trip, Vk, POOLS};
use crate::world::*;
use ark_dh_commitments::afgho16::AFGHOCommitmentG1;
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput};
use ark_dh_commitments::pedersen::PedersenCommitment;
use ark_dh_commitments::DoublyHomomorphicCommitment as Dhc;
use ark_ec::Group;
use ark_ff::{One, Zero};
use ark_inner_products::*;
use ark_ip_proofs::gipa::GIPAProof;
use ark_ip_proofs::tipa::structured_scalar_message::*;
use ark_ip_proofs::tipa::SRS;

pub type Step<W> = [[F<W>; 3]; 2];
/// free round messages; the middle one is the placeholder of the structured vector
pub fn ssteps<W: World>(k: usize) -> Vec<Step<W>> {
    (0..k)
        .map(|j| {
            let m = |s: &str| W::f(&format!("m{}{}", j, s), FREE);
            [[m("La"), F::<W>::zero(), m("Lt")], [m("Ra"), F::<W>::zero(), m("Rt")]]
        })
        .collect()
}

macro_rules! ssm {
    ($m:ident, $tag:expr, $ip:ty, $l:ty, $t:ty, $tkeyed:expr,
     lm=$lm:expr, om=$om:expr, lk=$lk:expr, tk=$tk:expr, lc=$lc:expr, tc=$tc:expr) => {
        pub mod $m {
            use super::*;
            pub type Ip<W> = $ip;
            pub type L<W> = $l;
            pub type T<W> = $t;
            pub type GS<W> = GIPAWithSSM<Ip<W>, L<W>, T<W>, <W as World>::D>;
            pub type TS<W> = TIPAWithSSM<Ip<W>, L<W>, T<W>, <W as World>::P, <W as World>::D>;
            pub type GP<W> = GIPAProof<Ip<W>, L<W>, SSMPlaceholderCommitment<F<W>>, T<W>, <W as World>::D>;
            pub type TP<W> = TIPAWithSSMProof<Ip<W>, L<W>, T<W>, <W as World>::P, <W as World>::D>;
            pub fn lm<W: World>(x: F<W>) -> <L<W> as Dhc>::Message { ($lm)(x) }
            pub fn lk<W: World>(x: F<W>) -> <L<W> as Dhc>::Key { ($lk)(x) }
            pub fn tk<W: World>(x: F<W>) -> <T<W> as Dhc>::Key { ($tk)(x) }
            pub fn lc<W: World>(x: F<W>) -> <L<W> as Dhc>::Output { ($lc)(x) }
            pub fn tc<W: World>(x: F<W>) -> <T<W> as Dhc>::Output { ($tc)(x) }
            pub fn lms<W: World>(v: &[F<W>]) -> Vec<<L<W> as Dhc>::Message> { v.iter().map(|x| lm::<W>(*x)).collect() }
            pub fn lks<W: World>(v: &[F<W>]) -> Vec<<L<W> as Dhc>::Key> { v.iter().map(|x| lk::<W>(*x)).collect() }
            pub fn tcom<W: World>(t: F<W>, k: F<W>) -> F<W> { if $tkeyed { t * k } else { t } }
            pub fn gbytes<W: World>(steps: &[Step<W>], base: (F<W>, F<W>)) -> Vec<u8> {
                let items: Vec<Vec<u8>> = steps.iter().rev().map(|s| {
                    let mut b = vec![];
                    for h in 0..2 {
                        ser(&lc::<W>(s[h][0]), &mut b);
                        ser(&s[h][1], &mut b);
                        ser(&tc::<W>(s[h][2]), &mut b);
                    }
                    b
                }).collect();
                let mut v = vec_bytes(&items);
                ser(&lm::<W>(base.0), &mut v);
                ser(&base.1, &mut v);
                v
            }
            pub fn tbytes<W: World>(steps: &[Step<W>], base: (F<W>, F<W>), ck: F<W>, op: F<W>) -> Vec<u8> {
                let mut v = gbytes::<W>(steps, base);
                ser(&(G2::<W>::generator() * ck), &mut v);
                ser(&(G2::<W>::generator() * op), &mut v);
                v
            }
            pub fn round_msgs<W: World>(steps: &[Step<W>]) -> Vec<Vec<Vec<u8>>> {
                steps.iter().map(|s| (0..2).flat_map(|h| [bytes(&lc::<W>(s[h][0])), bytes(&tc::<W>(s[h][2]))]).collect()).collect()
            }
            pub struct St<W: World> {
                pub a: Vec<F<W>>,
                pub b: F<W>,
                pub bs: Vec<F<W>>,
                pub ka: Vec<F<W>>,
                pub kt: F<W>,
                pub com: [F<W>; 2],
                pub al: F<W>,
                pub be: F<W>,
                pub srs: Option<SRS<W::P>>,
            }
            /// b: 0 and 1 fixed, otherwise symbolic. `srs`: keys are the even powers of a secret.
            pub fn statement<W: World>(n: usize, bval: u8, srs: bool) -> St<W> {
                let a = fs::<W>("a", n);
                let b = match bval { 0 => F::<W>::zero(), 1 => F::<W>::one(), _ => W::f("b", STMT) };
                let bs = powers::<W>(b, n);
                let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
                let ka: Vec<F<W>> = if srs { (0..n).map(|i| fpow::<W>(be, 2 * i as u64)).collect() } else { (0..n).map(|i| W::f(&format!("ka{}", i), KEY)).collect() };
                let kt = W::f("kt", KEY);
                let com = [dot::<W>(&a, &ka), tcom::<W>(dot::<W>(&a, &bs), kt)];
                let srs = if srs { Some(make_srs::<W>(n, al, be)) } else { None };
                St { a, b, bs, ka, kt, com, al, be, srs }
            }
            pub fn gprove<W: World>(s: &St<W>) -> Result<GP<W>, String> {
                let (a, ka, kt) = (lms::<W>(&s.a), lks::<W>(&s.ka), tk::<W>(s.kt));
                guard(|| GS::<W>::prove_with_structured_scalar_message((&a, &s.bs), (&ka, &kt)).map_err(|e| e.to_string())).and_then(|r| r)
            }
            pub fn gverify<W: World>(s: &St<W>, p: &GP<W>) -> Verdict {
                let (ka, kt, ca, ct) = (lks::<W>(&s.ka), tk::<W>(s.kt), lc::<W>(s.com[0]), tc::<W>(s.com[1]));
                verdict(|| GS::<W>::verify_with_structured_scalar_message((&ka, &kt), (&ca, &ct), &s.b, p))
            }
            pub fn tprove<W: World>(s: &St<W>) -> Result<TP<W>, String> {
                let (a, ka, kt) = (lms::<W>(&s.a), lks::<W>(&s.ka), tk::<W>(s.kt));
                guard(|| TS::<W>::prove_with_structured_scalar_message(s.srs.as_ref().unwrap(), (&a, &s.bs), (&ka, &kt)).map_err(|e| e.to_string())).and_then(|r| r)
            }
            pub fn tverify<W: World>(v: &Vk<W>, s: &St<W>, p: &TP<W>) -> Verdict {
                let (kt, ca, ct) = (tk::<W>(s.kt), lc::<W>(s.com[0]), tc::<W>(s.com[1]));
                let vs = v.srs();
                verdict(|| TS::<W>::verify_with_structured_scalar_message(&vs, &kt, (&ca, &ct), &s.b, p))
            }
            // ---- C10
            pub fn complete<W: World>(n: usize, bval: u8, tipa: bool) {
                let s = statement::<W>(n, bval, tipa);
                let (v, q) = if tipa {
                    match tprove::<W>(&s) {
                        Ok(p) => { let q = W::n_queries(); (tverify::<W>(&Vk::of(s.al, s.be), &s, &p), q) }
                        Err(e) => return W::fail("prover returns a proof", e),
                    }
                } else {
                    match gprove::<W>(&s) {
                        Ok(p) => { let q = W::n_queries(); (gverify::<W>(&s, &p), q) }
                        Err(e) => return W::fail("prover returns a proof", e),
                    }
                };
                W::observe("verdict", format!("{:?}", v));
                W::check("honest proof accepted", v == Verdict::Accept);
                W::check("verifier derives the prover's challenges", W::n_queries() == q);
            }
            /// honest proofs when k digest outputs in a row are unusable
            pub fn stubborn<W: World>(n: usize, k: usize, tipa: bool) {
                W::set_cost(u32::MAX);
                W::stubborn(k);
                complete::<W>(n, 2, tipa);
            }
            pub fn complete_setup<W: World>(n: usize, tipa: bool) {
                let mut rng = W::rng();
                let (a, b) = (lms::<W>(&fs::<W>("a", n)), W::f("b", STMT));
                let bs = structured_scalar_power::<F<W>>(n, &b);
                W::check("structured vector", bs == powers::<W>(b, n));
                let v = verdict(|| {
                    let t = Ip::<W>::inner_product(&a, &bs)?;
                    if tipa {
                        let (srs, kt) = TS::<W>::setup(&mut rng, n)?;
                        let (ka, _) = srs.get_commitment_keys();
                        let (ca, ct) = (L::<W>::commit(&ka, &a)?, T::<W>::commit(&[kt.clone()], &[t])?);
                        let p = TS::<W>::prove_with_structured_scalar_message(&srs, (&a, &bs), (&ka, &kt))?;
                        TS::<W>::verify_with_structured_scalar_message(&srs.get_verifier_key(), &kt, (&ca, &ct), &b, &p)
                    } else {
                        let (ka, kt) = GS::<W>::setup(&mut rng, n)?;
                        let (ca, ct) = (L::<W>::commit(&ka, &a)?, T::<W>::commit(&[kt.clone()], &[t])?);
                        let p = GS::<W>::prove_with_structured_scalar_message((&a, &bs), (&ka, &kt))?;
                        GS::<W>::verify_with_structured_scalar_message((&ka, &kt), (&ca, &ct), &b, &p)
                    }
                });
                W::observe("verdict", format!("{:?}", v));
                W::check("honest proof over fresh keys accepted", v == Verdict::Accept);
            }
            // ---- C11
            fn free<W: World>(n: usize) -> St<W> {
                let mut s = statement::<W>(n, 2, false);
                s.com = [W::f("ca", FREE), W::f("ct", FREE)];
                s
            }
            pub fn exact<W: World>(n: usize, tipa: bool) {
                let k = n.trailing_zeros() as usize;
                let s = free::<W>(n);
                let steps = ssteps::<W>(k);
                let fa = W::f("fa", STMT);
                let fb = W::f("fb", FREE);
                let (ck, op) = (W::f("cka", STMT), W::f("pa", FREE));
                let v = Vk::<W>::free();
                let got = if tipa {
                    let p: TP<W> = de(&tbytes::<W>(&steps, (fa, fb), ck, op));
                    tverify::<W>(&v, &s, &p)
                } else {
                    let p: GP<W> = de(&gbytes::<W>(&steps, (fa, fb)));
                    gverify::<W>(&s, &p)
                };
                W::observe("verdict", format!("{:?}", got));
                W::set_cost(0);
                let h = find_rounds::<W>(&round_msgs::<W>(&steps));
                let c = if tipa { find_chal::<W>(true, &[bytes(&(G2::<W>::generator() * ck))]) } else { None };
                let fo = h.map(|h| fold::<W>([s.com[0], F::<W>::zero(), s.com[1]], &steps, &h));
                let y = fo.as_ref().map(|fo| inv_all::<W>(&fo.x));
                let b = y.as_ref().map(|y| prod_form::<W>(y, s.b));
                let opens = || match (&y, c) { (Some(y), Some(c)) => Some(v.opens_g2(ck, op, y, F::<W>::one(), c)), _ => None };
                let left = || fo.as_ref().map(|fo| (fo.com[0] - fa * if tipa { ck } else { fold_key::<W>(&s.ka, y.as_ref().unwrap()) }).is_zero());
                let prod = || fo.as_ref().map(|fo| (fo.com[2] - tcom::<W>(fa * b.unwrap(), s.kt)).is_zero());
                if tipa {
                    judge::<W>(&got, &[&opens, &left, &prod]);
                } else {
                    // the proof also carries a final right value: well formed when it is the folded scalar
                    let formed = b.map(|b| fb == b);
                    if got.accepted() || formed != Some(false) {
                        judge::<W>(&got, &[&left, &prod]);
                    }
                }
            }
            /// right vector is not the powers of b
            pub fn unstructured<W: World>(n: usize, at: usize, tipa: bool) {
                let mut s = statement::<W>(n, 2, tipa);
                W::set_cost(u32::MAX);
                let d = W::f("delta", FREE);
                s.bs[at] += d;
                s.com[1] = tcom::<W>(dot::<W>(&s.a, &s.bs), s.kt);
                let v = if tipa {
                    match tprove::<W>(&s) { Ok(p) => tverify::<W>(&Vk::of(s.al, s.be), &s, &p), Err(_) => Verdict::Err }
                } else {
                    match gprove::<W>(&s) { Ok(p) => gverify::<W>(&s, &p), Err(_) => Verdict::Err }
                };
                W::observe("verdict", format!("{:?}", v));
                W::check("a vector other than the powers of b is rejected", v.refused() && v != Verdict::Panic);
            }
            pub fn tamper<W: World>(n: usize, what: usize, tipa: bool) {
                let mut s = statement::<W>(n, 2, tipa);
                W::set_cost(u32::MAX);
                let d = W::f("delta", FREE);
                let mut vk = Vk::of(s.al, s.be);
                let (mut gp, mut tp) = (None, None);
                if tipa {
                    match tprove::<W>(&s) { Ok(p) => tp = Some(p), Err(e) => return W::fail("prover returns a proof", e) }
                } else {
                    match gprove::<W>(&s) { Ok(p) => gp = Some(p), Err(e) => return W::fail("prover returns a proof", e) }
                }
                let mut b = match (&gp, &tp) { (Some(p), _) => bytes(p), (_, Some(p)) => bytes(p), _ => return };
                let g2 = bytes(&G2::<W>::generator()).len();
                match what {
                    0 => s.b += d,
                    1 | 2 => s.com[what - 1] += d,
                    3 => if tipa { vk.gb += d } else { s.ka[n - 1] += d },
                    4 => if tipa { vk.g += d } else { s.ka[0] += d },
                    5 => {
                        // the final left value
                        let at = 8 + n.trailing_zeros() as usize * 2 * (bytes(&lc::<W>(d)).len() + bytes(&d).len() + bytes(&tc::<W>(d)).len());
                        let l = bytes(&lm::<W>(d)).len();
                        let new = add_raw::<W, <L<W> as Dhc>::Message>(&b[at..at + l], lm::<W>(d));
                        b.splice(at..at + l, new);
                    }
                    6 => {
                        // the first stored left commitment
                        let l = bytes(&lc::<W>(d)).len();
                        let new = add_raw::<W, <L<W> as Dhc>::Output>(&b[8..8 + l], lc::<W>(d));
                        b.splice(8..8 + l, new);
                    }
                    _ => {
                        if !tipa { return; }
                        // final key (7) or its opening (8)
                        let at = b.len() - if what == 7 { 2 * g2 } else { g2 };
                        let new = add_raw::<W, G2<W>>(&b[at..at + g2], G2::<W>::generator() * d);
                        b.splice(at..at + g2, new);
                    }
                }
                let v = if tipa { let p: TP<W> = de(&b); tverify::<W>(&vk, &s, &p) } else { let p: GP<W> = de(&b); gverify::<W>(&s, &p) };
                W::observe("verdict", format!("{:?}", v));
                W::check("a changed statement, key or proof is rejected", v == Verdict::Reject);
            }
            // ---- C06, C07
            fn run<W: World>(s: &St<W>, steps: &[Step<W>], ck: F<W>, tipa: bool) {
                let base = (W::f("fa", STMT), W::f("fb", FREE));
                if tipa {
                    let p: TP<W> = de(&tbytes::<W>(steps, base, ck, W::f("pa", FREE)));
                    let _ = tverify::<W>(&Vk::free(), s, &p);
                } else {
                    let p: GP<W> = de(&gbytes::<W>(steps, base));
                    let _ = gverify::<W>(s, &p);
                }
            }
            pub fn bind_round<W: World>(n: usize, j: usize, tipa: bool) {
                let k = n.trailing_zeros() as usize;
                let s = free::<W>(n);
                let steps = ssteps::<W>(k);
                let ck = W::f("cka", STMT);
                let mut steps2 = steps.clone();
                let cnt = k + tipa as usize;
                if j < k {
                    let mut pairs = vec![];
                    for h in 0..2 {
                        for e in [0, 2] {
                            steps2[j][h][e] = W::f(&format!("n{}{}", h, e), FREE);
                            pairs.push((steps[j][h][e], steps2[j][h][e]));
                        }
                    }
                    let (x, y) = twice::<W>(&|| run::<W>(&s, &steps, ck, tipa), &|| run::<W>(&s, &steps2, ck, tipa));
                    determines::<W>("round challenge determines the round's messages", cnt, j, &x, &y, &pairs);
                } else {
                    let ck2 = W::f("cka2", FREE);
                    let (x, y) = twice::<W>(&|| run::<W>(&s, &steps, ck, tipa), &|| run::<W>(&s, &steps, ck2, tipa));
                    determines::<W>("opening challenge determines the final key", cnt, k, &x, &y, &[(ck, ck2)]);
                }
            }
            pub fn binds<W: World>(n: usize, what: usize, tipa: bool) {
                let k = n.trailing_zeros() as usize;
                let s = free::<W>(n);
                let mut s2 = free::<W>(n);
                let steps = ssteps::<W>(k);
                let ck = W::f("cka", STMT);
                let nw = W::f("c2", FREE);
                let pair = if what < 2 { s2.com[what] = nw; (s.com[what], nw) } else { s2.b = nw; (s.b, nw) };
                let (x, y) = twice::<W>(&|| run::<W>(&s, &steps, ck, tipa), &|| run::<W>(&s2, &steps, ck, tipa));
                determines::<W>(&format!("{}-SSM/{}: first challenge determines the {}", if tipa { "TIPA" } else { "GIPA" }, $tag, ["left commitment", "inner product commitment", "scalar"][what]), k + tipa as usize, 0, &x, &y, &[pair]);
            }
            pub fn entropy<W: World>(n: usize, tipa: bool) {
                let s = statement::<W>(n, 2, tipa);
                let k = n.trailing_zeros() as usize;
                crate::scen::bind::entropy::<W>(k + tipa as usize, &|| if tipa { tprove::<W>(&s).map(|p| bytes(&p)) } else { gprove::<W>(&s).map(|p| bytes(&p)) }.unwrap_or_default());
            }
            // ---- C24, C25, C26
            pub fn rounds<W: World>(n: usize, k: usize, tipa: bool) {
                let s = free::<W>(n);
                let steps = ssteps::<W>(k);
                let base = (W::f("fa", STMT), W::f("fb", FREE));
                let v = if tipa {
                    let p: TP<W> = de(&tbytes::<W>(&steps, base, W::f("cka", STMT), W::f("pa", FREE)));
                    tverify::<W>(&Vk::free(), &s, &p)
                } else {
                    let p: GP<W> = de(&gbytes::<W>(&steps, base));
                    gverify::<W>(&s, &p)
                };
                W::observe("verdict", format!("{:?}", v));
                W::check_msg("verifier does not panic", v != Verdict::Panic, || format!("{} rounds against {} keys", k, n));
                if !tipa && (!n.is_power_of_two() || k != n.trailing_zeros() as usize) {
                    W::check_msg("wrong number of rounds refused", v.refused(), || format!("{} rounds against {} keys", k, n));
                }
            }
            pub fn reshaped<W: World>(n: usize, tipa: bool) {
                let k = n.trailing_zeros() as usize;
                let s = statement::<W>(n, 2, tipa);
                W::set_cost(u32::MAX);
                let b = if tipa { tprove::<W>(&s).map(|p| bytes(&p)) } else { gprove::<W>(&s).map(|p| bytes(&p)) };
                let b = match b { Ok(b) => b, Err(e) => return W::fail("prover returns a proof", e) };
                let one = F::<W>::one();
                let size = 2 * (bytes(&lc::<W>(one)).len() + bytes(&one).len() + bytes(&tc::<W>(one)).len());
                let rounds: Vec<Vec<u8>> = (0..k).map(|i| b[8 + i * size..8 + (i + 1) * size].to_vec()).collect();
                for rs in reshapes(&rounds) {
                    let mut b2 = vec_bytes(&rs);
                    b2.extend(&b[8 + k * size..]);
                    let v = if tipa { let p: TP<W> = de(&b2); tverify::<W>(&Vk::of(s.al, s.be), &s, &p) } else { let p: GP<W> = de(&b2); gverify::<W>(&s, &p) };
                    W::check_msg("honest proof with rounds removed or repeated is rejected", v.refused() && v != Verdict::Panic, || format!("{} of {} rounds, {:?}", rs.len(), k, v));
                }
            }
            pub fn serial<W: World>(n: usize, honest: bool) {
                let k = n.trailing_zeros() as usize;
                let s = if honest { statement::<W>(n, 2, true) } else { free::<W>(n) };
                let vk = if honest { Vk::of(s.al, s.be) } else { Vk::free() };
                let p: TP<W> = if honest {
                    match tprove::<W>(&s) { Ok(p) => p, Err(e) => return W::fail("prover returns a proof", e) }
                } else {
                    de(&tbytes::<W>(&ssteps::<W>(k), (W::f("fa", STMT), W::f("fb", FREE)), W::f("cka", STMT), W::f("pa", FREE)))
                };
                let v = tverify::<W>(&vk, &s, &p);
                W::observe("verdict", format!("{:?}", v));
                for q in round_trip::<W, _>(&p) {
                    W::check("copies get the same verdict", tverify::<W>(&vk, &s, &q) == v);
                }
            }
            pub fn threads<W: World>(n: usize) {
                W::set_cost(u32::MAX);
                let s = statement::<W>(n, 2, true);
                let mut base: Option<(Vec<u8>, Vec<u8>)> = None;
                for t in POOLS {
                    let got = in_pool(t, || (gprove::<W>(&s).map(|p| bytes(&p)).unwrap_or_default(), tprove::<W>(&s).map(|p| bytes(&p)).unwrap_or_default()));
                    W::check("something is computed", !got.0.is_empty() && !got.1.is_empty());
                    if got.0.is_empty() || got.1.is_empty() { return; }
                    for u in [1, t] {
                        let v = in_pool(u, || {
                            let g: GP<W> = de(&got.0);
                            let p: TP<W> = de(&got.1);
                            (gverify::<W>(&s, &g), tverify::<W>(&Vk::of(s.al, s.be), &s, &p))
                        });
                        W::check_msg("proof accepted whatever the pools", v == (Verdict::Accept, Verdict::Accept), || format!("proved with {}, verified with {} threads: {:?}", t, u, v));
                    }
                    match &base {
                        None => base = Some(got),
                        Some(b) => W::check_msg("same bytes whatever the pool", *b == got, || format!("{} threads", t)),
                    }
                }
            }
        }
    };
}
ssm!(sm, "multiexp", MultiexponentiationInnerProduct<G1<W>>, AFGHOCommitmentG1<<W as World>::P>, IdentityCommitment<G1<W>, F<W>>, false,
    lm=|x| G1::<W>::generator() * x, om=|x| G1::<W>::generator() * x, lk=|x| G2::<W>::generator() * x, tk=|_x| HomomorphicPlaceholderValue {},
    lc=|x| gtgen::<W>() * x, tc=|x| IdentityOutput(vec![G1::<W>::generator() * x]));
ssm!(sk, "scalar", ScalarInnerProduct<F<W>>, PedersenCommitment<G2<W>>, PedersenCommitment<G1<W>>, true,
    lm=|x| x, om=|x| x, lk=|x| G2::<W>::generator() * x, tk=|x| G1::<W>::generator() * x,
    lc=|x| G2::<W>::generator() * x, tc=|x| G1::<W>::generator() * x);

macro_rules! reg {
    ($v:expr, $m:ident, $tag:expr) => {
        for tipa in [false, true] {
            let w = if tipa { "tipa" } else { "gipa" };
            for n in [1usize, 2, 4, 8] {
                for bv in 0..3u8 {
                    scen!($v, "C10", format!("C10/{}/{}/n={}/b={}", w, $tag, n, ["0", "1", "any"][bv as usize]), format!("size {}", n), depth = if n < 8 { 2 } else { 1 }, paths = 30, replays = 3, $m::complete(n, bv, tipa));
                }
                scen!($v, "C10", format!("C10/{}/{}/setup/n={}", w, $tag, n), format!("size {}, fresh keys", n), depth = 1, paths = 8, replays = 2, $m::complete_setup(n, tipa));
                scen!($v, "C11", format!("C11/{}/{}/exact/n={}", w, $tag, n), format!("{} rounds, arbitrary elements", n.trailing_zeros()), depth = 1, paths = 60, replays = 6, $m::exact(n, tipa));
            }
            scen!($v, "C10", format!("C10/{}/{}/n=16", w, $tag), "size 16", depth = 1, paths = 10, replays = 1, $m::complete(16, 2, tipa));
            for n in [32usize, 64, 128] {
                scen!($v, "C10", format!("C10/{}/{}/n={}", w, $tag, n), format!("size {}, generic values", n), depth = 0, paths = 1, replays = 1, $m::complete(n, 2, tipa));
            }
            if !tipa {
                scen!(deep $v, "C10", format!("C10/{}/{}/n=256", w, $tag), "size 256, generic values", depth = 0, paths = 1, replays = 1, $m::complete(256, 2, tipa));
            }
            for n in [16usize, 32, 64, 128, 256, 512] {
                scen!($v, "C11", format!("C11/{}/{}/exact/n={}", w, $tag, n), format!("{} rounds, arbitrary elements", n.trailing_zeros()), depth = 1, paths = 40, replays = 2, $m::exact(n, tipa));
            }
            for n in [2usize, 4] {
                for at in 0..n {
                    scen!($v, "C11", format!("C11/{}/{}/unstructured/n={}/at={}", w, $tag, n, at), "right vector moved in one place, generic values", depth = 0, paths = 1, replays = 1, $m::unstructured(n, at, tipa));
                }
            }
            for what in 0..9usize {
                if what > 6 && !tipa { continue; }
                scen!($v, "C11", format!("C11/{}/{}/tamper/n=4/what={}", w, $tag, what), "size 4, one part changed, generic values", depth = 0, paths = 1, replays = 1, $m::tamper(4, what, tipa));
            }
            for n in [2usize, 4] {
                for j in 0..n.trailing_zeros() as usize + tipa as usize {
                    scen!($v, "C06", format!("C06/{}-ssm/{}/n={}/round={}", w, $tag, n, j), "structured-scalar verifiers, all messages of a round or the final key replaced", depth = 0, paths = 30, replays = 8, $m::bind_round(n, j, tipa));
                }
                for k in [4usize, 20, 300, 66_000] {
                    if k > 1000 && n > 2 { continue; }
                    scen!($v, "C06", format!("C06/{}-ssm/{}/stubborn={}/n={}", w, $tag, k, n), "honest proof, 4, 20, 300 or 66000 unusable digest outputs before each challenge", depth = 0, paths = 1, replays = (k < 1000) as usize, $m::stubborn(n, k, tipa));
                }
                scen!($v, "C06", format!("C06/{}-ssm/{}/retry/n={}", w, $tag, n), "honest proof, up to 3 unusable digest outputs", depth = 3, paths = 40, replays = 6, $m::complete(n, 2, tipa));
            }
            for n in [2usize, 4] {
                scen!($v, "C06", format!("C06/{}-ssm/{}/entropy/n={}", w, $tag, n), "structured-scalar provers, round and opening challenges", depth = 0, paths = 1, replays = 1, $m::entropy(n, tipa));
            }
            for what in 0..3usize {
                scen!($v, "C07", format!("C07/{}-ssm/{}/{}", w, $tag, what), "structured-scalar verifiers, 2 rounds", depth = 0, paths = 10, replays = 2, $m::binds(4, what, tipa));
            }
            for k in 0..5usize {
                for n in [1usize, 2, 4, 8] {
                    if tipa && n > 1 { continue; }
                    scen!($v, "C24", format!("C24/{}-ssm/{}/keys={}/rounds={}", w, $tag, n, k), "structured-scalar verifiers, rounds 0..4", depth = 1, paths = 20, replays = 2, $m::rounds(n, k, tipa));
                }
            }
            for k in [5usize, 6, 7, 8, 9, 10, 16, 24, 30, 31, 32, 33, 63, 64, 65, 128] {
                if tipa && k >= 30 { continue; }
                scen!($v, "C24", format!("C24/{}-ssm/{}/keys=2/rounds={}", w, $tag, k), "structured-scalar verifiers, GIPA up to 128, TIPA up to 24 rounds, generic elements", depth = 0, paths = 2, replays = 1, $m::rounds(2, k, tipa));
            }
            if !tipa {
                for n in [0usize, 3, 5] {
                    scen!($v, "C24", format!("C24/{}-ssm/{}/keys={}/rounds=2", w, $tag, n), "number of keys not a power of two", depth = 1, paths = 20, replays = 2, $m::rounds(n, 2, tipa));
                }
            }
            for n in [2usize, 4, 8] {
                scen!($v, "C24", format!("C24/{}-ssm/{}/reshaped/n={}", w, $tag, n), "honest proof, rounds removed, repeated, reversed; generic values", depth = 0, paths = 1, replays = 1, $m::reshaped(n, tipa));
            }
        }
        for n in [1usize, 2, 4] {
            for h in [false, true] {
                scen!($v, "C25", format!("C25/tipa-ssm/{}/n={}/honest={}", $tag, n, h), format!("structured-scalar TIPA proof, {} rounds", n.trailing_zeros()), depth = 1, paths = 12, replays = 2, $m::serial(n, h));
            }
        }
        for n in [1usize, 2, 4, 8] {
            scen!($v, "C26", format!("C26/ssm/{}/n={}", $tag, n), format!("size {}, pools of 1, 2, 3, 5 and 8 threads", n), depth = 0, paths = 1, replays = 1, $m::threads(n));
        }
    };
}
pub fn register(v: &mut Vec<Scen>) {
    reg!(v, sm, "multiexp");
    reg!(v, sk, "scalar");
}
