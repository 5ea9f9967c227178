//! GIPA and TIPA: C03, C04, C05, C06, C07, C08, C09, C24, C25, C26 for three inner products.
use crate::runner::Scen;
use crate::scen;
use crate::scen::basic::{dot, fs};
use crate::scen::bind::*;
use crate::world::*;
use ark_dh_commitments::afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2};
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput};
use ark_dh_commitments::pedersen::PedersenCommitment;
use ark_dh_commitments::DoublyHomomorphicCommitment as Dhc;
use ark_ec::Group;
use ark_ff::{Field, One, Zero};
use ark_inner_products::*;
use ark_ip_proofs::gipa::{GIPAProof, GIPA};
use ark_ip_proofs::tipa::{TIPAProof, VerifierSRS, SRS, TIPA};

/// The relation GIPA's verifier decides, on discrete logarithms.
/// `steps` are the round messages in the order of the protocol (first round first).
pub struct Folded<W: World> {
    pub com: [F<W>; 3],
    /// challenges, last round first (the order of the transcript)
    pub x: Vec<F<W>>,
}
pub fn fold<W: World>(com: [F<W>; 3], steps: &[[[F<W>; 3]; 2]], h: &[F<W>]) -> Folded<W> {
    let mut com = com;
    let mut x = vec![];
    for (s, h) in steps.iter().zip(h) {
        // the digest gives the inverse of the challenge that multiplies the first message
        let c = h.inverse().unwrap();
        for k in 0..3 {
            com[k] = com[k] + s[0][k] * c + s[1][k] * *h;
        }
        x.push(c);
    }
    x.reverse();
    Folded { com, x }
}
/// Sum over i of v_i * prod of y_j over the set bits j of i.
pub fn fold_key<W: World>(v: &[F<W>], y: &[F<W>]) -> F<W> {
    let mut s = F::<W>::zero();
    for (i, k) in v.iter().enumerate() {
        let mut t = *k;
        for (j, yj) in y.iter().enumerate() {
            if i >> j & 1 == 1 {
                t *= yj;
            }
        }
        s += t;
    }
    s
}
pub fn inv_all<W: World>(x: &[F<W>]) -> Vec<F<W>> {
    x.iter().map(|x| x.inverse().unwrap()).collect()
}
/// prod over j of (1 + y_j * z^(2^j))
pub fn prod_form<W: World>(y: &[F<W>], z: F<W>) -> F<W> {
    let mut p = z;
    let mut r = F::<W>::one();
    for yj in y {
        r *= F::<W>::one() + *yj * p;
        p = p * p;
    }
    r
}
/// free round messages, protocol order
pub fn free_steps<W: World>(k: usize) -> Vec<[[F<W>; 3]; 2]> {
    (0..k)
        .map(|j| {
            let m = |s: &str| W::f(&format!("m{}{}", j, s), FREE);
            [[m("La"), m("Lb"), m("Lt")], [m("Ra"), m("Rb"), m("Rt")]]
        })
        .collect()
}
pub fn vec_bytes(items: &[Vec<u8>]) -> Vec<u8> {
    let mut v = (items.len() as u64).to_le_bytes().to_vec();
    for i in items {
        v.extend(i);
    }
    v
}

macro_rules! instance {
    ($m:ident, $tag:expr, $ip:ty, $l:ty, $r:ty, $t:ty, $tkeyed:expr,
     lm=$lm:expr, rm=$rm:expr, om=$om:expr, lk=$lk:expr, rk=$rk:expr, tk=$tk:expr, lc=$lc:expr, rc=$rc:expr, tc=$tc:expr) => {
        pub mod $m {
            use super::*;
            pub type Ip<W> = $ip;
            pub type L<W> = $l;
            pub type R<W> = $r;
            pub type T<W> = $t;
            pub type G<W> = GIPA<Ip<W>, L<W>, R<W>, T<W>, <W as World>::D>;
            pub type GP<W> = GIPAProof<Ip<W>, L<W>, R<W>, T<W>, <W as World>::D>;
            pub type TI<W> = TIPA<Ip<W>, L<W>, R<W>, T<W>, <W as World>::P, <W as World>::D>;
            pub type TP<W> = TIPAProof<Ip<W>, L<W>, R<W>, T<W>, <W as World>::P, <W as World>::D>;
            pub fn lm<W: World>(x: F<W>) -> <L<W> as Dhc>::Message { ($lm)(x) }
            pub fn rm<W: World>(x: F<W>) -> <R<W> as Dhc>::Message { ($rm)(x) }
            pub fn om<W: World>(x: F<W>) -> <T<W> as Dhc>::Message { ($om)(x) }
            pub fn lk<W: World>(x: F<W>) -> <L<W> as Dhc>::Key { ($lk)(x) }
            pub fn rk<W: World>(x: F<W>) -> <R<W> as Dhc>::Key { ($rk)(x) }
            pub fn tk<W: World>(x: F<W>) -> <T<W> as Dhc>::Key { ($tk)(x) }
            pub fn lc<W: World>(x: F<W>) -> <L<W> as Dhc>::Output { ($lc)(x) }
            pub fn rc<W: World>(x: F<W>) -> <R<W> as Dhc>::Output { ($rc)(x) }
            pub fn tc<W: World>(x: F<W>) -> <T<W> as Dhc>::Output { ($tc)(x) }
            pub fn lms<W: World>(v: &[F<W>]) -> Vec<<L<W> as Dhc>::Message> { v.iter().map(|x| lm::<W>(*x)).collect() }
            pub fn rms<W: World>(v: &[F<W>]) -> Vec<<R<W> as Dhc>::Message> { v.iter().map(|x| rm::<W>(*x)).collect() }
            pub fn lks<W: World>(v: &[F<W>]) -> Vec<<L<W> as Dhc>::Key> { v.iter().map(|x| lk::<W>(*x)).collect() }
            pub fn rks<W: World>(v: &[F<W>]) -> Vec<<R<W> as Dhc>::Key> { v.iter().map(|x| rk::<W>(*x)).collect() }
            /// log of the commitment to an inner product with log t under key log k
            pub fn tcom<W: World>(t: F<W>, k: F<W>) -> F<W> { if $tkeyed { t * k } else { t } }

            pub fn gipa_bytes<W: World>(steps: &[[[F<W>; 3]; 2]], base: (F<W>, F<W>)) -> Vec<u8> {
                let items: Vec<Vec<u8>> = steps
                    .iter()
                    .rev()
                    .map(|s| {
                        let mut b = vec![];
                        for h in 0..2 {
                            ser(&lc::<W>(s[h][0]), &mut b);
                            ser(&rc::<W>(s[h][1]), &mut b);
                            ser(&tc::<W>(s[h][2]), &mut b);
                        }
                        b
                    })
                    .collect();
                let mut v = vec_bytes(&items);
                ser(&lm::<W>(base.0), &mut v);
                ser(&rm::<W>(base.1), &mut v);
                v
            }
            /// encodings of the elements of each round's messages
            pub fn round_msgs<W: World>(steps: &[[[F<W>; 3]; 2]]) -> Vec<Vec<Vec<u8>>> {
                steps.iter().map(|s| (0..2).flat_map(|h| [bytes(&lc::<W>(s[h][0])), bytes(&rc::<W>(s[h][1])), bytes(&tc::<W>(s[h][2]))]).collect()).collect()
            }
            pub struct St<W: World> {
                pub a: Vec<F<W>>,
                pub b: Vec<F<W>>,
                pub ka: Vec<F<W>>,
                pub kb: Vec<F<W>>,
                pub kt: F<W>,
                pub com: [F<W>; 3],
                pub t: F<W>,
            }
            pub fn statement<W: World>(n: usize) -> St<W> {
                let (a, b) = (fs::<W>("a", n), fs::<W>("b", n));
                let ka: Vec<F<W>> = (0..n).map(|i| W::f(&format!("ka{}", i), KEY)).collect();
                let kb: Vec<F<W>> = (0..n).map(|i| W::f(&format!("kb{}", i), KEY)).collect();
                let kt = W::f("kt", KEY);
                let t = dot::<W>(&a, &b);
                let com = [dot::<W>(&a, &ka), dot::<W>(&b, &kb), tcom::<W>(t, kt)];
                St { a, b, ka, kb, kt, com, t }
            }
            pub fn prove<W: World>(s: &St<W>) -> Result<Result<GP<W>, String>, String> {
                let (a, b, ka, kb, kt) = (lms::<W>(&s.a), rms::<W>(&s.b), lks::<W>(&s.ka), rks::<W>(&s.kb), tk::<W>(s.kt));
                let (ca, cb, ct) = (lc::<W>(s.com[0]), rc::<W>(s.com[1]), tc::<W>(s.com[2]));
                let o = om::<W>(s.t);
                guard(|| G::<W>::prove((&a, &b, &o), (&ka, &kb, &kt), (&ca, &cb, &ct)).map_err(|e| e.to_string()))
            }
            pub fn verify<W: World>(s: &St<W>, p: &GP<W>) -> Verdict {
                let (ka, kb, kt) = (lks::<W>(&s.ka), rks::<W>(&s.kb), tk::<W>(s.kt));
                let (ca, cb, ct) = (lc::<W>(s.com[0]), rc::<W>(s.com[1]), tc::<W>(s.com[2]));
                verdict(|| G::<W>::verify((&ka, &kb, &kt), (&ca, &cb, &ct), p))
            }

            // ---- C03
            pub fn gipa_complete<W: World>(n: usize) {
                let s = statement::<W>(n);
                let p = prove::<W>(&s);
                let p = match p {
                    Ok(Ok(p)) => p,
                    Ok(Err(e)) => return W::fail("prover returns a proof of a true statement", e),
                    Err(e) => return W::fail("prover returns a proof of a true statement", format!("panic: {}", e)),
                };
                W::observe("queries after proving", format!("{}", W::n_queries()));
                let v = verify::<W>(&s, &p);
                W::observe("verdict", format!("{:?}", v));
                W::check("honest proof accepted", v == Verdict::Accept);
            }
            /// keys from setup
            pub fn gipa_setup<W: World>(n: usize) {
                let mut rng = W::rng();
                let (ka, kb, kt) = match G::<W>::setup(&mut rng, n) {
                    Ok(x) => x,
                    Err(e) => return W::fail("setup", e.to_string()),
                };
                W::check("setup key lengths", ka.len() == n && kb.len() == n);
                let (a, b) = (lms::<W>(&fs::<W>("a", n)), rms::<W>(&fs::<W>("b", n)));
                let go = || -> Result<bool, Error> {
                    let t = Ip::<W>::inner_product(&a, &b)?;
                    let (ca, cb, ct) = (L::<W>::commit(&ka, &a)?, R::<W>::commit(&kb, &b)?, T::<W>::commit(&[kt.clone()], &[t.clone()])?);
                    let p = G::<W>::prove((&a, &b, &t), (&ka, &kb, &kt), (&ca, &cb, &ct))?;
                    G::<W>::verify((&ka, &kb, &kt), (&ca, &cb, &ct), &p)
                };
                let v = verdict(go);
                W::observe("verdict", format!("{:?}", v));
                W::check("honest proof over setup keys accepted", v == Verdict::Accept);
            }
            // ---- C04
            /// one of: claimed value / one commitment is arbitrary
            pub fn gipa_refuse<W: World>(n: usize, what: u8) {
                let mut s = statement::<W>(n);
                let want_t = s.t;
                let want = s.com;
                match what {
                    0 => {
                        s.t = W::f("t", FREE);
                        s.com[2] = tcom::<W>(s.t, s.kt);
                    }
                    1 => s.com[0] = W::f("ca", FREE),
                    2 => s.com[1] = W::f("cb", FREE),
                    3 => s.com[2] = W::f("ct", FREE),
                    _ => {
                        s.t = W::f("t", FREE);
                        s.com = [W::f("ca", FREE), W::f("cb", FREE), W::f("ct", FREE)];
                    }
                }
                let r = prove::<W>(&s);
                W::observe("result", match &r { Ok(Ok(_)) => "proof".into(), Ok(Err(_)) => "error".into(), Err(_) => "panic".to_string() });
                let truth = s.t == want_t && s.com[0] == want[0] && s.com[1] == want[1] && s.com[2] == want[2];
                if truth {
                    W::check("true statement proven", matches!(r, Ok(Ok(_))));
                } else {
                    W::check("false statement refused with an error", matches!(r, Ok(Err(_))));
                }
            }
            /// a scalar multiple or permutation of the right vectors is still a different statement
            pub fn gipa_refuse_vec<W: World>(n: usize) {
                let s = statement::<W>(n);
                let mut s2 = statement::<W>(n);
                let d = W::f("delta", FREE);
                // the vectors move, the claimed value and commitments stay
                s2.a[n - 1] += d;
                let r = prove::<W>(&s2);
                let truth = d.is_zero()
                    || (dot::<W>(&s2.a, &s2.b) == s.t && dot::<W>(&s2.a, &s.ka) == s.com[0]);
                if truth {
                    W::check("true statement proven", matches!(r, Ok(Ok(_))));
                } else {
                    W::check("moved vector refused with an error", matches!(r, Ok(Err(_))));
                }
            }
            pub fn gipa_lengths<W: World>(max: usize) {
                for n in 0..=max { for m in 0..=max { for p in 0..=max { for q in 0..=max {
                    if n == m && m == p && p == q && n.is_power_of_two() { continue; }
                    // honest values wherever the lengths allow them
                    let a = fs::<W>("a", n);
                    let b = fs::<W>("b", m);
                    let ka = fs::<W>("ka", p);
                    let kb = fs::<W>("kb", q);
                    let s = St::<W> { t: dot::<W>(&a, &b), com: [dot::<W>(&a, &ka), dot::<W>(&b, &kb), tcom::<W>(dot::<W>(&a, &b), W::f("kt", KEY))], a, b, ka, kb, kt: W::f("kt", KEY) };
                    let r = prove::<W>(&s);
                    W::check_msg("ill-formed lengths are refused with an error", matches!(r, Ok(Err(_))), || format!("lengths {} {} {} {}", n, m, p, q));
                }}}}
            }
            // ---- C05
            pub fn free_statement<W: World>(n: usize) -> St<W> {
                let mut s = statement::<W>(n);
                s.com = [W::f("ca", FREE), W::f("cb", FREE), W::f("ct", FREE)];
                s
            }
            pub fn gipa_exact<W: World>(n: usize) {
                let k = n.trailing_zeros() as usize;
                let s = free_statement::<W>(n);
                let steps = free_steps::<W>(k);
                let base = (W::f("fa", STMT), W::f("fb", STMT));
                let p: GP<W> = de(&gipa_bytes::<W>(&steps, base));
                let v = verify::<W>(&s, &p);
                W::observe("verdict", format!("{:?}", v));
                W::set_cost(0);
                let e = find_rounds::<W>(&round_msgs::<W>(&steps)).map(|h| {
                    let fo = fold::<W>(s.com, &steps, &h);
                    let ka = fold_key::<W>(&s.ka, &inv_all::<W>(&fo.x));
                    let kb = fold_key::<W>(&s.kb, &fo.x);
                    [fo.com[0] - base.0 * ka, fo.com[1] - base.1 * kb, fo.com[2] - tcom::<W>(base.0 * base.1, s.kt)]
                });
                judge::<W>(&v, &[&|| e.map(|e| e[0].is_zero()), &|| e.map(|e| e[1].is_zero()), &|| e.map(|e| e[2].is_zero())]);
            }
            /// honest proof, one element of statement or proof moved by delta
            pub fn gipa_tamper<W: World>(n: usize, pos: usize) {
                // for a generic statement, change and challenges; `exact` decides every other case
                W::set_cost(u32::MAX);
                let mut s = statement::<W>(n);
                let p = match prove::<W>(&s) { Ok(Ok(p)) => p, _ => return W::fail("prover returns a proof of a true statement", String::new()) };
                let d = W::f("delta", FREE);
                let k = n.trailing_zeros() as usize;
                match pos {
                    0..=2 => s.com[pos] += d,
                    3 => s.ka[n - 1] += d,
                    4 => s.kb[0] += d,
                    5 => s.kt += d,
                    _ => {}
                }
                let v = if pos < 6 {
                    verify::<W>(&s, &p)
                } else {
                    // proof elements: 6 per round then the two final values
                    let b = bytes(&p);
                    let (b2, moved) = super::bump::<W>(&b, pos - 6, d, &|kind, x| match kind % 9 {
                        0 | 3 => bytes(&lc::<W>(x)), 1 | 4 => bytes(&rc::<W>(x)), 2 | 5 => bytes(&tc::<W>(x)), 6 => bytes(&lm::<W>(x)), _ => bytes(&rm::<W>(x)),
                    }, k, &|kind, raw| match kind % 9 {
                        0 | 3 => add_raw::<W, <L<W> as Dhc>::Output>(raw, lc::<W>(d)),
                        1 | 4 => add_raw::<W, <R<W> as Dhc>::Output>(raw, rc::<W>(d)),
                        2 | 5 => add_raw::<W, <T<W> as Dhc>::Output>(raw, tc::<W>(d)),
                        6 => add_raw::<W, <L<W> as Dhc>::Message>(raw, lm::<W>(d)),
                        _ => add_raw::<W, <R<W> as Dhc>::Message>(raw, rm::<W>(d)),
                    });
                    if !moved { return; }
                    let p2: GP<W> = de(&b2);
                    verify::<W>(&s, &p2)
                };
                W::observe("verdict", format!("{:?}", v));
                W::check("a moved element is rejected", v == Verdict::Reject);
            }
        }
    };
}
pub fn add_raw<W: World, X: ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize + std::ops::Add<X, Output = X>>(raw: &[u8], d: X) -> Vec<u8> {
    let x: X = de(raw);
    bytes(&(x + d))
}
/// Adds a difference to element `idx` of serialized GIPA proof bytes (6 per stored round, then 2 final values).
pub fn bump<W: World>(
    b: &[u8],
    idx: usize,
    _d: F<W>,
    size_of: &dyn Fn(usize, F<W>) -> Vec<u8>,
    rounds: usize,
    add: &dyn Fn(usize, &[u8]) -> Vec<u8>,
) -> (Vec<u8>, bool) {
    let mut at = 8;
    let one = F::<W>::one();
    for i in 0..6 * rounds + 2 {
        let kind = if i < 6 * rounds { i % 6 } else { 6 + (i - 6 * rounds) };
        let n = size_of(kind, one).len();
        if i == idx {
            let new = add(kind, &b[at..at + n]);
            let mut out = b[..at].to_vec();
            out.extend(new);
            out.extend(&b[at + n..]);
            return (out, true);
        }
        at += n;
    }
    (b.to_vec(), false)
}

instance!(pair, "pairing",
    PairingInnerProduct<<W as World>::P>, AFGHOCommitmentG1<<W as World>::P>, AFGHOCommitmentG2<<W as World>::P>, IdentityCommitment<GT<W>, F<W>>, false,
    lm=|x| G1::<W>::generator() * x, rm=|x| G2::<W>::generator() * x, om=|x| gtgen::<W>() * x,
    lk=|x| G2::<W>::generator() * x, rk=|x| G1::<W>::generator() * x, tk=|_x| HomomorphicPlaceholderValue {},
    lc=|x| gtgen::<W>() * x, rc=|x| gtgen::<W>() * x, tc=|x| IdentityOutput(vec![gtgen::<W>() * x]));
instance!(mexp, "multiexp",
    MultiexponentiationInnerProduct<G1<W>>, AFGHOCommitmentG1<<W as World>::P>, PedersenCommitment<G1<W>>, IdentityCommitment<G1<W>, F<W>>, false,
    lm=|x| G1::<W>::generator() * x, rm=|x| x, om=|x| G1::<W>::generator() * x,
    lk=|x| G2::<W>::generator() * x, rk=|x| G1::<W>::generator() * x, tk=|_x| HomomorphicPlaceholderValue {},
    lc=|x| gtgen::<W>() * x, rc=|x| G1::<W>::generator() * x, tc=|x| IdentityOutput(vec![G1::<W>::generator() * x]));
instance!(scal, "scalar",
    ScalarInnerProduct<F<W>>, PedersenCommitment<G2<W>>, PedersenCommitment<G1<W>>, PedersenCommitment<G1<W>>, true,
    lm=|x| x, rm=|x| x, om=|x| x,
    lk=|x| G2::<W>::generator() * x, rk=|x| G1::<W>::generator() * x, tk=|x| G1::<W>::generator() * x,
    lc=|x| G2::<W>::generator() * x, rc=|x| G1::<W>::generator() * x, tc=|x| G1::<W>::generator() * x);

macro_rules! reg {
    ($v:expr, $m:ident, $tag:expr) => {
        for n in [1usize, 2, 4, 8, 16] {
            let b = format!("vectors of length {}, all values, keys and challenges symbolic", n);
            scen!($v, "C03", format!("C03/{}/n={}", $tag, n), b, depth = 2, paths = 40, replays = 3, $m::gipa_complete(n));
        }
        scen!($v, "C03", format!("C03/{}/n=32", $tag), "length 32", depth = 1, paths = 12, replays = 1, $m::gipa_complete(32));
        for n in [64usize, 128, 256, 512] {
            scen!($v, "C03", format!("C03/{}/n={}", $tag, n), format!("length {}, generic values", n), depth = 0, paths = 1, replays = 1, $m::gipa_complete(n));
        }
        for n in [1024usize, 2048] {
            scen!(deep $v, "C03", format!("C03/{}/n={}", $tag, n), format!("length {}, generic values", n), depth = 0, paths = 1, replays = 1, $m::gipa_complete(n));
        }
        scen!($v, "C03", format!("C03/{}/setup/n=4", $tag), "length 4, keys from setup", depth = 1, paths = 12, replays = 1, $m::gipa_setup(4));
        for n in [1usize, 2, 4] {
            for w in 0..5u8 {
                scen!($v, "C04", format!("C04/{}/n={}/free={}", $tag, n, w), format!("length {}, arbitrary claim {}", n, w), depth = 4, paths = 40, replays = 3, $m::gipa_refuse(n, w));
            }
            scen!($v, "C04", format!("C04/{}/n={}/moved", $tag, n), format!("length {}", n), depth = 3, paths = 40, replays = 3, $m::gipa_refuse_vec(n));
        }
        scen!($v, "C04", format!("C04/{}/lengths", $tag), "all length quadruples up to 5", depth = 0, paths = 4, replays = 1, $m::gipa_lengths(5));
        for n in [1usize, 2, 4, 8] {
            scen!($v, "C05", format!("C05/{}/exact/n={}", $tag, n), format!("length {}, proof elements and challenges free", n), depth = 1, paths = 60, replays = 8, $m::gipa_exact(n));
        }
        for n in [16usize, 32, 64] {
            scen!($v, "C05", format!("C05/{}/exact/n={}", $tag, n), format!("length {}, proof elements and challenges free", n), depth = 1, paths = 40, replays = 4, $m::gipa_exact(n));
        }
        for pos in 0..6 + 14usize {
            if pos == 5 && $tag != "scalar" { continue; }
            scen!($v, "C05", format!("C05/{}/tamper/n=4/pos={}", $tag, pos), "length 4, one element moved, generic values", depth = 0, paths = 1, replays = 2, $m::gipa_tamper(4, pos));
        }
    };
}
pub fn register(v: &mut Vec<Scen>) {
    reg!(v, pair, "pairing");
    reg!(v, mexp, "multiexp");
    reg!(v, scal, "scalar");
    let _ = std::marker::PhantomData::<(VerifierSRS<<Sym as World>::P>, SRS<<Sym as World>::P>)>;
}
