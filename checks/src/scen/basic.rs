//! C02 commitments.
use crate::runner::Scen;
use crate::scen;
use crate::world::*;
use ark_dh_commitments::afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2};
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput};
use ark_dh_commitments::pedersen::PedersenCommitment;
use ark_dh_commitments::DoublyHomomorphicCommitment as Dhc;
use ark_ec::pairing::Pairing;
use ark_ec::Group;
use ark_ff::Zero;
pub use crate::scen::products::*;
use std::ops::{Add, MulAssign};

// ---------------------------------------------------------------- commitments
fn dhc<W: World, C>(n: usize, keys: [Vec<C::Key>; 2], msgs: [Vec<C::Message>; 2], keyed: bool)
where
    C: Dhc<Scalar = F<W>>,
    C::Key: Add<Output = C::Key> + MulAssign<F<W>>,
{
    let s = W::f("s", STMT);
    let add = |x: &[C::Message], y: &[C::Message]| -> Vec<C::Message> { x.iter().zip(y).map(|(a, b)| a.clone() + b.clone()).collect() };
    let c = |k: &[C::Key], m: &[C::Message]| C::commit(k, m).ok();
    let com = |k: &[C::Key], m: &[C::Message]| c(k, m).expect("commit");
    let [k0, k1] = &keys;
    let [m0, m1] = &msgs;
    let (c00, c01) = (com(k0, m0), com(k0, m1));
    W::check("message sum", com(k0, &add(m0, m1)) == c00.clone() + c01.clone());
    let mut sm = m0.clone();
    for x in sm.iter_mut() {
        x.mul_assign(s);
    }
    let mut sc = c00.clone();
    sc.mul_assign(s);
    W::check("message scalar multiple", com(k0, &sm) == sc);
    if keyed {
        let k01: Vec<C::Key> = k0.iter().zip(k1).map(|(a, b)| a.clone() + b.clone()).collect();
        W::check("key sum", com(&k01, m0) == c00.clone() + com(k1, m0));
        let mut sk = k0.clone();
        for x in sk.iter_mut() {
            x.mul_assign(s);
        }
        W::check("key scalar multiple", com(&sk, m0) == sc);
        for len in [n.wrapping_sub(1), n + 1, 2 * n] {
            if len == n || len > 64 {
                continue;
            }
            let m: Vec<C::Message> = m0.iter().chain(m1).cloned().chain(std::iter::repeat(C::Message::default())).take(len).collect();
            W::check("wrong length is an error", matches!(guard(|| c(k0, &m)), Ok(None)));
            W::check("verify of wrong length is not acceptance", !matches!(guard(|| C::verify(k0, &m, &c00).ok()), Ok(Some(true)) | Err(_)));
        }
    }
    W::check("own commitment verifies", matches!(C::verify(k0, m0, &c00), Ok(true)));
}
/// value oracle plus exact verification for an arbitrary commitment
fn dhc_exact<W: World, C>(k: Vec<C::Key>, m: Vec<C::Message>, claimed: C::Output, value: C::Output)
where
    C: Dhc<Scalar = F<W>>,
{
    W::check("commitment value", C::commit(&k, &m).map(|c| c == value).unwrap_or(false));
    let v = verdict(|| C::verify(&k, &m, &claimed));
    W::observe("verify", format!("{:?}", v));
    W::check("verify is exact", (claimed == value) == (v == Verdict::Accept) && v != Verdict::Panic);
}
fn pedersen<W: World>(n: usize, second: bool) {
    let (k, m) = (fs::<W>("k", n), fs::<W>("m", n));
    if second {
        type C<W> = PedersenCommitment<G2<W>>;
        dhc::<W, C<W>>(n, [g2s::<W>("k", n), g2s::<W>("l", n)], [m.clone(), fs::<W>("w", n)], true);
        dhc_exact::<W, C<W>>(g2s::<W>("k", n), m.clone(), W::g2("c", FREE), G2::<W>::generator() * dot::<W>(&k, &m));
    } else {
        type C<W> = PedersenCommitment<G1<W>>;
        dhc::<W, C<W>>(n, [g1s::<W>("k", n), g1s::<W>("l", n)], [m.clone(), fs::<W>("w", n)], true);
        dhc_exact::<W, C<W>>(g1s::<W>("k", n), m.clone(), W::g1("c", FREE), G1::<W>::generator() * dot::<W>(&k, &m));
    }
}
fn afgho1<W: World>(n: usize) {
    type C<W> = AFGHOCommitmentG1<<W as World>::P>;
    let (k, m) = (fs::<W>("k", n), fs::<W>("m", n));
    dhc::<W, C<W>>(n, [g2s::<W>("k", n), g2s::<W>("l", n)], [g1s::<W>("m", n), g1s::<W>("w", n)], true);
    dhc_exact::<W, C<W>>(g2s::<W>("k", n), g1s::<W>("m", n), W::gt("c", FREE), gtgen::<W>() * dot::<W>(&k, &m));
}
fn afgho2<W: World>(n: usize) {
    type C<W> = AFGHOCommitmentG2<<W as World>::P>;
    let (k, m) = (fs::<W>("k", n), fs::<W>("m", n));
    dhc::<W, C<W>>(n, [g1s::<W>("k", n), g1s::<W>("l", n)], [g2s::<W>("m", n), g2s::<W>("w", n)], true);
    dhc_exact::<W, C<W>>(g1s::<W>("k", n), g2s::<W>("m", n), W::gt("c", FREE), gtgen::<W>() * dot::<W>(&k, &m));
}
fn identity<W: World>(n: usize, kind: u8) {
    let k = || vec![HomomorphicPlaceholderValue {}; n];
    match kind {
        0 => {
            type C<W> = IdentityCommitment<F<W>, F<W>>;
            let m = fs::<W>("m", n);
            dhc::<W, C<W>>(n, [k(), k()], [m.clone(), fs::<W>("w", n)], false);
            dhc_exact::<W, C<W>>(k(), m.clone(), IdentityOutput(fs::<W>("c", n)), IdentityOutput(m.clone()));
            let mut longer = m.clone();
            longer.push(W::f("x", STMT));
            W::check("other length is not the same output", !matches!(C::<W>::verify(&k(), &m, &IdentityOutput(longer)), Ok(true)));
        }
        1 => {
            type C<W> = IdentityCommitment<G1<W>, F<W>>;
            dhc::<W, C<W>>(n, [k(), k()], [g1s::<W>("m", n), g1s::<W>("w", n)], false);
            dhc_exact::<W, C<W>>(k(), g1s::<W>("m", n), IdentityOutput(g1s::<W>("c", n)), IdentityOutput(g1s::<W>("m", n)));
        }
        _ => {
            type C<W> = IdentityCommitment<GT<W>, F<W>>;
            let g = |p: &str| -> Vec<GT<W>> { fs::<W>(p, n).into_iter().map(|x| gtgen::<W>() * x).collect() };
            dhc::<W, C<W>>(n, [k(), k()], [g("m"), g("w")], false);
            dhc_exact::<W, C<W>>(k(), g("m"), IdentityOutput(g("c")), IdentityOutput(g("m")));
        }
    }
}
/// Key generation: the requested number of keys, each an independent sample.
fn keygen<W: World>(n: usize) {
    // coincidences between samples are negligible
    W::set_cost(u32::MAX);
    let mut rng = W::rng();
    fn distinct<K: PartialEq + Zero>(v: &[K]) -> bool {
        v.iter().enumerate().all(|(i, x)| !x.is_zero() && v[..i].iter().all(|y| y != x))
    }
    let p = PedersenCommitment::<G1<W>>::setup(&mut rng, n).expect("setup");
    W::check("pedersen key count", p.len() == n);
    let a = AFGHOCommitmentG1::<W::P>::setup(&mut rng, n).expect("setup");
    W::check("afgho1 key count", a.len() == n);
    let b = AFGHOCommitmentG2::<W::P>::setup(&mut rng, n).expect("setup");
    W::check("afgho2 key count", b.len() == n);
    let i = IdentityCommitment::<F<W>, F<W>>::setup(&mut rng, n).expect("setup");
    W::check("identity key count", i.len() == n);
    let g = ark_dh_commitments::random_generators::<_, G1<W>>(&mut rng, n);
    W::check("random_generators count", g.len() == n);
    // independent sampling: no relation between keys, in particular none repeated or trivial
    let drawn = rng.drawn();
    let all: Vec<G1<W>> = p.iter().chain(&b).chain(&g).cloned().collect();
    W::check("G1 keys pairwise distinct and non-trivial", distinct(&all));
    W::check("G2 keys pairwise distinct and non-trivial", distinct(&a));
    // n independent keys are a function of at least n samples, and none is a combination of others
    let ok = if W::SYM { fresh(&all, &a) } else { drawn >= 31 * 4 * n && unrelated(&p) && unrelated(&b) && unrelated(&g) && unrelated(&a) };
    W::check("the keys are independent samples", ok);
}
/// Keys of any of the commitment schemes, to be judged together; keys without a group element are ignored.
pub struct Bag<W: World> {
    pub g1: Vec<G1<W>>,
    pub g2: Vec<G2<W>>,
}
impl<W: World> Bag<W> {
    pub fn new() -> Self {
        Bag { g1: vec![], g2: vec![] }
    }
    pub fn add<K: 'static>(&mut self, ks: &[K]) {
        for k in ks {
            let k = k as &dyn std::any::Any;
            self.g1.extend(k.downcast_ref::<G1<W>>().cloned());
            self.g2.extend(k.downcast_ref::<G2<W>>().cloned());
        }
    }
    /// every key is an independent sample
    pub fn independent(&self, drawn: usize) -> bool {
        if W::SYM {
            return fresh(&self.g1, &self.g2);
        }
        let (g, h) = (G1::<W>::generator(), G2::<W>::generator());
        let lift = |x: &G1<W>| <W::P as Pairing>::pairing(x, h);
        drawn >= 31 * (self.g1.len() + self.g2.len())
            && unrelated(&self.g1)
            && unrelated(&self.g2)
            && self.g1.iter().take(12).map(lift).all(|x| self.g2.iter().take(12).all(|y| <W::P as Pairing>::pairing(g, y) != x))
    }
}
/// Concrete stand-in for `fresh`: no two keys have a small ratio and no key is a small combination of two others.
fn unrelated<G: Group>(k: &[G]) -> bool {
    let small = |g: &G| (-3i64..=3).filter(|c| *c != 0).map(|c| if c < 0 { -g.mul_bigint([c.unsigned_abs()]) } else { g.mul_bigint([c as u64]) }).collect::<Vec<G>>();
    let sm: Vec<Vec<G>> = k.iter().take(20).map(small).collect();
    for i in 0..sm.len() {
        for j in 0..i {
            for x in &sm[i] {
                for y in &sm[j] {
                    let t = *x + y;
                    if t.is_zero() || k.iter().take(20).enumerate().any(|(l, z)| l != i && l != j && (*z == t || z.double() == t)) {
                        return false;
                    }
                }
            }
        }
    }
    true
}
/// The Jacobian of the keys' discrete logarithms with respect to the samples has full row rank.
fn fresh<A: 'static, B: 'static>(x: &[A], y: &[B]) -> bool {
    use crate::sym::engine::st;
    use crate::sym::group::SymG;
    use ark_bls12_381::Fr;
    use ark_ff::Field;
    use std::any::Any;
    use std::collections::{BTreeMap, HashMap};
    let ts: Vec<_> = x
        .iter()
        .filter_map(|k| (k as &dyn Any).downcast_ref::<SymG<1>>().map(|g| g.0))
        .chain(y.iter().filter_map(|k| (k as &dyn Any).downcast_ref::<SymG<2>>().map(|g| g.0)))
        .collect();
    let mut rows: Vec<BTreeMap<u32, Fr>> = vec![];
    let mut s = st();
    // linear in the samples with rational coefficients: the solver looks for a combination that vanishes
    let lin: Option<Vec<(crate::sym::q::Q, Vec<(u32, crate::sym::q::Q)>)>> = ts
        .iter()
        .map(|t| {
            let (k, l) = s.as_lin(*t);
            let l: Option<Vec<_>> = l.into_iter().map(|(x, q)| match s.nodes[x as usize] { crate::sym::engine::Node::Var(v) => Some((v, q)), _ => None }).collect();
            l.map(|l| (k, l))
        })
        .collect();
    if let Some(lin) = lin {
        if let Some(b) = s.independent(&lin) {
            return b;
        }
    }
    for t in &ts {
        let mut row = BTreeMap::new();
        for v in s.var_set(*t) {
            let Some(c) = s.coefs_in(*t, v, &mut HashMap::new()) else { return false };
            let name = s.vars[v as usize].name.clone();
            let vt = s.var(&name, crate::sym::engine::Class::Rng, None);
            let xv = s.shadow[vt as usize];
            let d: Fr = c.iter().enumerate().skip(1).map(|(i, c)| s.shadow[*c as usize] * Fr::from(i as u64) * xv.pow([i as u64 - 1])).sum();
            if !d.is_zero() {
                row.insert(v, d);
            }
        }
        rows.push(row);
    }
    drop(s);
    let mut piv: BTreeMap<u32, BTreeMap<u32, Fr>> = BTreeMap::new();
    for mut r in rows {
        loop {
            let Some((v, c)) = r.iter().next().map(|(v, c)| (*v, *c)) else { return false };
            match piv.get(&v) {
                None => {
                    let i = c.inverse().unwrap();
                    for x in r.values_mut() {
                        *x *= i;
                    }
                    piv.insert(v, r);
                    break;
                }
                Some(p) => {
                    for (w, d) in p {
                        let e = r.entry(*w).or_insert(Fr::from(0u64));
                        *e -= c * d;
                        if e.is_zero() {
                            r.remove(w);
                        }
                    }
                }
            }
        }
    }
    true
}

pub fn register(v: &mut Vec<Scen>) {
    for n in [0usize, 1, 2, 3, 5, 8] {
        let b = format!("length {}", n);
        scen!(v, "C02", format!("C02/pedersen-g1/n={}", n), b, depth = 2, paths = 40, replays = 3, pedersen(n, false));
        scen!(v, "C02", format!("C02/pedersen-g2/n={}", n), b, depth = 2, paths = 40, replays = 3, pedersen(n, true));
        scen!(v, "C02", format!("C02/afgho-g1/n={}", n), b, depth = 2, paths = 40, replays = 3, afgho1(n));
        scen!(v, "C02", format!("C02/afgho-g2/n={}", n), b, depth = 2, paths = 40, replays = 3, afgho2(n));
        for k in 0..3u8 {
            scen!(v, "C02", format!("C02/identity-{}/n={}", k, n), b, depth = 2, paths = 40, replays = 3, identity(n, k));
        }
    }
    for n in [0usize, 1, 2, 3, 5, 8, 16, 17, 33, 64, 100, 256] {
        scen!(v, "C02", format!("C02/keygen/n={}", n), format!("{} keys", n), depth = 0, paths = 10, replays = 1, keygen(n));
    }
    for n in [9usize, 16, 17, 33, 64, 100] {
        let b = format!("length {}", n);
        scen!(v, "C02", format!("C02/pedersen-g1/n={}", n), b, depth = 1, paths = 8, replays = 2, pedersen(n, false));
        scen!(v, "C02", format!("C02/pedersen-g2/n={}", n), b, depth = 1, paths = 8, replays = 1, pedersen(n, true));
        scen!(v, "C02", format!("C02/afgho-g1/n={}", n), b, depth = 1, paths = 8, replays = 1, afgho1(n));
        scen!(v, "C02", format!("C02/afgho-g2/n={}", n), b, depth = 1, paths = 8, replays = 1, afgho2(n));
        for k in 0..3u8 {
            scen!(v, "C02", format!("C02/identity-{}/n={}", k, n), b, depth = 1, paths = 8, replays = 1, identity(n, k));
        }
    }
}
