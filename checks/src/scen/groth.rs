//! Groth16 aggregation: C19, C20, C27 and parts of C07, C24, C26.
use crate::runner::Scen;
use crate::scen;
use crate::scen::bind::*;
use crate::scen::ipa::pair;
use crate::scen::ipa::{fold, free_steps, inv_all, prod_form};
use crate::scen::ssm::{sm, Step};
use crate::scen::tipa::{in_pool, make_srs, pair as tpair, reshapes, Error, Vk, POOLS};
use crate::world::*;
use ark_ec::{CurveGroup, Group};
use ark_ff::{Field, One, Zero};
use ark_groth16::{Proof, VerifyingKey};
use ark_ip_proofs::applications::groth16_aggregation::*;

type AP<W> = AggregateProof<<W as World>::P, <W as World>::D>;

fn a1<W: World>(x: F<W>) -> A1<W> {
    (G1::<W>::generator() * x).into_affine()
}
fn a2<W: World>(x: F<W>) -> A2<W> {
    (G2::<W>::generator() * x).into_affine()
}
/// logs of a verifying key
struct Key<W: World> {
    al: F<W>,
    be: F<W>,
    ga: F<W>,
    de: F<W>,
    ic: Vec<F<W>>,
}
impl<W: World> Key<W> {
    fn free(m: usize) -> Self {
        Key { al: W::f("gal", KEY), be: W::f("gbe", KEY), ga: W::f("gga", KEY), de: W::f("gde", KEY), ic: (0..=m).map(|i| W::f(&format!("gic{}", i), KEY)).collect() }
    }
    fn vk(&self) -> VerifyingKey<W::P> {
        VerifyingKey { alpha_g1: a1::<W>(self.al), beta_g2: a2::<W>(self.be), gamma_g2: a2::<W>(self.ga), delta_g2: a2::<W>(self.de), gamma_abc_g1: self.ic.iter().map(|x| a1::<W>(*x)).collect() }
    }
    /// e(alpha, beta) + e(IC(x), gamma)
    fn known(&self, x: &[F<W>]) -> F<W> {
        let ic = x.iter().zip(&self.ic[1..]).fold(self.ic[0], |s, (a, b)| s + *a * *b);
        self.al * self.be + ic * self.ga
    }
}
/// logs of a Groth16 proof
type Pf<W> = (F<W>, F<W>, F<W>);
fn inputs<W: World>(n: usize, m: usize) -> Vec<Vec<F<W>>> {
    (0..n).map(|i| (0..m).map(|j| W::f(&format!("x{}_{}", i, j), STMT)).collect()).collect()
}
fn pf<W: World>(l: &[Pf<W>]) -> Vec<Proof<W::P>> {
    l.iter().map(|(a, b, c)| Proof { a: a1::<W>(*a), b: a2::<W>(*b), c: a1::<W>(*c) }).collect()
}
/// proofs that satisfy the Groth16 equation, solved for c or for b
fn valid<W: World>(k: &Key<W>, xs: &[Vec<F<W>>], solve_b: bool) -> Option<Vec<Pf<W>>> {
    let mut out = vec![];
    for (i, x) in xs.iter().enumerate() {
        let (a, b, c) = (W::f(&format!("a{}", i), STMT), W::f(&format!("b{}", i), STMT), W::f(&format!("c{}", i), STMT));
        out.push(if solve_b { (a, (k.known(x) + k.de * c) * a.inverse()?, c) } else { (a, b, (a * b - k.known(x)) * k.de.inverse()?) });
    }
    Some(out)
}
/// challenges whose value is 0 or 1 have no inverse powers or closed-form sum; their probability is negligible
fn degenerate<W: World>() -> bool {
    drawn::<W>(0).iter().any(|c| c.name.starts_with("fr") && c.v.is_one()) || W::chals().iter().any(|c| c.name.starts_with("fr") && c.v.is_zero())
}
fn verify<W: World>(v: &Vk<W>, k: &Key<W>, xs: &Vec<Vec<F<W>>>, p: &AP<W>) -> Verdict {
    let (vs, vk) = (v.srs(), k.vk());
    verdict(|| verify_aggregate_proof::<W::P, W::D>(&vs, &vk, xs, p))
}
fn aggregate<W: World>(al: F<W>, be: F<W>, l: &[Pf<W>]) -> Result<AP<W>, String> {
    let (srs, ps) = (make_srs::<W>(l.len(), al, be), pf::<W>(l));
    guard(|| aggregate_proofs::<W::P, W::D>(&srs, &ps).map_err(|e| e.to_string())).and_then(|r| r)
}

/// bytes of an aggregate of n proofs with m inputs
pub fn sized<W: World>(n: usize, m: usize) -> Result<usize, String> {
    let k = Key::<W>::free(m);
    let l = valid::<W>(&k, &inputs::<W>(n, m), false).ok_or("no valid proofs")?;
    aggregate::<W>(W::f("alpha", KEY), W::f("beta", KEY), &l).map(|p| bytes(&p).len())
}

// ---------------------------------------------------------------- C19
fn complete<W: World>(n: usize, m: usize, solve_b: bool) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let k = Key::<W>::free(m);
    let xs = inputs::<W>(n, m);
    let l = match valid::<W>(&k, &xs, solve_b) { Some(l) => l, None => return };
    let p = aggregate::<W>(al, be, &l);
    if degenerate::<W>() {
        return;
    }
    let p = match p { Ok(p) => p, Err(e) => return W::fail("valid proofs are aggregated", e) };
    let q = W::n_queries();
    let v = verify::<W>(&Vk::of(al, be), &k, &xs, &p);
    W::observe("verdict", format!("{:?}", v));
    W::check("aggregate of valid proofs accepted", v == Verdict::Accept);
    W::check("verifier derives the prover's challenges", W::n_queries() == q);
}
/// aggregates when k digest outputs in a row are unusable
fn stubborn<W: World>(n: usize, m: usize, k: usize) {
    W::set_cost(u32::MAX);
    W::stubborn(k);
    complete::<W>(n, m, false);
}
fn complete_setup<W: World>(n: usize, m: usize) {
    W::set_cost(u32::MAX);
    let mut rng = W::rng();
    let k = Key::<W>::free(m);
    let xs = inputs::<W>(n, m);
    let ps = pf::<W>(&valid::<W>(&k, &xs, false).unwrap());
    let v = verdict(|| {
        let srs = setup_inner_product::<W::P, W::D, _>(&mut rng, n)?;
        let p = aggregate_proofs::<W::P, W::D>(&srs, &ps)?;
        verify_aggregate_proof::<W::P, W::D>(&srs.get_verifier_key(), &k.vk(), &xs, &p)
    });
    W::observe("verdict", format!("{:?}", v));
    W::check("aggregate of valid proofs accepted under a fresh SRS", v == Verdict::Accept);
}

// ---------------------------------------------------------------- C20
/// Arbitrary member proofs, verifying key and inputs; the challenges are formal, so a verdict holds for all
/// but the roots of a non-zero polynomial.
fn members<W: World>(n: usize, m: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let k = Key::<W>::free(m);
    let xs = inputs::<W>(n, m);
    W::formal("*");
    let l: Vec<Pf<W>> = (0..n).map(|i| (W::f(&format!("a{}", i), STMT), W::f(&format!("b{}", i), STMT), W::f(&format!("c{}", i), FREE))).collect();
    let p = match aggregate::<W>(al, be, &l) { Ok(p) => p, Err(e) => return W::fail("proofs are aggregated", e) };
    let v = verify::<W>(&Vk::of(al, be), &k, &xs, &p);
    W::observe("verdict", format!("{:?}", v));
    W::formal_off();
    W::set_cost(0);
    let bad = l.iter().zip(&xs).position(|((a, b, c), x)| !(*a * *b - k.known(x) - *c * k.de).is_zero());
    match bad {
        None => W::check("aggregate of valid proofs accepted", v == Verdict::Accept),
        Some(i) => W::check_msg("aggregate with an invalid member rejected", v == Verdict::Reject, || format!("member {} is invalid: {:?}", i, v)),
    }
}
/// an accepted aggregate against other inputs: rows permuted, dropped, duplicated
fn reordered<W: World>(n: usize, m: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let k = Key::<W>::free(m);
    let xs = inputs::<W>(n, m);
    W::set_cost(u32::MAX);
    let l = match valid::<W>(&k, &xs, false) { Some(l) => l, None => return };
    let p = match aggregate::<W>(al, be, &l) { Ok(p) => p, Err(e) => return W::fail("valid proofs are aggregated", e) };
    for i in 0..n {
        for j in i + 1..n {
            let mut ys = xs.clone();
            ys.swap(i, j);
            let v = verify::<W>(&Vk::of(al, be), &k, &ys, &p);
            W::check_msg("reordered inputs rejected", v == Verdict::Reject, || format!("rows {} and {}: {:?}", i, j, v));
            let mut ys = xs.clone();
            ys[i] = ys[j].clone();
            let v = verify::<W>(&Vk::of(al, be), &k, &ys, &p);
            W::check_msg("replaced inputs rejected", v == Verdict::Reject, || format!("row {} by {}: {:?}", i, j, v));
        }
        let mut ys = xs.clone();
        ys.remove(i);
        let v = verify::<W>(&Vk::of(al, be), &k, &ys, &p);
        W::check_msg("dropped inputs rejected", v.refused() && v != Verdict::Panic, || format!("row {}: {:?}", i, v));
        for j in 0..m {
            let mut ys = xs.clone();
            ys[i][j] += W::f("delta", FREE);
            let v = verify::<W>(&Vk::of(al, be), &k, &ys, &p);
            W::check_msg("changed input rejected", v == Verdict::Reject, || format!("row {} input {}: {:?}", i, j, v));
            if m > 1 {
                let mut ys = xs.clone();
                ys[i].swap(j, (j + 1) % m);
                let v = verify::<W>(&Vk::of(al, be), &k, &ys, &p);
                W::check_msg("reordered inputs of a row rejected", v == Verdict::Reject, || format!("row {} inputs {}: {:?}", i, j, v));
            }
        }
    }
}
struct Free<W: World> {
    com: [F<W>; 3],
    ip: F<W>,
    agg: F<W>,
    s: Vec<Step<W>>,
    base: (F<W>, F<W>),
    ck: (F<W>, F<W>),
    op: (F<W>, F<W>),
    s2: Vec<Step<W>>,
    base2: (F<W>, F<W>),
    ck2: F<W>,
    op2: F<W>,
}
impl<W: World> Free<W> {
    fn new(k: usize, k2: usize) -> Self {
        let f = |s: &str| W::f(s, FREE);
        let g = |s: &str| W::f(s, STMT);
        Free {
            com: [f("ca"), f("cb"), f("cc")],
            ip: f("ipab"),
            agg: f("aggc"),
            s: free_steps::<W>(k),
            base: (g("fa"), g("fb")),
            ck: (g("cka"), g("ckb")),
            op: (f("pa"), f("pb")),
            s2: (0..k2).map(|j| {
                let m = |s: &str| W::f(&format!("q{}{}", j, s), FREE);
                [[m("La"), F::<W>::zero(), m("Lt")], [m("Ra"), F::<W>::zero(), m("Rt")]]
            }).collect(),
            base2: (g("ha"), f("hb")),
            ck2: g("ckc"),
            op2: f("pc"),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        for c in self.com {
            ser(&(gtgen::<W>() * c), &mut b);
        }
        ser(&(gtgen::<W>() * self.ip), &mut b);
        ser(&(G1::<W>::generator() * self.agg), &mut b);
        b.extend(tpair::tipa_bytes::<W>(&self.s, self.base, self.ck, self.op));
        b.extend(sm::tbytes::<W>(&self.s2, self.base2, self.ck2, self.op2));
        b
    }
    fn r(&self) -> Option<F<W>> {
        find_chal::<W>(true, &self.com.map(|c| bytes(&(gtgen::<W>() * c))))
    }
}
fn exact<W: World>(k: usize, m: usize) {
    let p = Free::<W>::new(k, k);
    let v = Vk::<W>::free();
    let key = Key::<W>::free(m);
    let n = 1usize << k;
    let xs = inputs::<W>(n, m);
    let ap: AP<W> = de(&p.bytes());
    let got = verify::<W>(&v, &key, &xs, &ap);
    W::set_cost(0);
    if degenerate::<W>() {
        return;
    }
    W::observe("verdict", format!("{:?}", got));
    let r = match p.r() { Some(r) => r, None => return W::fail("a challenge combines the proofs", format!("{:?}", got)) };
    let (c, c2) = (find_chal::<W>(true, &[bytes(&pair::lk::<W>(p.ck.0)), bytes(&pair::rk::<W>(p.ck.1))]), find_chal::<W>(true, &[bytes(&pair::lk::<W>(p.ck2))]));
    let one = F::<W>::one();
    let f = find_rounds::<W>(&pair::round_msgs::<W>(&p.s)).map(|h| fold::<W>([p.com[0], p.com[1], p.ip], &p.s, &h));
    let f2 = find_rounds::<W>(&sm::round_msgs::<W>(&p.s2)).map(|h| fold::<W>([p.com[2], F::<W>::zero(), p.agg], &p.s2, &h));
    let o = match (&f, c) { (Some(f), Some(c)) => Some((f.x.clone(), c)), _ => None };
    let o2 = match (&f2, c2) { (Some(f), Some(c)) => Some((inv_all::<W>(&f.x), c)), _ => None };
    judge::<W>(&got, &[
        &|| o.as_ref().map(|(x, c)| v.opens_g2(p.ck.0, p.op.0, &inv_all::<W>(x), r.inverse().unwrap(), *c)),
        &|| o.as_ref().map(|(x, c)| v.opens_g1(p.ck.1, p.op.1, x, one, *c)),
        &|| f.as_ref().map(|f| (f.com[0] - p.base.0 * p.ck.0).is_zero()),
        &|| f.as_ref().map(|f| (f.com[1] - p.base.1 * p.ck.1).is_zero()),
        &|| f.as_ref().map(|f| (f.com[2] - p.base.0 * p.base.1).is_zero()),
        &|| o2.as_ref().map(|(y, c)| v.opens_g2(p.ck2, p.op2, y, one, *c)),
        &|| f2.as_ref().map(|f| (f.com[0] - p.base2.0 * p.ck2).is_zero()),
        &|| f2.as_ref().map(|f| (f.com[2] - p.base2.0 * prod_form::<W>(&inv_all::<W>(&f.x), r)).is_zero()),
        &|| {
            let mut s = p.ip - p.agg * key.de;
            let mut rp = one;
            for x in &xs {
                s -= rp * key.known(x);
                rp *= r;
            }
            Some(s.is_zero())
        },
    ]);
}
/// an honest aggregate with one of its elements moved
fn tamper<W: World>(n: usize, m: usize, what: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let mut k = Key::<W>::free(m);
    let xs = inputs::<W>(n, m);
    W::set_cost(u32::MAX);
    let l = match valid::<W>(&k, &xs, false) { Some(l) => l, None => return };
    let p = match aggregate::<W>(al, be, &l) { Ok(p) => p, Err(e) => return W::fail("valid proofs are aggregated", e) };
    let d = W::f("delta", FREE);
    let mut b = bytes(&p);
    let (gt, g1) = (bytes(&gtgen::<W>()).len(), bytes(&G1::<W>::generator()).len());
    let mut v = Vk::of(al, be);
    match what {
        0..=3 => {
            let x: GT<W> = de(&b[what * gt..(what + 1) * gt]);
            b.splice(what * gt..(what + 1) * gt, bytes(&(x + gtgen::<W>() * d)));
        }
        4 => {
            let x: G1<W> = de(&b[4 * gt..4 * gt + g1]);
            b.splice(4 * gt..4 * gt + g1, bytes(&(x + G1::<W>::generator() * d)));
        }
        5 => k.al += d,
        6 => k.be += d,
        7 => k.ga += d,
        8 => k.de += d,
        9 => k.ic[0] += d,
        10 => k.ic[m] += d,
        11 => v.gb += d,
        12 => v.ha += d,
        13 => v.g += d,
        _ => v.h += d,
    }
    let p: AP<W> = de(&b);
    let got = verify::<W>(&v, &k, &xs, &p);
    W::observe("verdict", format!("{:?}", got));
    W::check("a changed aggregate, verifying key or SRS is rejected", got == Verdict::Reject);
}

// ---------------------------------------------------------------- C27
/// rows of the given lengths against an honest aggregate of n proofs with m inputs
fn shapes<W: World>(n: usize, m: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let k = Key::<W>::free(m);
    let xs = inputs::<W>(n, m);
    W::set_cost(u32::MAX);
    let l = match valid::<W>(&k, &xs, false) { Some(l) => l, None => return };
    let p = match aggregate::<W>(al, be, &l) { Ok(p) => p, Err(e) => return W::fail("valid proofs are aggregated", e) };
    let row = |i: usize, len: usize, fill: u8| -> Vec<F<W>> {
        (0..len)
            .map(|j| {
                if i < n && j < m {
                    xs[i][j]
                } else if fill == 0 {
                    F::<W>::zero()
                } else {
                    W::f(&format!("e{}_{}", i, j), STMT)
                }
            })
            .collect()
    };
    let mut tried = 0;
    let mut all: Vec<Vec<usize>> = vec![];
    for rows in 0..=2 * n + 1 {
        if rows != n {
            all.push(vec![m; rows]);
        }
    }
    // every combination of row lengths m-1, m, m+1 for few rows; one or two odd rows otherwise
    let lens: Vec<usize> = [m.wrapping_sub(1), m, m + 1, m + 2].into_iter().filter(|l| *l < 100).collect();
    if n <= 2 {
        let mut c = vec![vec![]];
        for _ in 0..n {
            c = c.into_iter().flat_map(|v: Vec<usize>| lens.iter().map(move |l| { let mut w = v.clone(); w.push(*l); w })).collect();
        }
        all.extend(c);
    } else {
        for i in 0..n {
            for l in &lens {
                let mut v = vec![m; n];
                v[i] = *l;
                all.push(v.clone());
                for j in 0..i {
                    for l2 in &lens {
                        let mut w = v.clone();
                        w[j] = *l2;
                        all.push(w);
                    }
                }
            }
        }
    }
    for i in 0..n {
        all.push((0..n).map(|j| if i == j { 0 } else { m }).collect());
        all.push((0..n).map(|j| if i == j { 3 * m + 5 } else { m }).collect());
    }
    for lens in all {
        if lens.len() == n && lens.iter().all(|l| *l == m) {
            continue;
        }
        for fill in 0..2u8 {
            let ys: Vec<Vec<F<W>>> = lens.iter().enumerate().map(|(i, l)| row(i, *l, fill)).collect();
            let v = verify::<W>(&Vk::of(al, be), &k, &ys, &p);
            tried += 1;
            W::check_msg("ill-shaped inputs are neither accepted nor cause a panic", v.refused() && v != Verdict::Panic, || format!("row lengths {:?} for {} proofs with {} inputs: {:?}", lens, n, m, v));
        }
    }
    W::observe("shapes", format!("{}", tried));
}
/// Aggregates of n proofs of which the last ones are neutral elements, against fewer rows (and the reverse).
fn padded<W: World>(n: usize, m: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let k = Key::<W>::free(m);
    let xs = inputs::<W>(n, m);
    W::set_cost(u32::MAX);
    let z = F::<W>::zero();
    let l = match valid::<W>(&k, &xs, false) { Some(l) => l, None => return };
    for keep in 0..n {
        let l2: Vec<Pf<W>> = l.iter().enumerate().map(|(i, p)| if i < keep { *p } else { (z, z, z) }).collect();
        let p = match aggregate::<W>(al, be, &l2) { Ok(p) => p, Err(e) => return W::fail("proofs are aggregated", e) };
        let v = verify::<W>(&Vk::of(al, be), &k, &xs[..keep].to_vec(), &p);
        W::check_msg("fewer rows than aggregated proofs refused", v.refused() && v != Verdict::Panic, || format!("{} rows for {} proofs: {:?}", keep, n, v));
    }
    // a key under which a row is satisfied by neutral proofs
    let mut k2 = Key::<W>::free(m);
    k2.al = z;
    k2.ic[0] = z;
    let zero_rows = |c: usize| -> Vec<Vec<F<W>>> { (0..c).map(|_| vec![z; m]).collect() };
    let p = match aggregate::<W>(al, be, &vec![(z, z, z); n]) { Ok(p) => p, Err(e) => return W::fail("proofs are aggregated", e) };
    for c in 0..=2 * n + 1 {
        let v = verify::<W>(&Vk::of(al, be), &k2, &zero_rows(c), &p);
        if c == n {
            W::check("rows of the aggregate accepted", v == Verdict::Accept);
        } else {
            W::check_msg("another number of rows refused", v.refused() && v != Verdict::Panic, || format!("{} rows for {} proofs: {:?}", c, n, v));
        }
    }
    W::observe("done", String::new());
}

// ---------------------------------------------------------------- C07, C24, C26
fn binds<W: World>(what: usize) {
    let key = Key::<W>::free(1);
    let nw = || W::f("c2", FREE);
    let run = |on: bool| {
        let mut p = Free::<W>::new(1, 1);
        let mut xs = inputs::<W>(2, 1);
        if on {
            match what {
                0..=2 => p.com[what] = nw(),
                _ => xs[1][0] = nw(),
            }
        }
        let ap: AP<W> = de(&p.bytes());
        let _ = verify::<W>(&Vk::free(), &key, &xs, &ap);
    };
    let old = if what < 3 { Free::<W>::new(1, 1).com[what] } else { inputs::<W>(2, 1)[1][0] };
    let (a, b) = twice::<W>(&|| run(false), &|| run(true));
    let names = ["commitment to the A elements", "commitment to the B elements", "commitment to the C elements", "public inputs"];
    let wide = |x: Vec<Chal<F<W>>>| -> Vec<Chal<F<W>>> { x.into_iter().filter(|c| c.name.starts_with("fr")).take(1).collect() };
    determines::<W>(&format!("Groth16 aggregation: combining challenge determines the {}", names[what]), 1, 0, &wide(a), &wide(b), &[(old, nw())]);
}
fn entropy<W: World>(n: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let k = Key::<W>::free(1);
    let xs = inputs::<W>(n, 1);
    W::set_cost(u32::MAX);
    let l = match valid::<W>(&k, &xs, false) { Some(l) => l, None => return };
    crate::scen::bind::entropy::<W>(1, &|| aggregate::<W>(al, be, &l).map(|p| bytes(&p)).unwrap_or_default());
}
fn rounds<W: World>(k: usize, k2: usize, rows: usize, m: usize) {
    let p = Free::<W>::new(k, k2);
    let ap: AP<W> = de(&p.bytes());
    let xs = inputs::<W>(rows, m);
    let v = verify::<W>(&Vk::free(), &Key::<W>::free(m), &xs, &ap);
    if degenerate::<W>() {
        return;
    }
    W::observe("verdict", format!("{:?}", v));
    W::check_msg("verifier does not panic", v != Verdict::Panic, || format!("{} and {} rounds, {} rows", k, k2, rows));
    if 1usize.checked_shl(k as u32) != Some(rows) || 1usize.checked_shl(k2 as u32) != Some(rows) {
        W::check_msg("numbers of rounds that do not match the inputs refused", v.refused(), || format!("{} and {} rounds, {} rows", k, k2, rows));
    }
}
fn reshaped<W: World>(n: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let kk = n.trailing_zeros() as usize;
    let k = Key::<W>::free(1);
    let xs = inputs::<W>(n, 1);
    W::set_cost(u32::MAX);
    let l = match valid::<W>(&k, &xs, false) { Some(l) => l, None => return };
    let p = match aggregate::<W>(al, be, &l) { Ok(p) => p, Err(e) => return W::fail("valid proofs are aggregated", e) };
    let b = bytes(&p);
    let one = F::<W>::one();
    let (gt, g1, g2) = (bytes(&gtgen::<W>()).len(), bytes(&G1::<W>::generator()).len(), bytes(&G2::<W>::generator()).len());
    let head = 4 * gt + g1;
    let step1 = 2 * (2 * gt + bytes(&pair::tc::<W>(one)).len());
    let first = 8 + kk * step1 + g1 + g2 + 2 * (g1 + g2);
    let second = head + first;
    let step2 = (b.len() - second - 8 - g1 - bytes(&one).len() - 2 * g2) / kk.max(1);
    let parts = |at: usize, step: usize| -> Vec<Vec<u8>> { (0..kk).map(|i| b[at + 8 + i * step..at + 8 + (i + 1) * step].to_vec()).collect() };
    let (r1, r2) = (parts(head, step1), parts(second, step2));
    let build = |x: &[Vec<u8>], y: &[Vec<u8>]| -> Vec<u8> {
        let mut o = b[..head].to_vec();
        o.extend(crate::scen::ipa::vec_bytes(x));
        o.extend(&b[head + 8 + kk * step1..second]);
        o.extend(crate::scen::ipa::vec_bytes(y));
        o.extend(&b[second + 8 + kk * step2..]);
        o
    };
    let same: AP<W> = de(&build(&r1, &r2));
    W::check("the aggregate itself is accepted", verify::<W>(&Vk::of(al, be), &k, &xs, &same) == Verdict::Accept);
    for which in 0..3 {
        for (x, y) in reshapes(&r1).into_iter().zip(reshapes(&r2)) {
            let q: AP<W> = de(&match which { 0 => build(&x, &r2), 1 => build(&r1, &y), _ => build(&x, &y) });
            let v = verify::<W>(&Vk::of(al, be), &k, &xs, &q);
            W::check_msg("honest aggregate with rounds removed or repeated is rejected", v.refused() && v != Verdict::Panic, || format!("{:?}", v));
        }
    }
}
fn threads<W: World>(n: usize) {
    W::set_cost(u32::MAX);
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let k = Key::<W>::free(2);
    let xs = inputs::<W>(n, 2);
    let l = match valid::<W>(&k, &xs, false) { Some(l) => l, None => return };
    let mut base: Option<Vec<u8>> = None;
    for t in POOLS {
        let got = in_pool(t, || aggregate::<W>(al, be, &l).map(|p| bytes(&p)));
        let got = match got { Ok(g) => g, Err(e) => return W::fail("something is computed", e) };
        for u in [1, t, 13 - t] {
            let v = in_pool(u, || {
                let p: AP<W> = de(&got);
                verify::<W>(&Vk::of(al, be), &k, &xs, &p)
            });
            W::check_msg("aggregate accepted whatever the pools", v == Verdict::Accept, || format!("aggregated with {}, verified with {} threads: {:?}", t, u, v));
        }
        match &base {
            None => base = Some(got),
            Some(b) => W::check_msg("same bytes whatever the pool", *b == got, || format!("{} threads", t)),
        }
    }
    W::observe("done", String::new());
}
#[allow(dead_code)]
fn _unused(_: Error) {}

pub fn register(v: &mut Vec<Scen>) {
    for n in [1usize, 2, 4] {
        for m in [0usize, 1, 2, 3] {
            for b in [false, true] {
                scen!(v, "C19", format!("C19/n={}/inputs={}/solve-{}", n, m, if b { "b" } else { "c" }), format!("{} proofs, {} public inputs, all keys, proofs and secrets", n, m), depth = 1, paths = 30, replays = 2, complete(n, m, b));
            }
            scen!(v, "C20", format!("C20/members/n={}/inputs={}", n, m), format!("{} proofs, {} public inputs, arbitrary proofs, keys, inputs", n, m), depth = 2, paths = 60, replays = 4, members(n, m));
        }
        scen!(v, "C19", format!("C19/setup/n={}", n), "fresh SRS, 2 inputs", depth = 0, paths = 1, replays = 1, complete_setup(n, 2));
        scen!(v, "C20", format!("C20/reordered/n={}", n), "2 inputs, generic values", depth = 0, paths = 1, replays = 1, reordered(n, 2));
        for m in [0usize, 1, 2] {
            scen!(v, "C27", format!("C27/shapes/n={}/inputs={}", n, m), "rows 0..2n+1, row lengths 0..m+2 and 3m+5, generic values", depth = 0, paths = 1, replays = 1, shapes(n, m));
            scen!(v, "C27", format!("C27/padded/n={}/inputs={}", n, m), "neutral proofs and rows", depth = 0, paths = 1, replays = 1, padded(n, m));
        }
    }
    for n in [8usize, 16] {
        scen!(v, "C19", format!("C19/n={}/inputs=1", n), format!("{} proofs, generic values", n), depth = 0, paths = 1, replays = 1, complete(n, 1, false));
        scen!(v, "C20", format!("C20/members/n={}/inputs=1", n), format!("{} proofs, up to one special branch", n), depth = 1, paths = 40, replays = 2, members(n, 1));
    }
    for n in [32usize, 64] {
        scen!(v, "C19", format!("C19/n={}/inputs=1", n), format!("{} proofs, generic values", n), depth = 0, paths = 1, replays = 1, complete(n, 1, false));
    }
    for m in [5usize, 16, 33] {
        scen!(v, "C19", format!("C19/n=4/inputs={}", m), format!("4 proofs, {} inputs", m), depth = 0, paths = 1, replays = 1, complete(4, m, false));
        scen!(v, "C20", format!("C20/members/n=2/inputs={}", m), format!("2 proofs, {} inputs, up to one special branch", m), depth = 1, paths = 20, replays = 2, members(2, m));
    }
    scen!(v, "C19", "C19/n=2/inputs=8", "2 proofs, 8 inputs", depth = 1, paths = 20, replays = 1, complete(2, 8, false));
    for k in 0..4usize {
        for m in [0usize, 1, 2] {
            if k < 3 || m == 1 {
                scen!(v, "C20", format!("C20/exact/rounds={}/inputs={}", k, m), format!("{} rounds, {} inputs, every element free", k, m), depth = 1, paths = 60, replays = 6, exact(k, m));
            }
        }
    }
    for w in 0..15usize {
        scen!(v, "C20", format!("C20/tamper/what={}", w), "2 proofs, 1 input, one element changed, generic values", depth = 0, paths = 1, replays = 1, tamper(2, 1, w));
    }
    for n in [1usize, 2, 4] {
        for k in [4usize, 20, 300, 66_000] {
            if k > 1000 && n > 1 { continue; }
            scen!(v, "C06", format!("C06/groth16/stubborn={}/n={}", k, n), "valid proofs, 4, 20, 300 or 66000 unusable digest outputs before each challenge", depth = 0, paths = 1, replays = (k < 1000) as usize, stubborn(n, 1, k));
        }
        if n == 1 { continue; }
        scen!(v, "C06", format!("C06/groth16/entropy/n={}", n), "aggregator, the combining challenge and those of both arguments", depth = 0, paths = 1, replays = 1, entropy(n));
    }
    for w in 0..4usize {
        scen!(v, "C07", format!("C07/groth16/{}", w), "2 proofs, 1 input", depth = 0, paths = 10, replays = 2, binds(w));
    }
    for k in 0..4usize {
        for k2 in 0..4usize {
            for rows in [0usize, 1, 2, 3, 4] {
                scen!(v, "C24", format!("C24/groth16/rounds={}+{}/rows={}", k, k2, rows), "aggregate verifier, rounds 0..3, rows 0..4", depth = 0, paths = 4, replays = 1, rounds(k, k2, rows, 1));
            }
        }
    }
    for k in [5usize, 6, 7, 31, 32, 33, 63, 64, 65, 66, 128] {
        for (k1, k2) in [(k, k), (k, 1), (1, k)] {
            for rows in [1usize, 2, 4] {
                scen!(v, "C24", format!("C24/groth16/rounds={}+{}/rows={}", k1, k2, rows), "aggregate verifier, up to 128 rounds, rows 1, 2, 4", depth = 0, paths = 4, replays = 1, rounds(k1, k2, rows, 1));
            }
        }
    }
    for n in [2usize, 4, 8] {
        scen!(v, "C24", format!("C24/groth16/reshaped/n={}", n), "honest aggregate, rounds removed, repeated, reversed; generic values", depth = 0, paths = 1, replays = 1, reshaped(n));
    }
    for n in [1usize, 2, 4] {
        scen!(v, "C26", format!("C26/groth16/n={}", n), "pools of 1, 2, 3, 5 and 8 threads", depth = 0, paths = 1, replays = 1, threads(n));
    }
}
