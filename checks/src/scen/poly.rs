//! Polynomial commitments: KZG, the two-tier scheme with an SRS and the transparent one (C14-C18, and parts of C07, C12, C24, C26).
use crate::runner::Scen;
use crate::scen;
use crate::scen::basic::{dot, fs};
use crate::scen::bind::*;
use crate::scen::ipa::{add_raw, fold, fold_key, inv_all, prod_form, vec_bytes};
use crate::scen::ssm::{sm, Step};
use crate::scen::tipa::{in_pool, reshapes, Error, Vk, POOLS};
use crate::world::*;
use ark_dh_commitments::identity::IdentityOutput;
use ark_ec::{CurveGroup, Group};
use ark_ff::{One, Zero};
use ark_ip_proofs::applications::poly_commit::transparent as tr;
use ark_ip_proofs::applications::poly_commit::*;
use ark_ip_proofs::tipa::SRS;
use ark_poly::polynomial::univariate::DensePolynomial;
use ark_poly::polynomial::DenseUVPolynomial;

type Poly<W> = DensePolynomial<F<W>>;
pub type K<W> = KZG<<W as World>::P>;
type SrsKey<W> = (SRS<<W as World>::P>, Vec<A1<W>>);
type TrKey<W> = (Vec<G1<W>>, Vec<G2<W>>);
pub type SB<W> = BivariatePolynomialCommitment<<W as World>::P, <W as World>::D>;
pub type SU<W> = UnivariatePolynomialCommitment<<W as World>::P, <W as World>::D>;
type SO<W> = OpeningProof<<W as World>::P, <W as World>::D>;
pub type TB<W> = tr::BivariatePolynomialCommitment<<W as World>::P, <W as World>::D>;
pub type TU<W> = tr::UnivariatePolynomialCommitment<<W as World>::P, <W as World>::D>;
type TO<W> = tr::OpeningProof<<W as World>::P, <W as World>::D>;

fn aff<W: World>(v: &[F<W>]) -> Vec<A1<W>> {
    v.iter().map(|x| (G1::<W>::generator() * *x).into_affine()).collect()
}
pub fn horner<W: World>(p: &[F<W>], z: F<W>) -> F<W> {
    p.iter().rev().fold(F::<W>::zero(), |a, c| a * z + c)
}
fn poly<W: World>(c: &[F<W>]) -> Poly<W> {
    Poly::<W>::from_coefficients_vec(c.to_vec())
}
/// bivariate polynomials have private fields: built from their encoding
fn rows_bytes<W: World>(rows: &[Vec<F<W>>]) -> Vec<u8> {
    vec_bytes(&rows.iter().map(|r| bytes(&poly::<W>(r))).collect::<Vec<_>>())
}
fn sbiv<W: World>(rows: &[Vec<F<W>>]) -> BivariatePolynomial<F<W>> {
    de(&rows_bytes::<W>(rows))
}
fn tbiv<W: World>(rows: &[Vec<F<W>>]) -> tr::BivariatePolynomial<F<W>> {
    de(&rows_bytes::<W>(rows))
}
fn eval2<W: World>(rows: &[Vec<F<W>>], x: F<W>, y: F<W>) -> F<W> {
    horner::<W>(&rows.iter().map(|r| horner::<W>(r, y)).collect::<Vec<_>>(), x)
}
/// rows of symbolic coefficients; entry (i, j) present when `keep(i, j)`
fn rows<W: World>(nx: usize, ny: usize, shape: u8) -> Vec<Vec<F<W>>> {
    let z = F::<W>::zero();
    let c = |i: usize, j: usize| W::f(&format!("p{}_{}", i, j), STMT);
    match shape {
        // full
        0 => (0..nx).map(|i| (0..ny).map(|j| c(i, j)).collect()).collect(),
        // fewer rows
        1 => (0..nx / 2).map(|i| (0..ny).map(|j| c(i, j)).collect()).collect(),
        // rows of different degrees, the first one zero
        2 => (0..nx).map(|i| (0..i % (ny + 1)).map(|j| c(i, j)).collect()).collect(),
        // only the last coefficient of the last row
        3 => (0..nx).map(|i| (0..ny).map(|j| if i == nx - 1 && j == ny - 1 { c(i, j) } else { z }).collect()).collect(),
        // zero
        4 => vec![vec![]; nx],
        _ => vec![],
    }
}
pub fn srs_key<W: World>(nx: usize, ny: usize, al: F<W>, be: F<W>) -> SrsKey<W> {
    (
        SRS {
            g_alpha_powers: vec![G1::<W>::generator()],
            h_beta_powers: powers::<W>(be, 2 * nx - 1).into_iter().map(|x| G2::<W>::generator() * x).collect(),
            g_beta: G1::<W>::generator() * be,
            h_alpha: G2::<W>::generator() * al,
        },
        aff::<W>(&powers::<W>(al, ny)),
    )
}
fn tr_logs<W: World>(nx: usize, ny: usize) -> (Vec<F<W>>, Vec<F<W>>) {
    ((0..ny).map(|i| W::f(&format!("k{}", i), KEY)).collect(), (0..nx).map(|i| W::f(&format!("q{}", i), KEY)).collect())
}
fn tr_key<W: World>(l: &(Vec<F<W>>, Vec<F<W>>)) -> TrKey<W> {
    (l.0.iter().map(|x| G1::<W>::generator() * *x).collect(), l.1.iter().map(|x| G2::<W>::generator() * *x).collect())
}
fn refused<R>(r: Result<Result<R, Error>, String>) -> bool {
    !matches!(r, Ok(Ok(_)))
}

// ---------------------------------------------------------------- C14
fn kzg_complete<W: World>(deg: usize, len: usize) {
    let (al, z) = (W::f("alpha", KEY), W::f("z", STMT));
    let c = fs::<W>("p", len);
    let p = poly::<W>(&c);
    let pw = aff::<W>(&powers::<W>(al, deg + 1));
    let v = Vk::<W>::of(al, W::f("beta", KEY)).srs();
    let com = match guard(|| K::<W>::commit(&pw, &p)) {
        Ok(Ok(c)) => c,
        _ => return W::fail("commit to a polynomial within the degree", String::new()),
    };
    W::check("commitment is the polynomial at the secret", com == G1::<W>::generator() * horner::<W>(&c, al));
    let o = match guard(|| K::<W>::open(&pw, &p, &z)) {
        Ok(Ok(o)) => o,
        _ => return W::fail("open a polynomial within the degree", String::new()),
    };
    let got = verdict(|| K::<W>::verify(&v, &com, &z, &horner::<W>(&c, z), &o));
    W::observe("verdict", format!("{:?}", got));
    W::check("true value accepted", got == Verdict::Accept);
}
fn kzg_exact<W: World>() {
    let v = Vk::<W>::free();
    let (com, z, y, o) = (W::f("com", FREE), W::f("z", STMT), W::f("y", STMT), W::f("pr", FREE));
    let g = G1::<W>::generator();
    let got = verdict(|| K::<W>::verify(&v.srs(), &(g * com), &z, &y, &(g * o)));
    W::observe("verdict", format!("{:?}", got));
    let want = ((com - v.g * y) * v.h - o * (v.ha - v.h * z)).is_zero();
    W::check("accepts exactly the opening relation", got == if want { Verdict::Accept } else { Verdict::Reject });
}
/// elements are combinations of the G1 elements of the SRS; the secrets are formal
fn kzg_sound<W: World>(deg: usize) {
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    W::formal("alpha");
    W::formal("beta");
    W::set_cost(0);
    let (z, y) = (W::f("z", STMT), W::f("y", STMT));
    let c: Vec<F<W>> = (0..=deg).map(|i| W::f(&format!("s{}", i), FREE)).collect();
    let q: Vec<F<W>> = (0..=deg).map(|i| W::f(&format!("w{}", i), FREE)).collect();
    let (cb, qb) = (W::f("sx", FREE), W::f("wx", FREE));
    let g = G1::<W>::generator();
    let v = Vk::<W>::of(al, be).srs();
    let (com, pr) = (horner::<W>(&c, al) + cb * be, horner::<W>(&q, al) + qb * be);
    let got = verdict(|| K::<W>::verify(&v, &(g * com), &z, &y, &(g * pr)));
    W::observe("verdict", format!("{:?}", got));
    if got.accepted() {
        W::formal_off();
        W::check("accepted value is the committed polynomial's", y == horner::<W>(&c, z) && cb.is_zero());
    }
}
fn kzg_capacity<W: World>(deg: usize, len: usize, setup: bool) {
    W::set_cost(u32::MAX);
    let pw = if setup {
        let mut rng = W::rng();
        match guard(|| K::<W>::setup(&mut rng, deg)) { Ok(Ok(x)) => x.0, _ => return W::fail("setup", String::new()) }
    } else {
        aff::<W>(&powers::<W>(W::f("alpha", KEY), deg + 1))
    };
    let p = poly::<W>(&fs::<W>("p", len));
    let z = W::f("z", STMT);
    let (c, o) = (guard(|| K::<W>::commit(&pw, &p)), guard(|| K::<W>::open(&pw, &p, &z)));
    W::check_msg("commit beyond the degree is refused", refused(c) == (len > deg + 1), || format!("{} coefficients, degree {}", len, deg));
    W::check_msg("open beyond the degree is refused", refused(o) == (len > deg + 1), || format!("{} coefficients, degree {}", len, deg));
}
fn kzg_roundtrip<W: World>(deg: usize) {
    let mut rng = W::rng();
    let c = fs::<W>("p", deg + 1);
    let z = W::f("z", STMT);
    let v = verdict(|| -> Result<bool, Error> {
        let (pw, v) = K::<W>::setup(&mut rng, deg)?;
        let p = poly::<W>(&c);
        K::<W>::verify(&v, &K::<W>::commit(&pw, &p)?, &z, &horner::<W>(&c, z), &K::<W>::open(&pw, &p, &z)?)
    });
    W::observe("verdict", format!("{:?}", v));
    W::check("true value accepted under a fresh key", v == Verdict::Accept);
}

// ---------------------------------------------------------------- C15, C17
fn finish<W: World>(got: Result<Verdict, String>) {
    match got {
        Ok(v) => {
            W::observe("verdict", format!("{:?}", v));
            W::check("true evaluation accepted", v == Verdict::Accept);
        }
        Err(e) => W::fail("commit and open succeed on a polynomial that fits", e),
    }
}
fn biv<W: World>(nx: usize, ny: usize, shape: u8, transparent: bool) {
    let r = rows::<W>(nx, ny, shape);
    let (x, y) = (W::f("x", STMT), W::f("y", STMT));
    let want = eval2::<W>(&r, x, y);
    let got = if transparent {
        let key = tr_key::<W>(&tr_logs::<W>(nx, ny));
        let b = tbiv::<W>(&r);
        W::check("evaluate", b.evaluate(&(x, y)) == want);
        guard(|| -> Result<Verdict, Error> {
            let (c, rc) = TB::<W>::commit(&key, &b)?;
            let p = TB::<W>::open(&key, &b, &rc, &(x, y))?;
            Ok(verdict(|| TB::<W>::verify(&key, &c, &(x, y), &want, &p)))
        })
    } else {
        let key = srs_key::<W>(nx, ny, W::f("alpha", KEY), W::f("beta", KEY));
        let b = sbiv::<W>(&r);
        W::check("evaluate", b.evaluate(&(x, y)) == want);
        guard(|| -> Result<Verdict, Error> {
            let (c, rc) = SB::<W>::commit(&key, &b)?;
            let p = SB::<W>::open(&key, &b, &rc, &(x, y))?;
            Ok(verdict(|| SB::<W>::verify(&key.0.get_verifier_key(), &c, &(x, y), &want, &p)))
        })
    };
    finish::<W>(got.and_then(|r| r.map_err(|e| e.to_string())));
}
/// coefficients of a univariate polynomial, all symbolic up to 20 of them, else a few spread out ones
fn coeffs<W: World>(len: usize) -> Vec<F<W>> {
    (0..len)
        .map(|i| {
            let keep = len <= 20 || i == len - 1 || i == 0 || i == len / 2 || i == len / 2 - 1 || i == len / 3;
            if keep { W::f(&format!("p{}", i), STMT) } else { F::<W>::zero() }
        })
        .collect()
}
fn uni<W: World>(deg: usize, len: usize, transparent: bool) {
    if len > 20 { W::set_cost(u32::MAX); }
    let c = coeffs::<W>(len);
    let z = W::f("z", STMT);
    let want = horner::<W>(&c, z);
    let p = poly::<W>(&c);
    let mut rng = W::rng();
    let got = guard(|| -> Result<Verdict, Error> {
        if transparent {
            let key = TU::<W>::setup(&mut rng, deg)?;
            let (com, rc) = TU::<W>::commit(&key, &p)?;
            let o = TU::<W>::open(&key, &p, &rc, &z)?;
            Ok(verdict(|| TU::<W>::verify(&key, &com, &z, &want, &o)))
        } else {
            let key = SU::<W>::setup(&mut rng, deg)?;
            let (com, rc) = SU::<W>::commit(&key, &p)?;
            let o = SU::<W>::open(&key, &p, &rc, &z)?;
            Ok(verdict(|| SU::<W>::verify(&key.0.get_verifier_key(), deg, &com, &z, &want, &o)))
        }
    });
    finish::<W>(got.and_then(|r| r.map_err(|e| e.to_string())));
}
/// A polynomial that does not fit the key is refused, or at least not silently replaced by another one.
fn uni_over<W: World>(deg: usize, extra: usize, transparent: bool) {
    W::set_cost(u32::MAX);
    let mut rng = W::rng();
    let z = W::f("z", STMT);
    let (cap, com, open);
    if transparent {
        let key = match guard(|| TU::<W>::setup(&mut rng, deg)) { Ok(Ok(k)) => k, _ => return W::fail("setup", String::new()) };
        cap = key.0.len() * key.1.len();
        let p = poly::<W>(&fs::<W>("p", cap + extra));
        let rc: Vec<G1<W>> = (0..key.1.len()).map(|i| W::g1(&format!("row{}", i), FREE)).collect();
        com = refused(guard(|| TU::<W>::commit(&key, &p)));
        open = refused(guard(|| TU::<W>::open(&key, &p, &rc, &z)));
    } else {
        let key = match guard(|| SU::<W>::setup(&mut rng, deg)) { Ok(Ok(k)) => k, _ => return W::fail("setup", String::new()) };
        let nx = (key.0.h_beta_powers.len() + 1) / 2;
        cap = key.1.len() * nx;
        let p = poly::<W>(&fs::<W>("p", cap + extra));
        let rc: Vec<G1<W>> = (0..nx).map(|i| W::g1(&format!("row{}", i), FREE)).collect();
        com = refused(guard(|| SU::<W>::commit(&key, &p)));
        open = refused(guard(|| SU::<W>::open(&key, &p, &rc, &z)));
    }
    W::check_msg("key holds the degree given at setup", cap > deg, || format!("{} coefficients for degree {}", cap, deg));
    W::check_msg("commit refuses a polynomial that does not fit", com, || format!("{} coefficients, room for {}", cap + extra, cap));
    W::check_msg("open refuses a polynomial that does not fit", open, || format!("{} coefficients, room for {}", cap + extra, cap));
}
fn biv_over<W: World>(nx: usize, ny: usize, tall: bool, transparent: bool) {
    W::set_cost(u32::MAX);
    let r = if tall { rows::<W>(nx + 1, ny, 0) } else { rows::<W>(nx, ny + 1, 0) };
    let pt = (W::f("x", STMT), W::f("y", STMT));
    let rc: Vec<G1<W>> = (0..nx).map(|i| W::g1(&format!("row{}", i), FREE)).collect();
    let (c, o) = if transparent {
        let key = tr_key::<W>(&tr_logs::<W>(nx, ny));
        let b = tbiv::<W>(&r);
        (refused(guard(|| TB::<W>::commit(&key, &b))), refused(guard(|| TB::<W>::open(&key, &b, &rc, &pt))))
    } else {
        let key = srs_key::<W>(nx, ny, W::f("alpha", KEY), W::f("beta", KEY));
        let b = sbiv::<W>(&r);
        (refused(guard(|| SB::<W>::commit(&key, &b))), refused(guard(|| SB::<W>::open(&key, &b, &rc, &pt))))
    };
    let what = if tall { "too many rows" } else { "a row of too high degree" };
    W::check_msg("commit refuses a polynomial that does not fit", c, || what.into());
    W::check_msg("open refuses a polynomial that does not fit", o, || what.into());
}

// ---------------------------------------------------------------- C16, C18
fn steps_p<W: World>(k: usize, p: &str) -> Vec<Step<W>> {
    (0..k)
        .map(|j| {
            let m = |s: &str| W::f(&format!("{}{}{}", p, j, s), FREE);
            [[m("La"), F::<W>::zero(), m("Lt")], [m("Ra"), F::<W>::zero(), m("Rt")]]
        })
        .collect()
}
/// encoding of a GIPA proof with Pedersen in G1 and scalars (the first tier of the transparent scheme)
fn g1bytes<W: World>(steps: &[Step<W>], base: (F<W>, F<W>)) -> Vec<u8> {
    let items: Vec<Vec<u8>> = steps
        .iter()
        .rev()
        .map(|s| {
            let mut b = vec![];
            for h in 0..2 {
                ser(&(G1::<W>::generator() * s[h][0]), &mut b);
                ser(&s[h][1], &mut b);
                ser(&IdentityOutput(vec![s[h][2]]), &mut b);
            }
            b
        })
        .collect();
    let mut v = vec_bytes(&items);
    ser(&base.0, &mut v);
    ser(&base.1, &mut v);
    v
}
struct SrsPf<W: World> {
    steps: Vec<Step<W>>,
    base: (F<W>, F<W>),
    ck: F<W>,
    op: F<W>,
    u: F<W>,
    kz: F<W>,
}
impl<W: World> SrsPf<W> {
    fn free(k: usize) -> Self {
        SrsPf { steps: steps_p::<W>(k, "m"), base: (W::f("fa", STMT), W::f("fb", FREE)), ck: W::f("cka", STMT), op: W::f("pa", FREE), u: W::f("u", FREE), kz: W::f("kz", FREE) }
    }
    fn proof(&self) -> SO<W> {
        let mut b = sm::tbytes::<W>(&self.steps, self.base, self.ck, self.op);
        ser(&(G1::<W>::generator() * self.u), &mut b);
        ser(&(G1::<W>::generator() * self.kz), &mut b);
        de(&b)
    }
}
struct TrPf<W: World> {
    s2: Vec<Step<W>>,
    b2: (F<W>, F<W>),
    u: F<W>,
    s1: Vec<Step<W>>,
    b1: (F<W>, F<W>),
}
impl<W: World> TrPf<W> {
    fn free(k2: usize, k1: usize) -> Self {
        TrPf { s2: steps_p::<W>(k2, "m"), b2: (W::f("fa", STMT), W::f("fb", FREE)), u: W::f("u", FREE), s1: steps_p::<W>(k1, "n"), b1: (W::f("ga", STMT), W::f("gb", FREE)) }
    }
    fn proof(&self) -> TO<W> {
        let mut b = sm::gbytes::<W>(&self.s2, self.b2);
        ser(&(G1::<W>::generator() * self.u), &mut b);
        b.extend(g1bytes::<W>(&self.s1, self.b1));
        de(&b)
    }
}
/// `univ`: Some(degree) when the univariate verifier is used (first coordinate is a power of the point)
fn srs_verify<W: World>(v: &Vk<W>, com: F<W>, x: F<W>, y: F<W>, e: F<W>, p: &SO<W>, univ: Option<usize>) -> Verdict {
    let (vs, c) = (v.srs(), gtgen::<W>() * com);
    match univ {
        None => verdict(|| SB::<W>::verify(&vs, &c, &(x, y), &e, p)),
        Some(d) => verdict(|| SU::<W>::verify(&vs, d, &c, &y, &e, p)),
    }
}
fn tr_verify<W: World>(l: &(Vec<F<W>>, Vec<F<W>>), com: F<W>, x: F<W>, y: F<W>, e: F<W>, p: &TO<W>, univ: bool) -> Verdict {
    let (k, c) = (tr_key::<W>(l), gtgen::<W>() * com);
    if univ {
        verdict(|| TU::<W>::verify(&k, &c, &y, &e, p))
    } else {
        verdict(|| TB::<W>::verify(&k, &c, &(x, y), &e, p))
    }
}
/// y-length of the key for a univariate degree, from its documentation: enough room, both lengths powers of two
fn srs_exact<W: World>(k: usize, univ: Option<(usize, usize)>) {
    let v = Vk::<W>::free();
    let (com, y, e) = (W::f("com", FREE), W::f("y", STMT), W::f("e", STMT));
    let x = match univ { None => W::f("x", STMT), Some((_, ny)) => fpow::<W>(y, ny as u64) };
    let p = SrsPf::<W>::free(k);
    let got = srs_verify::<W>(&v, com, x, y, e, &p.proof(), univ.map(|u| u.0));
    W::observe("verdict", format!("{:?}", got));
    W::set_cost(0);
    let h = find_rounds::<W>(&sm::round_msgs::<W>(&p.steps));
    let c = find_chal::<W>(true, &[bytes(&(G2::<W>::generator() * p.ck))]);
    let fo = h.map(|h| fold::<W>([com, F::<W>::zero(), p.u], &p.steps, &h));
    let yy = fo.as_ref().map(|fo| inv_all::<W>(&fo.x));
    judge::<W>(&got, &[
        &|| match (&yy, c) { (Some(yy), Some(c)) => Some(v.opens_g2(p.ck, p.op, yy, F::<W>::one(), c)), _ => None },
        &|| fo.as_ref().map(|fo| (fo.com[0] - p.base.0 * p.ck).is_zero()),
        &|| fo.as_ref().map(|fo| (fo.com[2] - p.base.0 * prod_form::<W>(yy.as_ref().unwrap(), x)).is_zero()),
        &|| Some(((p.u - v.g * e) * v.h - p.kz * (v.ha - v.h * y)).is_zero()),
    ]);
}
fn tr_exact<W: World>(nx: usize, ny: usize, univ: bool) {
    let (k2, k1) = (nx.trailing_zeros() as usize, ny.trailing_zeros() as usize);
    let l = tr_logs::<W>(nx, ny);
    let (com, y, e) = (W::f("com", FREE), W::f("y", STMT), W::f("e", FREE));
    let x = if univ { fpow::<W>(y, ny as u64) } else { W::f("x", STMT) };
    let p = TrPf::<W>::free(k2, k1);
    let got = tr_verify::<W>(&l, com, x, y, e, &p.proof(), univ);
    W::observe("verdict", format!("{:?}", got));
    W::set_cost(0);
    let h2 = find_rounds::<W>(&sm::round_msgs::<W>(&p.s2));
    let h1 = find_rounds::<W>(
        &p.s1.iter().map(|s| (0..2).flat_map(|h| [bytes(&(G1::<W>::generator() * s[h][0])), bytes(&IdentityOutput(vec![s[h][2]]))]).collect()).collect::<Vec<_>>(),
    );
    let f2 = h2.map(|h| fold::<W>([com, F::<W>::zero(), p.u], &p.s2, &h));
    let f1 = h1.map(|h| fold::<W>([p.u, F::<W>::zero(), e], &p.s1, &h));
    let (y2, y1) = (f2.as_ref().map(|f| inv_all::<W>(&f.x)), f1.as_ref().map(|f| inv_all::<W>(&f.x)));
    let (bx, by) = (y2.as_ref().map(|y| prod_form::<W>(y, x)), y1.as_ref().map(|z| prod_form::<W>(z, y)));
    // each tier's proof also carries a final right value: well formed when it is the folded scalar
    let formed = bx.map(|b| p.b2.1 == b).unwrap_or(true) && by.map(|b| p.b1.1 == b).unwrap_or(true);
    if got.accepted() || formed {
        judge::<W>(&got, &[
            &|| f2.as_ref().map(|f| (f.com[0] - p.b2.0 * fold_key::<W>(&l.1, y2.as_ref().unwrap())).is_zero()),
            &|| f2.as_ref().map(|f| (f.com[2] - p.b2.0 * bx.unwrap()).is_zero()),
            &|| f1.as_ref().map(|f| (f.com[0] - p.b1.0 * fold_key::<W>(&l.0, y1.as_ref().unwrap())).is_zero()),
            &|| f1.as_ref().map(|f| (f.com[2] - p.b1.0 * by.unwrap()).is_zero()),
        ]);
    }
}
fn tamper<W: World>(nx: usize, ny: usize, what: usize, transparent: bool) {
    W::set_cost(u32::MAX);
    let d = W::f("delta", FREE);
    let r = rows::<W>(nx, ny, 0);
    let (mut x, mut y) = (W::f("x", STMT), W::f("y", STMT));
    let mut e = eval2::<W>(&r, x, y);
    let g1 = G1::<W>::generator();
    let n1 = bytes(&g1).len();
    let mut l = tr_logs::<W>(nx, ny);
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let key = srs_key::<W>(nx, ny, al, be);
    let tkey = tr_key::<W>(&l);
    let mut vk = Vk::<W>::of(al, be);
    // logarithm of the commitment
    let rowlogs: Vec<F<W>> = r.iter().map(|q| if transparent { dot::<W>(q, &l.0) } else { horner::<W>(q, al) }).collect();
    let kx: Vec<F<W>> = if transparent { l.1.clone() } else { (0..nx).map(|i| fpow::<W>(be, 2 * i as u64)).collect() };
    let mut com = dot::<W>(&rowlogs, &kx);
    let made = guard(|| -> Result<Vec<u8>, Error> {
        let pt = (x, y);
        Ok(if transparent {
            let b = tbiv::<W>(&r);
            let (c, rc) = TB::<W>::commit(&tkey, &b)?;
            W::check("commitment value", c == gtgen::<W>() * com);
            bytes(&TB::<W>::open(&tkey, &b, &rc, &pt)?)
        } else {
            let b = sbiv::<W>(&r);
            let (c, rc) = SB::<W>::commit(&key, &b)?;
            W::check("commitment value", c == gtgen::<W>() * com);
            bytes(&SB::<W>::open(&key, &b, &rc, &pt)?)
        })
    });
    let mut b = match made { Ok(Ok(b)) => b, _ => return W::fail("commit and open succeed on a polynomial that fits", String::new()) };
    match what {
        0 => e += d,
        1 => x += d,
        2 => y += d,
        3 => com += d,
        4 => if transparent { l.0[0] += d } else { vk.ha += d },
        5 => if transparent { l.1[nx - 1] += d } else { vk.gb += d },
        _ => {
            // the inner commitment (6), the last element of the proof (7)
            if transparent {
                let at2 = {
                    let k2 = nx.trailing_zeros() as usize;
                    let size = 2 * (bytes(&gtgen::<W>()).len() + bytes(&d).len() + bytes(&IdentityOutput(vec![g1])).len());
                    8 + k2 * size + n1 + bytes(&d).len()
                };
                if what == 6 {
                    let new = add_raw::<W, G1<W>>(&b[at2..at2 + n1], g1 * d);
                    b.splice(at2..at2 + n1, new);
                } else {
                    let nf = bytes(&d).len();
                    let at = b.len() - 2 * nf;
                    let new = add_raw::<W, F<W>>(&b[at..at + nf], d);
                    b.splice(at..at + nf, new);
                }
            } else {
                let at = b.len() - if what == 6 { 2 * n1 } else { n1 };
                let new = add_raw::<W, G1<W>>(&b[at..at + n1], g1 * d);
                b.splice(at..at + n1, new);
            }
        }
    }
    let v = if transparent { tr_verify::<W>(&l, com, x, y, e, &de(&b), false) } else { srs_verify::<W>(&vk, com, x, y, e, &de(&b), None) };
    W::observe("verdict", format!("{:?}", v));
    W::check("honest proof rejected for another value, point, commitment, key or proof element", v == Verdict::Reject);
}
fn utamper<W: World>(deg: usize, what: usize, transparent: bool) {
    W::set_cost(u32::MAX);
    let d = W::f("delta", FREE);
    let mut rng = W::rng();
    let c = coeffs::<W>(deg + 1);
    let p = poly::<W>(&c);
    let mut z = W::f("z", STMT);
    let mut e = horner::<W>(&c, z);
    let e_at = |z: &mut F<W>, e: &mut F<W>| match what {
        0 => *e += d,
        // another point, the value unchanged
        1 => *z += d,
        // another point with its own value
        _ => {
            *z += d;
            *e = horner::<W>(&c, *z)
        }
    };
    let got = guard(|| -> Result<Verdict, Error> {
        Ok(if transparent {
            let key = TU::<W>::setup(&mut rng, deg)?;
            let (com, rc) = TU::<W>::commit(&key, &p)?;
            let o = TU::<W>::open(&key, &p, &rc, &z)?;
            e_at(&mut z, &mut e);
            verdict(|| TU::<W>::verify(&key, &com, &z, &e, &o))
        } else {
            let key = SU::<W>::setup(&mut rng, deg)?;
            let (com, rc) = SU::<W>::commit(&key, &p)?;
            let o = SU::<W>::open(&key, &p, &rc, &z)?;
            e_at(&mut z, &mut e);
            verdict(|| SU::<W>::verify(&key.0.get_verifier_key(), deg, &com, &z, &e, &o))
        })
    });
    match got {
        Ok(Ok(v)) => W::check("honest proof rejected for another value or point", v == Verdict::Reject),
        _ => W::fail("commit and open succeed on a polynomial that fits", String::new()),
    }
}

// ---------------------------------------------------------------- C07
fn srs_binds<W: World>(what: usize) {
    let k = 2;
    let run = |w: Option<usize>| {
        let nw = W::f("c2", FREE);
        let v = Vk::<W>::free();
        let (mut com, mut x, y, e) = (W::f("com", FREE), W::f("x", STMT), W::f("y", STMT), W::f("e", STMT));
        let mut p = SrsPf::<W>::free(k);
        match w { Some(0) => com = nw, Some(1) => x = nw, Some(_) => p.u = nw, None => {} }
        let _ = srs_verify::<W>(&v, com, x, y, e, &p.proof(), None);
    };
    let old = [W::f("com", FREE), W::f("x", STMT), W::f("u", FREE)][what];
    let (a, b) = twice::<W>(&|| run(None), &|| run(Some(what)));
    determines::<W>(&format!("PC: first challenge determines the {}", ["commitment", "first coordinate", "row evaluation commitment"][what]), k + 1, 0, &a, &b, &[(old, W::f("c2", FREE))]);
}
fn tr_binds<W: World>(what: usize) {
    let (nx, ny) = (2, 2);
    let l = tr_logs::<W>(nx, ny);
    let run = |w: Option<usize>| {
        let nw = W::f("c2", FREE);
        let (mut com, mut x, mut y, mut e) = (W::f("com", FREE), W::f("x", STMT), W::f("y", STMT), W::f("e", STMT));
        let mut p = TrPf::<W>::free(1, 1);
        match w { Some(0) => com = nw, Some(1) => x = nw, Some(2) | Some(3) => p.u = nw, Some(4) => y = nw, Some(_) => e = nw, None => {} }
        let _ = tr_verify::<W>(&l, com, x, y, e, &p.proof(), false);
    };
    let names = [
        "first challenge determines the commitment", "first challenge determines the first coordinate", "first challenge determines the row evaluation commitment",
        "first-tier challenge determines the row evaluation commitment", "first-tier challenge determines the second coordinate", "first-tier challenge determines the value",
    ];
    let old = [W::f("com", FREE), W::f("x", STMT), W::f("u", FREE), W::f("u", FREE), W::f("y", STMT), W::f("e", STMT)][what];
    let (mut a, mut b) = twice::<W>(&|| run(None), &|| run(Some(what)));
    if a.len() != 2 || b.len() != 2 {
        return W::fail("number of challenges", format!("{} {}", a.len(), b.len()));
    }
    // one challenge per tier; the tiers are independent proofs
    let at = if what < 3 { 0 } else { 1 };
    a = vec![a[at].clone()];
    b = vec![b[at].clone()];
    determines::<W>(&format!("transparent PC: {}", names[what]), 1, 0, &a, &b, &[(old, W::f("c2", FREE))]);
}

// ---------------------------------------------------------------- C12
fn kzg_setup<W: World>(deg: usize) {
    let mut rng = W::rng();
    W::set_cost(u32::MAX);
    let (pw, v) = match guard(|| K::<W>::setup(&mut rng, deg)) { Ok(Ok(x)) => x, _ => return W::fail("setup", format!("degree {}", deg)) };
    let (x, y) = (W::f("rng#0", KEY), W::f("rng#1", KEY));
    let (g, h) = (G1::<W>::generator(), G2::<W>::generator());
    let (al, be) = if v.h_alpha == h * x { (x, y) } else { (y, x) };
    W::check("number of powers", pw.len() == deg + 1);
    W::check("powers of one secret", pw == aff::<W>(&powers::<W>(al, deg + 1)));
    W::check("verifier key", v.g == g && v.h == h && v.h_alpha == h * al && v.g_beta == g * be);
    W::check("secrets are independent", W::independent(al, be));
}
fn biv_setup<W: World>(nx: usize, ny: usize) {
    let mut rng = W::rng();
    W::set_cost(u32::MAX);
    let (s, pw) = match guard(|| SB::<W>::setup(&mut rng, nx - 1, ny - 1)) { Ok(Ok(x)) => x, _ => return W::fail("setup", format!("{} {}", nx, ny)) };
    let (x, y) = (W::f("rng#0", KEY), W::f("rng#1", KEY));
    let (g, h) = (G1::<W>::generator(), G2::<W>::generator());
    let (al, be) = if s.h_alpha == h * x { (x, y) } else { (y, x) };
    W::check("number of powers", pw.len() == ny && s.h_beta_powers.len() == 2 * nx - 1);
    W::check("powers of one secret in G1", pw == aff::<W>(&powers::<W>(al, ny)));
    W::check("powers of the other secret in G2", s.h_beta_powers == powers::<W>(be, 2 * nx - 1).into_iter().map(|e| h * e).collect::<Vec<_>>());
    W::check("secrets are independent", W::independent(al, be));
    let v = s.get_verifier_key();
    W::check("verifier key", v.g == g && v.h == h && v.h_alpha == h * al && v.g_beta == g * be);
    W::check("left keys are the even powers", s.get_commitment_keys().0 == (0..nx).map(|i| h * fpow::<W>(be, 2 * i as u64)).collect::<Vec<_>>());
}
fn tr_setup<W: World>(nx: usize, ny: usize) {
    let mut rng = W::rng();
    W::set_cost(u32::MAX);
    let k = match guard(|| TB::<W>::setup(&mut rng, nx - 1, ny - 1)) { Ok(Ok(x)) => x, _ => return W::fail("setup", format!("{} {}", nx, ny)) };
    W::check("number of keys", k.0.len() == ny && k.1.len() == nx);
    let d = |v: usize, w: usize| v != w;
    W::check("no key is trivial or repeated", (0..ny).all(|i| !k.0[i].is_zero() && (0..i).all(|j| d(i, j) && k.0[i] != k.0[j])) && (0..nx).all(|i| !k.1[i].is_zero() && (0..i).all(|j| k.1[i] != k.1[j])));
}

// ---------------------------------------------------------------- C29, C30
/// bytes of an opening proof
pub fn sized_open<W: World>(nx: usize, ny: usize, transparent: bool) -> Result<usize, String> {
    let r = rows::<W>(nx, ny, 0);
    let pt = (W::f("x", STMT), W::f("y", STMT));
    guard(|| -> Result<usize, Error> {
        Ok(if transparent {
            let (key, b) = (tr_key::<W>(&tr_logs::<W>(nx, ny)), tbiv::<W>(&r));
            let (_, rc) = TB::<W>::commit(&key, &b)?;
            bytes(&TB::<W>::open(&key, &b, &rc, &pt)?).len()
        } else {
            let (key, b) = (srs_key::<W>(nx, ny, W::f("alpha", KEY), W::f("beta", KEY)), sbiv::<W>(&r));
            let (_, rc) = SB::<W>::commit(&key, &b)?;
            bytes(&SB::<W>::open(&key, &b, &rc, &pt)?).len()
        })
    })
    .and_then(|r| r.map_err(|e| e.to_string()))
}
type Com<W> = (GT<W>, Vec<G1<W>>);
fn commit<W: World>(nx: usize, ny: usize, r: &[Vec<F<W>>], transparent: bool) -> Result<Com<W>, String> {
    guard(|| -> Result<Com<W>, Error> {
        if transparent {
            TB::<W>::commit(&tr_key::<W>(&tr_logs::<W>(nx, ny)), &tbiv::<W>(r))
        } else {
            SB::<W>::commit(&srs_key::<W>(nx, ny, W::f("alpha", KEY), W::f("beta", KEY)), &sbiv::<W>(r))
        }
    })
    .and_then(|r| r.map_err(|e| e.to_string()))
}
fn matrix<W: World>(p: &str, nx: usize, ny: usize) -> Vec<Vec<F<W>>> {
    (0..nx).map(|i| (0..ny).map(|j| W::f(&format!("{}{}_{}", p, i, j), STMT)).collect()).collect()
}
/// Every coefficient weighs its own pair of key elements, also special ones.
pub fn committed<W: World>(nx: usize, ny: usize, shape: u8, transparent: bool) {
    let p = rows::<W>(nx, ny, shape);
    let (k, q): (Vec<F<W>>, Vec<F<W>>) = if transparent {
        tr_logs::<W>(nx, ny)
    } else {
        (powers::<W>(W::f("alpha", KEY), ny), (0..nx).map(|i| fpow::<W>(W::f("beta", KEY), 2 * i as u64)).collect())
    };
    // missing rows and coefficients count as zero
    let row: Vec<F<W>> = (0..nx).map(|i| p.get(i).map_or(F::<W>::zero(), |r| dot::<W>(r, &k[..r.len()]))).collect();
    match commit::<W>(nx, ny, &p, transparent) {
        Ok((c, rc)) => {
            W::observe("rows", format!("{}", rc.len()));
            W::check("row commitments", rc == row.iter().map(|x| G1::<W>::generator() * *x).collect::<Vec<_>>());
            W::check("commitment to the rows", c == gtgen::<W>() * dot::<W>(&row, &q));
        }
        Err(e) => W::fail("polynomials that fit are committed to", e),
    }
}
/// Commitments add up like the polynomials.
pub fn linear<W: World>(nx: usize, ny: usize, transparent: bool) {
    W::set_cost(u32::MAX);
    let (p, q, c) = (matrix::<W>("p", nx, ny), matrix::<W>("d", nx, ny), W::f("c", STMT));
    let mix: Vec<Vec<F<W>>> = p.iter().zip(&q).map(|(a, b)| a.iter().zip(b).map(|(x, y)| *x + c * y).collect()).collect();
    // a polynomial with fewer rows and shorter ones
    let part: Vec<Vec<F<W>>> = p.iter().take(nx.div_ceil(2)).enumerate().map(|(i, a)| a[..ny - (i % ny.min(2))].to_vec()).collect();
    let full: Vec<Vec<F<W>>> = (0..nx).map(|i| (0..ny).map(|j| part.get(i).and_then(|r| r.get(j)).cloned().unwrap_or(F::<W>::zero())).collect()).collect();
    let all: Result<Vec<Com<W>>, String> = [&p, &q, &mix, &part, &full].into_iter().map(|r| commit::<W>(nx, ny, r, transparent)).collect();
    match all {
        Err(e) => W::fail("polynomials that fit are committed to", e),
        Ok(l) => {
            W::check("commitments are linear", l[0].0 + l[1].0 * c == l[2].0);
            W::check("row commitments are linear", l[0].1.len() == nx && (0..nx).all(|i| l[0].1[i] + l[1].1[i] * c == l[2].1[i]));
            W::check("missing coefficients count as zero", l[3] == l[4]);
        }
    }
}
/// The same for univariate polynomials under fresh keys.
pub fn committed_uni<W: World>(deg: usize, transparent: bool) {
    W::set_cost(u32::MAX);
    let mut rng = W::rng();
    let (p, q, c) = (fs::<W>("p", deg + 1), fs::<W>("d", deg + 1), W::f("c", STMT));
    let mix: Vec<F<W>> = p.iter().zip(&q).map(|(x, y)| *x + c * y).collect();
    let unit = |i: usize| -> Vec<F<W>> { (0..=i).map(|j| if i == j { F::<W>::one() } else { F::<W>::zero() }).collect() };
    let r = guard(|| -> Result<_, Error> {
        let mut all: Vec<GT<W>> = vec![];
        let polys: Vec<Vec<F<W>>> = [p, q, mix].into_iter().chain((0..=deg).map(unit)).collect();
        if transparent {
            let key = TU::<W>::setup(&mut rng, deg)?;
            for p in &polys { all.push(TU::<W>::commit(&key, &poly::<W>(p))?.0); }
        } else {
            let key = SU::<W>::setup(&mut rng, deg)?;
            for p in &polys { all.push(SU::<W>::commit(&key, &poly::<W>(p))?.0); }
        }
        Ok(all)
    });
    match r {
        Ok(Ok(l)) => {
            W::check("commitments are linear", l[0] + l[1] * c == l[2]);
            let u = &l[3..];
            W::check("coefficients have keys of their own", (0..=deg).all(|i| !u[i].is_zero() && (0..i).all(|j| u[i] != u[j] && u[i] != u[j].double() && u[i].double() != u[j] && u[i] + u[j] != GT::<W>::zero())));
        }
        Ok(Err(e)) => W::fail("polynomials that fit are committed to", e.to_string()),
        Err(e) => W::fail("polynomials that fit are committed to", e),
    }
}

// ---------------------------------------------------------------- C24, C26
fn srs_rounds<W: World>(k: usize) {
    let p = SrsPf::<W>::free(k);
    let v = srs_verify::<W>(&Vk::free(), W::f("com", FREE), W::f("x", STMT), W::f("y", STMT), W::f("e", STMT), &p.proof(), if k % 2 == 0 { None } else { Some(3) });
    W::observe("verdict", format!("{:?}", v));
    W::check_msg("verifier does not panic", v != Verdict::Panic, || format!("{} rounds", k));
}
fn tr_rounds<W: World>(nx: usize, ny: usize, k2: usize, k1: usize, univ: bool) {
    let l = tr_logs::<W>(nx, ny);
    let p = TrPf::<W>::free(k2, k1);
    let v = tr_verify::<W>(&l, W::f("com", FREE), W::f("x", STMT), W::f("y", STMT), W::f("e", FREE), &p.proof(), univ);
    W::observe("verdict", format!("{:?}", v));
    W::check_msg("verifier does not panic", v != Verdict::Panic, || format!("{} and {} rounds against {} and {} keys", k2, k1, nx, ny));
    if Some(nx) != 1usize.checked_shl(k2 as u32) || Some(ny) != 1usize.checked_shl(k1 as u32) {
        W::check_msg("wrong number of rounds refused", v.refused(), || format!("{} and {} rounds against {} and {} keys", k2, k1, nx, ny));
    }
}
fn reshaped<W: World>(nx: usize, ny: usize, transparent: bool) {
    W::set_cost(u32::MAX);
    let r = rows::<W>(nx, ny, 0);
    let (x, y) = (W::f("x", STMT), W::f("y", STMT));
    let e = eval2::<W>(&r, x, y);
    let (al, be) = (W::f("alpha", KEY), W::f("beta", KEY));
    let g1 = G1::<W>::generator();
    let size2 = 2 * (bytes(&gtgen::<W>()).len() + bytes(&e).len() + bytes(&IdentityOutput(vec![g1])).len());
    let k2 = nx.trailing_zeros() as usize;
    let cut = |b: &[u8], at: usize, size: usize, k: usize| -> (Vec<Vec<u8>>, Vec<u8>, Vec<u8>) {
        (
            (0..k).map(|i| b[at + 8 + i * size..at + 8 + (i + 1) * size].to_vec()).collect(),
            b[..at].to_vec(),
            b[at + 8 + k * size..].to_vec(),
        )
    };
    let label = "honest proof with rounds removed or repeated is rejected";
    if transparent {
        let l = tr_logs::<W>(nx, ny);
        let key = tr_key::<W>(&l);
        let b = tbiv::<W>(&r);
        let (c, p) = match guard(|| -> Result<_, Error> { let (c, rc) = TB::<W>::commit(&key, &b)?; let p = TB::<W>::open(&key, &b, &rc, &(x, y))?; Ok((c, bytes(&p))) }) {
            Ok(Ok(v)) => v,
            _ => return W::fail("commit and open succeed on a polynomial that fits", String::new()),
        };
        let nf = bytes(&e).len();
        let at1 = 8 + k2 * size2 + bytes(&g1).len() + nf + bytes(&g1).len();
        let size1 = 2 * (bytes(&g1).len() + nf + bytes(&IdentityOutput(vec![e])).len());
        for (at, size, k) in [(0, size2, k2), (at1, size1, ny.trailing_zeros() as usize)] {
            let (rounds, pre, post) = cut(&p, at, size, k);
            for rs in reshapes(&rounds) {
                if rs == rounds { continue; }
                let mut b2 = pre.clone();
                b2.extend(vec_bytes(&rs));
                b2.extend(&post);
                let q: TO<W> = de(&b2);
                let v = verdict(|| TB::<W>::verify(&key, &c, &(x, y), &e, &q));
                W::check_msg(label, v.refused() && v != Verdict::Panic, || format!("{} of {} rounds, {:?}", rs.len(), k, v));
            }
        }
    } else {
        let key = srs_key::<W>(nx, ny, al, be);
        let b = sbiv::<W>(&r);
        let (c, p) = match guard(|| -> Result<_, Error> { let (c, rc) = SB::<W>::commit(&key, &b)?; let p = SB::<W>::open(&key, &b, &rc, &(x, y))?; Ok((c, bytes(&p))) }) {
            Ok(Ok(v)) => v,
            _ => return W::fail("commit and open succeed on a polynomial that fits", String::new()),
        };
        let (rounds, pre, post) = cut(&p, 0, size2, k2);
        for rs in reshapes(&rounds) {
            if rs == rounds { continue; }
            let mut b2 = pre.clone();
            b2.extend(vec_bytes(&rs));
            b2.extend(&post);
            let q: SO<W> = de(&b2);
            let v = verdict(|| SB::<W>::verify(&key.0.get_verifier_key(), &c, &(x, y), &e, &q));
            W::check_msg(label, v.refused() && v != Verdict::Panic, || format!("{} of {} rounds, {:?}", rs.len(), k2, v));
        }
    }
}
fn threads<W: World>(nx: usize, ny: usize, transparent: bool) {
    W::set_cost(u32::MAX);
    let r = rows::<W>(nx, ny, 0);
    let (x, y) = (W::f("x", STMT), W::f("y", STMT));
    let e = eval2::<W>(&r, x, y);
    let key = srs_key::<W>(nx, ny, W::f("alpha", KEY), W::f("beta", KEY));
    let tkey = tr_key::<W>(&tr_logs::<W>(nx, ny));
    let mut base: Option<(Vec<u8>, Vec<u8>)> = None;
    for t in POOLS {
        let got = in_pool(t, || {
            let m = guard(|| -> Result<(Vec<u8>, Vec<u8>), Error> {
                Ok(if transparent {
                    let b = tbiv::<W>(&r);
                    let (c, rc) = TB::<W>::commit(&tkey, &b)?;
                    (bytes(&c), bytes(&TB::<W>::open(&tkey, &b, &rc, &(x, y))?))
                } else {
                    let b = sbiv::<W>(&r);
                    let (c, rc) = SB::<W>::commit(&key, &b)?;
                    (bytes(&c), bytes(&SB::<W>::open(&key, &b, &rc, &(x, y))?))
                })
            });
            match m { Ok(Ok(v)) => Some(v), _ => None }
        });
        let got = match got { Some(g) => g, None => return W::fail("something is computed", format!("{} threads", t)) };
        for u in [1, t] {
            let v = in_pool(u, || {
                let c: GT<W> = de(&got.0);
                if transparent {
                    let p: TO<W> = de(&got.1);
                    verdict(|| TB::<W>::verify(&tkey, &c, &(x, y), &e, &p))
                } else {
                    let p: SO<W> = de(&got.1);
                    verdict(|| SB::<W>::verify(&key.0.get_verifier_key(), &c, &(x, y), &e, &p))
                }
            });
            W::check_msg("proof accepted whatever the pools", v == Verdict::Accept, || format!("proved with {}, verified with {} threads: {:?}", t, u, v));
        }
        match &base {
            None => base = Some(got),
            Some(b) => W::check_msg("same bytes whatever the pool", *b == got, || format!("{} threads", t)),
        }
    }
}

pub fn register(v: &mut Vec<Scen>) {
    for deg in [0usize, 1, 2, 3, 4, 7] {
        for len in 0..=deg + 1 {
            scen!(v, "C14", format!("C14/complete/degree={}/coefficients={}", deg, len), "degrees up to 7, any coefficients, point and secret", depth = 2, paths = 30, replays = 3, kzg_complete(deg, len));
        }
        scen!(v, "C14", format!("C14/fresh/degree={}", deg), "fresh key", depth = 1, paths = 10, replays = 2, kzg_roundtrip(deg));
        scen!(v, "C14", format!("C14/sound/degree={}", deg), "degrees up to 7, algebraic prover", depth = 1, paths = 60, replays = 6, kzg_sound(deg));
        for s in [false, true] {
            for len in [deg, deg + 1, deg + 2, deg + 3, 2 * deg + 4] {
                scen!(v, "C14", format!("C14/capacity/degree={}/coefficients={}/fresh={}", deg, len, s), "degrees up to 7, polynomials up to degree 17", depth = 0, paths = 1, replays = 1, kzg_capacity(deg, len, s));
            }
        }
        scen!(v, "C12", format!("C12/setup/kzg/degree={}", deg), format!("degree {}", deg), depth = 0, paths = 1, replays = 1, kzg_setup(deg));
    }
    scen!(v, "C14", "C14/exact", "arbitrary elements", depth = 3, paths = 40, replays = 10, kzg_exact());
    for deg in [8usize, 15, 16, 17, 31, 32, 33, 63, 64, 100] {
        scen!(v, "C14", format!("C14/complete/degree={}/coefficients={}", deg, deg + 1), "degrees up to 100, up to one special branch", depth = if deg < 32 { 1 } else { 0 }, paths = 6, replays = 1, kzg_complete(deg, deg + 1));
        scen!(v, "C14", format!("C14/complete/degree={}/coefficients={}", deg, deg / 2), "degrees up to 100, half the coefficients", depth = 0, paths = 1, replays = 1, kzg_complete(deg, deg / 2));
        for len in [deg + 2, 2 * deg] {
            scen!(v, "C14", format!("C14/capacity/degree={}/coefficients={}/fresh=false", deg, len), "degrees up to 100", depth = 0, paths = 1, replays = 1, kzg_capacity(deg, len, false));
        }
        scen!(v, "C12", format!("C12/setup/kzg/degree={}", deg), format!("degree {}", deg), depth = 0, paths = 1, replays = 1, kzg_setup(deg));
    }
    scen!(deep v, "C14", "C14/sound/degree=15", "degree 15", depth = 1, paths = 60, replays = 3, kzg_sound(15));
    for (p, t) in [("C15", false), ("C17", true)] {
        for nx in [1usize, 2, 4] {
            for ny in [1usize, 2, 3, 4, 8] {
                if t && ny == 3 { continue; }
                for shape in 0..6u8 {
                    if shape == 0 || nx * ny <= 8 {
                        scen!(v, p, format!("{}/bivariate/{}x{}/shape={}", p, nx, ny, shape), "1, 2, 4 rows of up to 8 coefficients; full, fewer rows, rows of different degrees, single monomial, zero", depth = 1, paths = 8, replays = 2, biv(nx, ny, shape, t));
                    }
                }
                scen!(v, p, format!("{}/over/{}x{}/rows", p, nx, ny), "one row too many", depth = 0, paths = 1, replays = 1, biv_over(nx, ny, true, t));
                scen!(v, p, format!("{}/over/{}x{}/degree", p, nx, ny), "one degree too many", depth = 0, paths = 1, replays = 1, biv_over(nx, ny, false, t));
            }
        }
        for (nx, ny) in [(8usize, 4usize), (8, 8), (16, 2), (2, 16), (16, 16), (32, 1), (1, 32), (32, 4), (4, 32), (64, 2), (2, 64)] {
            scen!(v, p, format!("{}/bivariate/{}x{}/shape=0", p, nx, ny), "up to 64 rows or coefficients per row, generic values", depth = 0, paths = 2, replays = 1, biv(nx, ny, 0, t));
        }
        for deg in [0usize, 1, 2, 3, 4, 8, 14, 15] {
            for len in 0..=deg + 1 {
                if deg > 4 && len > 2 && len < deg { continue; }
                scen!(v, p, format!("{}/univariate/degree={}/coefficients={}", p, deg, len), "key for degree 0 to 15, polynomials up to it", depth = 1, paths = 6, replays = 2, uni(deg, len, t));
            }
        }
        for deg in [0usize, 1, 2, 3, 4, 8, 15, 16] {
            for extra in [1usize, 2, 5] {
                scen!(v, p, format!("{}/univariate/over/degree={}/extra={}", p, deg, extra), "polynomials beyond the key's capacity", depth = 0, paths = 1, replays = 1, uni_over(deg, extra, t));
            }
        }
        for deg in [16usize, 48, 62, 63, 64, 100] {
            scen!(v, p, format!("{}/univariate/degree={}/sparse", p, deg), "degrees up to 100, five non-zero coefficients", depth = 0, paths = 1, replays = 1, uni(deg, deg + 1, t));
        }
    }
    for deg in [255usize, 256, 1023, 1024] {
        scen!(v, "C15", format!("C15/univariate/degree={}/sparse", deg), "degrees up to 1024, five non-zero coefficients", depth = 0, paths = 1, replays = 1, uni(deg, deg + 1, false));
    }
    for k in 0..7usize {
        scen!(v, "C16", format!("C16/exact/bivariate/rounds={}", k), format!("{} rounds, arbitrary elements", k), depth = 1, paths = 60, replays = 5, srs_exact(k, None));
    }
    for (deg, ny) in [(1usize, 2usize), (3, 2), (8, 8), (15, 8), (63, 32), (255, 128)] {
        scen!(v, "C16", format!("C16/exact/univariate/degree={}", deg), format!("degree {}, arbitrary elements", deg), depth = 1, paths = 60, replays = 5, srs_exact(1, Some((deg, ny))));
    }
    for (nx, ny) in [(1usize, 1usize), (1, 2), (2, 1), (2, 2), (2, 4), (4, 2), (8, 2), (2, 8), (4, 8), (16, 4), (1, 16), (16, 1)] {
        for u in [false, true] {
            scen!(v, "C18", format!("C18/exact/{}x{}/univariate={}", nx, ny, u), format!("{} rows of {}, arbitrary elements", nx, ny), depth = 1, paths = 60, replays = 5, tr_exact(nx, ny, u));
        }
    }
    for (p, t) in [("C16", false), ("C18", true)] {
        for (nx, ny) in [(2usize, 2usize), (4, 2), (2, 4)] {
            for what in 0..8usize {
                scen!(v, p, format!("{}/tamper/{}x{}/what={}", p, nx, ny, what), "one part changed, generic values", depth = 0, paths = 1, replays = 1, tamper(nx, ny, what, t));
            }
        }
        for deg in [1usize, 3, 5, 15] {
            for what in 0..3usize {
                scen!(v, p, format!("{}/tamper/univariate/degree={}/what={}", p, deg, what), "value, point or both changed, generic values", depth = 0, paths = 1, replays = 1, utamper(deg, what, t));
            }
        }
    }
    for what in 0..3usize {
        scen!(v, "C07", format!("C07/pc/{}", what), "two-tier commitment with an SRS, 2 rounds", depth = 0, paths = 10, replays = 2, srs_binds(what));
    }
    for what in 0..6usize {
        scen!(v, "C07", format!("C07/transparent-pc/{}", what), "transparent commitment, 2x2", depth = 0, paths = 10, replays = 2, tr_binds(what));
    }
    for (nx, ny) in [(1usize, 1usize), (1, 2), (2, 3), (3, 2), (4, 8), (16, 3), (3, 17), (33, 8), (8, 40), (64, 1), (1, 100)] {
        scen!(v, "C12", format!("C12/setup/bivariate/{}x{}", nx, ny), format!("{} rows of {}", nx, ny), depth = 0, paths = 1, replays = 1, biv_setup(nx, ny));
        scen!(v, "C12", format!("C12/setup/transparent/{}x{}", nx, ny), format!("{} rows of {}", nx, ny), depth = 0, paths = 1, replays = 1, tr_setup(nx, ny));
    }
    for k in [5usize, 6, 7, 8, 16, 24, 31, 32, 63, 64, 65, 128] {
        if k < 31 {
            scen!(v, "C24", format!("C24/pc/rounds={}", k), "two-tier verifiers, up to 24 rounds, generic elements", depth = 0, paths = 2, replays = 1, srs_rounds(k));
        }
        for (k1, k2) in [(k, 1), (1, k)] {
            scen!(v, "C24", format!("C24/transparent-pc/2x2/rounds={}+{}", k2, k1), "transparent verifiers, up to 128 rounds in either tier, generic elements", depth = 0, paths = 2, replays = 1, tr_rounds(2, 2, k2, k1, k % 2 == 1));
        }
    }
    for k in 0..5usize {
        scen!(v, "C24", format!("C24/pc/rounds={}", k), "two-tier verifiers, rounds 0..4", depth = 1, paths = 20, replays = 2, srs_rounds(k));
    }
    for (nx, ny) in [(1usize, 1usize), (2, 2), (4, 2), (2, 4)] {
        for k2 in 0..4usize {
            for k1 in 0..4usize {
                scen!(v, "C24", format!("C24/transparent-pc/{}x{}/rounds={}+{}", nx, ny, k2, k1), "transparent verifiers, rounds 0..3 in either tier", depth = 0, paths = 4, replays = 1, tr_rounds(nx, ny, k2, k1, (k1 + k2) % 2 == 1));
            }
        }
    }
    for (nx, ny) in [(2usize, 2usize), (4, 4)] {
        for t in [false, true] {
            scen!(v, "C24", format!("C24/pc-reshaped/{}x{}/transparent={}", nx, ny, t), "honest opening proof, rounds removed, repeated, reversed; generic values", depth = 0, paths = 1, replays = 1, reshaped(nx, ny, t));
            scen!(v, "C26", format!("C26/pc/{}x{}/transparent={}", nx, ny, t), "pools of 1, 2, 3, 5 and 8 threads", depth = 0, paths = 1, replays = 1, threads(nx, ny, t));
        }
    }
}
