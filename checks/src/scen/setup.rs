//! Keys from the setups (C28), sizes of proofs (C29), what polynomial commitments commit to (C30).
use crate::runner::Scen;
use crate::scen;
use crate::scen::basic::Bag;
use crate::scen::poly::{self, sized_open};
use crate::scen::{groth, ipa, sipp, ssm, tipa};
use crate::world::*;
use ark_ip_proofs::applications::groth16_aggregation::setup_inner_product;
use ark_ip_proofs::tipa::SRS;

// ---------------------------------------------------------------- C28
fn secrets<W: World>(b: &mut Bag<W>, s: &SRS<W::P>) {
    b.g2.push(s.h_alpha.clone());
    b.g1.push(s.g_beta.clone());
}
/// Two setups in a row: every key of either is an independent sample.
fn fresh_keys<W: World>(which: usize, n: usize, m: usize) {
    W::set_cost(u32::MAX);
    let mut rng = W::rng();
    let mut b = Bag::<W>::new();
    let mut lens = true;
    for _ in 0..2 {
        macro_rules! gipa {
            ($m:ident) => {{
                let (x, y, z) = ipa::$m::G::<W>::setup(&mut rng, n)?;
                lens &= x.len() == n && y.len() == n;
                b.add(&x);
                b.add(&y);
                b.add(&[z]);
            }};
        }
        macro_rules! tipa {
            ($($t:tt)*) => {{
                let (s, z) = $($t)*::setup(&mut rng, n)?;
                secrets::<W>(&mut b, &s);
                b.add(&[z]);
            }};
        }
        macro_rules! gssm {
            ($m:ident) => {{
                let (x, z) = ssm::$m::GS::<W>::setup(&mut rng, n)?;
                lens &= x.len() == n;
                b.add(&x);
                b.add(&[z]);
            }};
        }
        let r = guard(|| -> Result<(), tipa::Error> {
            match which {
                0 => gipa!(pair),
                1 => gipa!(mexp),
                2 => gipa!(scal),
                3 => tipa!(ipa::pair::TI::<W>),
                4 => tipa!(ipa::mexp::TI::<W>),
                5 => tipa!(ipa::scal::TI::<W>),
                6 => gssm!(sm),
                7 => gssm!(sk),
                8 => tipa!(ssm::sm::TS::<W>),
                9 => tipa!(ssm::sk::TS::<W>),
                10 => secrets::<W>(&mut b, &setup_inner_product::<W::P, W::D, _>(&mut rng, n)?),
                11 => {
                    let k = poly::TB::<W>::setup(&mut rng, n - 1, m - 1)?;
                    lens &= k.0.len() == m && k.1.len() == n;
                    b.add(&k.0);
                    b.add(&k.1);
                }
                12 => {
                    let k = poly::TU::<W>::setup(&mut rng, n)?;
                    lens &= k.0.len() * k.1.len() > n;
                    b.add(&k.0);
                    b.add(&k.1);
                }
                13 => secrets::<W>(&mut b, &poly::SB::<W>::setup(&mut rng, n - 1, m - 1)?.0),
                14 => secrets::<W>(&mut b, &poly::SU::<W>::setup(&mut rng, n)?.0),
                _ => {
                    let v = poly::K::<W>::setup(&mut rng, n)?.1;
                    b.g2.push(v.h_alpha);
                    b.g1.push(v.g_beta);
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return W::fail("setup succeeds", e.to_string()),
            Err(e) => return W::fail("setup succeeds", format!("panic: {}", e)),
        }
    }
    W::check("as many keys as asked for", lens);
    W::check("every key is an independent sample", b.independent(rng.drawn()));
}
const SETUPS: [&str; 16] = [
    "gipa-pairing", "gipa-multiexp", "gipa-scalar", "tipa-pairing", "tipa-multiexp", "tipa-scalar", "gipa-ssm-multiexp", "gipa-ssm-scalar",
    "tipa-ssm-multiexp", "tipa-ssm-scalar", "groth16", "transparent-bivariate", "transparent-univariate", "srs-bivariate", "srs-univariate", "kzg",
];

// ---------------------------------------------------------------- C29
/// bytes of an honest proof about n elements (rows, and m columns)
fn proof_size<W: World>(which: usize, n: usize, m: usize) -> Result<usize, String> {
    macro_rules! g { ($m:ident) => { ipa::$m::prove::<W>(&ipa::$m::statement::<W>(n)).and_then(|r| r).map(|p| bytes(&p).len()) }; }
    macro_rules! t { ($m:ident) => { tipa::$m::tprove::<W>(&tipa::$m::world::<W>(n, false)).and_then(|r| r).map(|p| bytes(&p).len()) }; }
    match which {
        0 => g!(pair),
        1 => g!(mexp),
        2 => g!(scal),
        3 => t!(pair),
        4 => t!(mexp),
        5 => t!(scal),
        6 => ssm::sm::gprove::<W>(&ssm::sm::statement::<W>(n, 2, false)).map(|p| bytes(&p).len()),
        7 => ssm::sk::gprove::<W>(&ssm::sk::statement::<W>(n, 2, false)).map(|p| bytes(&p).len()),
        8 => ssm::sm::tprove::<W>(&ssm::sm::statement::<W>(n, 2, true)).map(|p| bytes(&p).len()),
        9 => ssm::sk::tprove::<W>(&ssm::sk::statement::<W>(n, 2, true)).map(|p| bytes(&p).len()),
        10 => groth::sized::<W>(n, m),
        11 => sipp::sized::<W>(n),
        12 => sized_open::<W>(n, m, false),
        _ => sized_open::<W>(n, m, true),
    }
}
const PROOFS: [&str; 14] = [
    "gipa-pairing", "gipa-multiexp", "gipa-scalar", "tipa-pairing", "tipa-multiexp", "tipa-scalar", "gipa-ssm-multiexp", "gipa-ssm-scalar",
    "tipa-ssm-multiexp", "tipa-ssm-scalar", "groth16", "sipp", "opening", "transparent-opening",
];
/// A constant plus as much again for every halving of the vectors, whatever the values.
fn proof_sizes<W: World>(which: usize, n: usize, m: usize, generic: bool) {
    if generic {
        W::set_cost(u32::MAX);
    }
    let log = |x: usize| x.trailing_zeros() as usize;
    let least = if which == 11 { 2 } else { 1 };
    let got = (|| -> Result<_, String> {
        let first = proof_size::<W>(which, least, 1)?;
        let step = proof_size::<W>(which, 2 * least, 1)?.saturating_sub(first);
        let other = proof_size::<W>(which, least, 2)?.saturating_sub(first);
        Ok((first, step, other, proof_size::<W>(which, n, m)?))
    })();
    match got {
        Err(e) => {
            // special challenge values
            W::observe("no proof", String::new());
            if generic {
                W::fail("true statements are proven", e);
            }
        }
        Ok((first, step, other, size)) => {
            let want = first + step * (log(n) - log(least)) + other * log(m);
            // inputs are not part of an aggregate, columns not of an opening under an SRS
            let fixed = which == 13 || other == 0;
            W::observe("proof", String::new());
            W::check_msg("size grows by the same amount for every doubling", size == want && fixed && step > 0, || format!("{} elements: {} bytes, {} for {}, {} and {} more per doubling", n, size, first, least, step, other));
        }
    }
}

// ---------------------------------------------------------------- C30
pub fn register(v: &mut Vec<Scen>) {
    for (w, name) in SETUPS.iter().enumerate() {
        for n in [1usize, 2, 3, 4, 7, 8, 16, 17, 33] {
            if w >= 11 && n > 17 { continue; }
            let m = if w == 11 || w == 13 { n % 5 + 1 } else { 1 };
            scen!(v, "C28", format!("C28/{}/n={}", name, n), format!("two setups of size {} ({} columns) in a row", n, m), depth = 0, paths = 1, replays = 1, fresh_keys(w, n, m));
        }
        for n in [100usize, 257] {
            scen!(deep v, "C28", format!("C28/{}/n={}", name, n), format!("two setups of size {} in a row", n), depth = 0, paths = 1, replays = 1, fresh_keys(w, n, 2));
        }
    }
    for (w, name) in PROOFS.iter().enumerate() {
        let two = w == 10 || w == 13 || w == 12;
        scen!(v, "C29", format!("C29/{}/n=4", name), "4 elements, up to two special branches", depth = 2, paths = 30, replays = 2, proof_sizes(w, 4, if two { 4 } else { 1 }, false));
        for n in [8usize, 16, 32] {
            scen!(v, "C29", format!("C29/{}/n={}", name, n), format!("{} elements, generic values", n), depth = 0, paths = 1, replays = 1, proof_sizes(w, n, if two { 4 } else { 1 }, true));
        }
        for n in [64usize, 128] {
            scen!(deep v, "C29", format!("C29/{}/n={}", name, n), format!("{} elements, generic values", n), depth = 0, paths = 1, replays = 1, proof_sizes(w, n, if two { 8 } else { 1 }, true));
        }
    }
    for (nx, ny) in [(1usize, 1usize), (2, 1), (1, 2), (2, 2), (4, 2), (2, 3), (4, 4), (8, 3)] {
        for t in [false, true] {
            let tag = if t { "transparent" } else { "srs" };
            scen!(v, "C30", format!("C30/{}/{}x{}", tag, nx, ny), format!("{} rows of {}, every coefficient", nx, ny), depth = 1, paths = 20, replays = 2, poly::committed(nx, ny, 0, t));
            for shape in 1..6u8 {
                scen!(v, "C30", format!("C30/{}/{}x{}/shape={}", tag, nx, ny, shape), format!("{} rows of {}: fewer rows, short rows, one coefficient, zero", nx, ny), depth = 1, paths = 20, replays = 2, poly::committed(nx, ny, shape, t));
            }
            scen!(v, "C30", format!("C30/{}/{}x{}/linear", tag, nx, ny), format!("{} rows of {}, generic coefficients", nx, ny), depth = 0, paths = 1, replays = 1, poly::linear(nx, ny, t));
        }
    }
    for (nx, ny) in [(8usize, 8usize), (16, 5), (5, 16), (16, 16), (33, 4), (2, 64)] {
        for t in [false, true] {
            let tag = if t { "transparent" } else { "srs" };
            scen!(v, "C30", format!("C30/{}/{}x{}", tag, nx, ny), format!("{} rows of {}, every coefficient", nx, ny), depth = 1, paths = 6, replays = 2, poly::committed(nx, ny, 0, t));
            scen!(v, "C30", format!("C30/{}/{}x{}/linear", tag, nx, ny), format!("{} rows of {}, generic coefficients", nx, ny), depth = 0, paths = 1, replays = 1, poly::linear(nx, ny, t));
        }
    }
    for deg in (0usize..12).chain([15, 16, 24]) {
        for t in [false, true] {
            let tag = if t { "transparent" } else { "srs" };
            scen!(v, "C30", format!("C30/{}/univariate/degree={}", tag, deg), format!("degree {}, every coefficient", deg), depth = 0, paths = 1, replays = 1, poly::committed_uni(deg, t));
        }
    }
}
