//! C17-C19: sampling, freshness of encryptions, PVW.
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::p_ring::any_modulus;
use crate::run::*;
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use onion_pir::vp_hooks::*;
use rand::{CryptoRng, Error, Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha20Rng;
use std::collections::HashSet;

/// Statistical thresholds are 7 standard deviations (and chi-square at the
/// same tail): a sound sampler fails one of a billion comparisons.
const SIGMAS: f64 = 7.0;

fn chi2_limit(df: f64) -> f64 {
    // Wilson-Hilferty at 7 sigma
    let t = 1.0 - 2.0 / (9.0 * df) + SIGMAS * (2.0 / (9.0 * df)).sqrt();
    df * t * t * t + 10.0
}
fn cbd_pmf(v: usize) -> Vec<f64> {
    // difference of two Binomial(2v, 1/2) = Binomial(4v, 1/2) - 2v
    let n = 4 * v;
    let mut c = vec![0f64; n + 1];
    c[0] = 1.0;
    for i in 1..=n {
        for k in (1..=i).rev() {
            c[k] += c[k - 1];
        }
    }
    let tot = 2f64.powi(n as i32);
    c.iter().map(|x| x / tot).collect()
}
/// Judges samples of a centred binomial of variance `v`.
pub fn judge_cbd(x: &[i64], v: usize, what: &str) -> R {
    let n = x.len() as f64;
    let b = 2 * v as i64;
    for s in x {
        ensure!(s.abs() <= b, "{}: sample {} outside [-{}, {}]", what, s, b, b);
    }
    if x.len() < 2000 {
        return Ok(());
    }
    let pmf = cbd_pmf(v);
    let mean = x.iter().sum::<i64>() as f64 / n;
    ensure!(mean.abs() <= SIGMAS * (v as f64 / n).sqrt(), "{}: mean {} over {} samples of variance {}", what, mean, n, v);
    let m2 = x.iter().map(|s| (s * s) as f64).sum::<f64>() / n;
    let m4: f64 = pmf.iter().enumerate().map(|(i, p)| p * ((i as f64) - b as f64).powi(4)).sum();
    let sd = ((m4 - (v * v) as f64) / n).sqrt();
    ensure!((m2 - v as f64).abs() <= SIGMAS * sd, "{}: variance {} over {} samples, expected {}", what, m2, n, v);
    // chi-square against the exact probabilities
    let mut obs = vec![0f64; pmf.len()];
    for s in x {
        obs[(s + b) as usize] += 1.0;
    }
    let (mut chi, mut df, mut po, mut pp) = (0.0, -1.0, 0.0, 0.0);
    for (o, p) in obs.iter().zip(&pmf) {
        po += o;
        pp += p * n;
        if pp >= 10.0 {
            chi += (po - pp) * (po - pp) / pp;
            df += 1.0;
            po = 0.0;
            pp = 0.0;
        }
    }
    ensure!(chi <= chi2_limit(df), "{}: chi-square {:.1} with {} degrees of freedom", what, chi, df);
    Ok(())
}
/// No linear dependence, and none between magnitudes, at short distances.
fn judge_lags(x: &[i64], v: usize, lags: &[usize], what: &str) -> R {
    let pmf = cbd_pmf(v);
    let m4: f64 = pmf.iter().enumerate().map(|(i, p)| p * ((i as f64) - 2.0 * v as f64).powi(4)).sum();
    let var2 = m4 - (v * v) as f64;
    for &l in lags {
        if x.len() <= l + 1000 {
            continue;
        }
        let n = (x.len() - l) as f64;
        let (mut c, mut c2) = (0.0, 0.0);
        for i in 0..x.len() - l {
            let (a, b) = (x[i] as f64, x[i + l] as f64);
            c += a * b;
            c2 += (a * a - v as f64) * (b * b - v as f64);
        }
        let r = c / (n * v as f64);
        let r2 = if var2 > 0.0 { c2 / (n * var2) } else { 0.0 };
        ensure!(r.abs() <= SIGMAS / n.sqrt(), "{}: correlation {:.4} at distance {}", what, r, l);
        ensure!(r2.abs() <= 3.0 * SIGMAS / n.sqrt(), "{}: correlation of squares {:.4} at distance {}", what, r2, l);
    }
    Ok(())
}
fn judge_uniform(x: &[u64], p: u64, what: &str) -> R {
    for v in x {
        ensure!(*v < p, "{}: {} is not below {}", what, v, p);
    }
    let n = x.len() as f64;
    // by size
    let k = (x.len() as u64 / 50).clamp(2, 64).min(p) as usize;
    let mut obs = vec![0f64; k];
    for v in x {
        obs[((*v as u128 * k as u128) / p as u128) as usize] += 1.0;
    }
    let mut chi = 0.0;
    for (i, o) in obs.iter().enumerate() {
        // exact count of residues in the bucket
        let lo = (i as u128 * p as u128 + k as u128 - 1) / k as u128;
        let hi = ((i as u128 + 1) * p as u128 + k as u128 - 1) / k as u128;
        let e = n * ((hi - lo) as f64 / p as f64);
        chi += (o - e) * (o - e) / e;
    }
    ensure!(chi <= chi2_limit(k as f64 - 1.0), "{}: chi-square {:.1} over {} size buckets mod {}", what, chi, k, p);
    // by residue class of a small divisor (low bits)
    for d in [2u64, 3, 8, 16] {
        if p < 64 * d {
            continue;
        }
        let mut obs = vec![0f64; d as usize];
        for v in x {
            obs[(*v % d) as usize] += 1.0;
        }
        let mut chi = 0.0;
        for (i, o) in obs.iter().enumerate() {
            let cnt = (p - i as u64 + d - 1) / d;
            let e = n * (cnt as f64 / p as f64);
            chi += (o - e) * (o - e) / e;
        }
        ensure!(chi <= chi2_limit(d as f64 - 1.0), "{}: chi-square {:.1} over residues mod {} (modulus {})", what, chi, d, p);
    }
    Ok(())
}
fn judge_uncorrelated(a: &[u64], p: u64, b: &[u64], q: u64, what: &str) -> R {
    let n = a.len().min(b.len()) as f64;
    // standardised: mean (p-1)/2, variance (p^2-1)/12
    let f = |x: u64, p: u64| {
        let pf = p as f64;
        (x as f64 / pf - (1.0 - 1.0 / pf) / 2.0) / ((1.0 - 1.0 / (pf * pf)) / 12.0).sqrt()
    };
    let c: f64 = a.iter().zip(b).map(|(x, y)| f(*x, p) * f(*y, q)).sum::<f64>() / n;
    ensure!(c.abs() <= SIGMAS / n.sqrt(), "{}: correlation {:.4}", what, c);
    Ok(())
}

/// Counts what a sampler draws.
struct Meter(ChaCha20Rng, u64);
impl RngCore for Meter {
    fn next_u32(&mut self) -> u32 {
        self.1 += 32;
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.1 += 64;
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += 8 * d.len() as u64;
        self.0.fill_bytes(d)
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Meter {}
fn meter(cx: &mut Cx) -> Meter {
    Meter(ChaCha20Rng::from_seed(seed32(&mut cx.rng)), 0)
}

// ---------------------------------------------------------------- C17

fn cbd_case(cx: &mut Cx) -> R {
    let v = 1 + (cx.case as usize / 8) % 16;
    let total = if cx.tiny() { 300 } else { 60000 };
    let mut m = meter(cx);
    // one long vector, or many short ones
    let len = *pick(&mut cx.rng, &[1usize, 2, 3, 5, 8, 17, 64, 1000, total]);
    let mut x = Vec::with_capacity(total);
    while x.len() < total {
        let s = sample_vec_cbd(len, v, &mut m);
        ensure!(s.len() == len, "{} samples for {}", s.len(), len);
        x.extend(s);
    }
    let what = format!("variance {} vectors of {}", v, len);
    judge_cbd(&x, v, &what)?;
    let lags: Vec<usize> = (1..=40).chain([len, len + 1, 64, 128]).collect();
    judge_lags(&x, v, &lags, &what)?;
    // each position of the vector by itself
    if len <= 64 && !cx.tiny() {
        for i in [0, len / 2, len - 1] {
            let y: Vec<i64> = x.iter().skip(i).step_by(len).cloned().collect();
            judge_cbd(&y, v, &format!("{}, position {}", what, i))?;
        }
    }
    // no sampler can use less than the entropy of its output
    if !cx.tiny() {
        let h: f64 = cbd_pmf(v).iter().filter(|p| **p > 0.0).map(|p| -p * p.log2()).sum();
        ensure!(m.1 as f64 >= 0.98 * h * x.len() as f64, "{}: {} random bits for {} samples of {:.2} bits", what, m.1, x.len(), h);
    }
    cx.eval(true, &(v, len, hash(&x)));
    cx.event(&format!("variance {}", v));
    cx.events("binomial samples", x.len() as u64);
    cx.sample(|| format!("{}: {:?}", what, &x[..12.min(x.len())]));
    Ok(())
}
fn uniform_case(cx: &mut Cx) -> R {
    let p = match cx.rng.gen_range(0..4) {
        // where reducing a random word would be most biased
        0 => ((1u128 << 65) / (2 * cx.rng.gen_range(4..40u128) + 1)) as u64,
        1 => cx.rng.gen_range(2..100),
        2 => ((1u128 << 33) / (2 * cx.rng.gen_range(1..40u128) + 1)) as u64,
        _ => any_modulus(&mut cx.rng),
    }
    .min((1 << 62) - 1);
    let n = if cx.tiny() { 100 } else { 40000 };
    let mut m = meter(cx);
    let md = Modulus::new(p);
    let x = if cx.rng.gen() {
        md.random_vec(n, &mut m)
    } else {
        (0..n).map(|_| md.random(&mut m)).collect()
    };
    ensure!(x.len() == n, "{} residues for {}", x.len(), n);
    if !cx.tiny() {
        judge_uniform(&x, p, "uniform residues")?;
        for l in [1, 2, 3] {
            judge_uncorrelated(&x[l..], p, &x, p, &format!("residues mod {} at distance {}", p, l))?;
        }
        if p > 1 << 40 {
            let s: HashSet<_> = x.iter().collect();
            ensure!(s.len() >= n - 4, "{} distinct residues of {} mod {}", s.len(), n, p);
        }
    }
    cx.eval(p > 2, &(p, hash(&x)));
    cx.events("uniform residues", n as u64);
    Ok(())
}
fn poly_case(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let lv = level(cx, &c, 1);
    let ctx = c.ctx(lv);
    let q = c.ql(lv).to_vec();
    let reps = if cx.tiny() { 1 } else { 12000 / c.n };
    let mut m = meter(cx);
    let mut uni: Vec<Vec<u64>> = vec![vec![]; q.len()];
    let mut seeded: Vec<Vec<u64>> = vec![vec![]; q.len()];
    let mut small = vec![];
    for i in 0..reps {
        let rep = if i % 2 == 0 { Representation::Ntt } else { Representation::PowerBasis };
        let p = Poly::random(&ctx, &mut m, rep.clone());
        canonical(&p)?;
        ensure!(p.representation == rep && p.context == ctx, "random polynomial in the wrong ring or form");
        for (u, r) in uni.iter_mut().zip(raw(&p)) {
            u.extend(r);
        }
        let s = seed32(&mut cx.rng);
        let a = Poly::random_from_seed(&ctx, rep.clone(), s);
        canonical(&a)?;
        ensure!(a.representation == rep && a.context == ctx, "seeded polynomial in the wrong ring or form");
        ensure!(Poly::random_from_seed(&ctx, rep.clone(), s) == a, "the same seed expands differently");
        let mut s2 = s;
        let bit = cx.rng.gen_range(0..256);
        s2[bit / 8] ^= 1 << (bit % 8);
        let b = Poly::random_from_seed(&ctx, rep.clone(), s2);
        ensure!(a != b, "seeds that differ in bit {} expand alike", bit);
        for (u, r) in seeded.iter_mut().zip(raw(&a)) {
            u.extend(r);
        }
        let e = Poly::random_small(&ctx, rep.clone(), c.v, &mut m);
        ensure!(e.representation == rep, "small polynomial in the wrong form");
        let crt = Crt::new(&q);
        for x in lift_rows(&rows(&e)?, &crt) {
            let x = crt.center(&x);
            let x = x.to_i64().unwrap_or(i64::MAX);
            small.push(x);
        }
    }
    judge_cbd(&small, c.v, "small polynomial")?;
    judge_lags(&small, c.v, &[1, 2, 3, c.n - 1, c.n], "small polynomials")?;
    if !cx.tiny() {
        for (i, p) in q.iter().enumerate() {
            judge_uniform(&uni[i], *p, "random polynomial")?;
            judge_uniform(&seeded[i], *p, "seeded polynomial")?;
            judge_uncorrelated(&uni[i], *p, &seeded[i], *p, "random against seeded")?;
            for j in i + 1..q.len() {
                judge_uncorrelated(&uni[i], *p, &uni[j], q[j], "rows of random polynomials")?;
                judge_uncorrelated(&seeded[i], *p, &seeded[j], q[j], "rows of seeded polynomials")?;
            }
        }
    }
    cx.eval(true, &(c.desc(), lv, hash(&small)));
    cx.events("polynomials", 3 * reps as u64);
    cx.event(&format!("variance {} polynomial", c.v));
    Ok(())
}
fn key_case(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let reps = if cx.tiny() { 2 } else { 16000 / c.n };
    let mut x = vec![];
    let mut seen = HashSet::new();
    for _ in 0..reps {
        let sk = SecretKey::generate(&c.params);
        ensure!(sk.coeffs.len() == c.n, "{} key coefficients", sk.coeffs.len());
        if c.n >= 64 {
            ensure!(seen.insert(sk.coeffs.to_vec()), "a secret key repeats");
        }
        x.extend(sk.coeffs.iter());
    }
    judge_cbd(&x, c.v, "secret key")?;
    judge_lags(&x, c.v, &[1, 2, c.n - 1, c.n, 2 * c.n], "secret keys")?;
    cx.eval(true, &(c.desc(), hash(&x)));
    cx.events("secret keys", reps as u64);
    Ok(())
}
pub fn c17() -> Prop {
    Prop {
        id: "C17",
        quick: 256,
        thorough: 5000,
        rule: "case = a stream of samples (10^4 to 6*10^4) for one variance 1..16 and vector length, one modulus (including those where naive reduction is most biased), one ring, or one parameter set's secret keys. Non-trivial: all. Oracle: support bounds, exact-distribution chi-square, moments, correlations at short distances and between rows (7 sigma), entropy drawn not below entropy delivered, seed expansion deterministic and seed-sensitive.",
        kinds: vec![Kind { name: "binomial", weight: 4, f: cbd_case }, Kind { name: "uniform", weight: 2, f: uniform_case }, Kind { name: "polynomial", weight: 1, f: poly_case }, Kind { name: "key", weight: 1, f: key_case }],
    }
}

// ---------------------------------------------------------------- C18

/// noise = phase - scaled message, as small integers
fn noise_of(c: &Cfg, lv: usize, parts: &[Poly], s: &[i64], want: &[num_bigint::BigUint]) -> Result<Vec<i64>, String> {
    let q = c.big(lv);
    Ok(phase(parts, s)?
        .iter()
        .zip(want)
        .map(|(p, w)| center(&modp(&(BigInt::from(p.clone()) - BigInt::from(w.clone())), &q), &q).to_i64().unwrap_or(i64::MAX))
        .collect())
}
fn fresh_bfv(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let lv = level(cx, &c, 1);
    let q = c.ql(lv).to_vec();
    let sk = secret(cx, &c);
    let m = vals(&mut cx.rng, c.n, c.t);
    let pt = Plaintext::new(&c.params, &m, lv, Encoding::Poly);
    let target = bigs(&pt.to_poly())?;
    let reps = if cx.tiny() { 2 } else { (12000 / c.n).max(100) };
    let mut masks = HashSet::new();
    let mut bodies = HashSet::new();
    let mut noise = vec![];
    let mut uni: Vec<Vec<u64>> = vec![vec![]; q.len()];
    for _ in 0..reps {
        let ct = sk.encrypt(&pt);
        ensure!(ct.cts.len() == 2, "{} components", ct.cts.len());
        ensure!(masks.insert(hash(&raw(&ct.cts[1]))), "two encryptions share their mask");
        ensure!(bodies.insert(hash(&raw(&ct.cts[0]))), "two encryptions share their body");
        for (u, r) in uni.iter_mut().zip(raw(&ct.cts[1])) {
            u.extend(r);
        }
        noise.extend(noise_of(&c, lv, &ct.cts, &sk.coeffs, &target)?);
    }
    judge_cbd(&noise, c.v, "encryption noise")?;
    judge_lags(&noise, c.v, &[1, 2, 3, c.n - 1, c.n, 2 * c.n], "encryption noise")?;
    if !cx.tiny() {
        for (i, p) in q.iter().enumerate() {
            judge_uniform(&uni[i], *p, "ciphertext mask")?;
            judge_uncorrelated(&uni[i][c.n..], *p, &uni[i], *p, "masks of successive encryptions")?;
            for j in i + 1..q.len() {
                judge_uncorrelated(&uni[i], *p, &uni[j], q[j], "mask residues")?;
            }
        }
    }
    cx.eval(true, &(c.desc(), lv, hash(&noise)));
    cx.events("encryptions", reps as u64);
    cx.event(&format!("level {} of {}", lv, c.levels()));
    cx.sample(|| format!("{} level={} {} encryptions of one message, first noise {:?}", c.desc(), lv, reps, &noise[..8]));
    Ok(())
}
/// Every row of every key carries its own mask and its own noise.
fn fresh_keys(cx: &mut Cx) -> R {
    let c = cfg(cx, &MEDIUM);
    let lv = level(cx, &c, 2);
    let sk = secret(cx, &c);
    let s = &sk.coeffs;
    let mut masks = HashSet::new();
    let mut noise = vec![];
    let mut n_rows = 0u64;
    let crt = Crt::new(c.ql(lv));
    let q = crt.prod.clone();
    let si: Vec<BigInt> = s.iter().map(|x| BigInt::from(*x)).collect();
    let mut rows_of = |k: &Ksk, from: &[BigInt], what: &str| -> R {
        for i in 0..k.c0.len() {
            ensure!(masks.insert(hash(&raw(&k.c1[i]))), "{}: row {} repeats a mask", what, i);
            let mut r = vec![0u64; crt.q.len()];
            r[i] = 1;
            let g = BigInt::from(crt.lift(&r));
            let want: Vec<_> = from.iter().map(|f| modp(&(f * &g), &q)).collect();
            noise.extend(noise_of(&c, lv, &[k.c0[i].clone(), k.c1[i].clone()], s, &want)?);
            n_rows += 1;
        }
        Ok(())
    };
    let reps = if cx.tiny() { 1 } else { 1 + 4000 / (c.n * 6 * crt.q.len()) };
    let one: Vec<BigInt> = (0..c.n).map(|i| BigInt::from((i == 0) as u64)).collect();
    let s2 = neg_mul_big(&si, &si);
    for _ in 0..reps {
        let mut p1 = Poly::try_from_vec_u64(&c.ctx(lv), &[1]);
        p1.change_representation(Representation::Ntt);
        let a = RgswCt::encrypt_poly(&sk, &p1);
        rows_of(&a.ksk0, &si, "RGSW")?;
        rows_of(&a.ksk1, &one, "RGSW")?;
        let b = RgswCt::encrypt(&sk, &Plaintext::new(&c.params, &vec![1], lv, Encoding::Poly));
        rows_of(&b.ksk0, &si, "RGSW")?;
        rows_of(&b.ksk1, &one, "RGSW")?;
        rows_of(relinearization_key_ksk(&RelinearizationKey::new(&sk, lv)), &s2, "relinearisation key")?;
        let g = GaliosKey::new(&sk, &Substitution::new(&c.ctx(lv), 1), lv);
        rows_of(galois_key_ksk(&g), &si, "Galois key")?;
    }
    judge_cbd(&noise, c.v, "key noise")?;
    judge_lags(&noise, c.v, &[1, 2, c.n - 1, c.n, 2 * c.n, c.n * crt.q.len()], "key noise")?;
    ensure!(noise.iter().any(|x| *x != 0), "keys carry no noise");
    cx.eval(true, &(c.desc(), lv, hash(&noise)));
    cx.events("key rows", n_rows);
    Ok(())
}
/// Whole evaluation keys: all masks distinct.
fn fresh_eval(cx: &mut Cx) -> R {
    let c = cfg(cx, &MEDIUM);
    let sk = secret(cx, &c);
    let mut masks = HashSet::new();
    let mut n = 0u64;
    for _ in 0..2 {
        let e = VpEvaluation::build(&sk, &c.params);
        let mut add = |k: &Ksk| -> R {
            for r in &k.c1 {
                ensure!(masks.insert(hash(&raw(r))), "an evaluation key repeats a mask");
                n += 1;
            }
            Ok(())
        };
        for (_, g) in e.galois_keys() {
            add(galois_key_ksk(g))?;
        }
        add(&e.sk_rgsw().ksk0)?;
        add(&e.sk_rgsw().ksk1)?;
    }
    cx.eval(true, &(c.desc(), hash(&sk.coeffs.to_vec())));
    cx.events("evaluation key rows", n);
    Ok(())
}
/// Birthday test: masks and noises of very many encryptions never repeat, so
/// they come from far more than 2^32 possibilities.
fn birthday(cx: &mut Cx) -> R {
    let n = if cx.tiny() { 8 } else { 64 };
    let q = ntt_prime(&mut cx.rng, 50, 2 * n as u64, &[]).ok_or("no prime")?;
    let t = 257;
    let c = Cfg::new(n, t, vec![q], 10);
    let sk = SecretKey::generate(&c.params);
    let zero = Plaintext::new(&c.params, &vec![0; n], 0, Encoding::Poly);
    let k = if cx.tiny() { 4 } else if cx.tier == Tier::Thorough { 1 << 19 } else { 1 << 17 };
    let mut masks = HashSet::with_capacity(k);
    let mut noises = HashSet::with_capacity(k);
    let mut s = Poly::try_from_vec_i64(&c.ctx(0), &sk.coeffs);
    s.change_representation(Representation::Ntt);
    for _ in 0..k {
        let ct = sk.encrypt(&zero);
        ensure!(masks.insert(hash(&ct.cts[1].coefficients().row(0).to_vec())), "a mask repeats within {} encryptions", k);
        let e = &ct.cts[0] + &(&ct.cts[1] * &s);
        ensure!(noises.insert(hash(&e.coefficients().row(0).to_vec())), "a noise polynomial repeats within {} encryptions", k);
    }
    cx.eval(true, &(q, k, cx.case));
    cx.events("birthday encryptions", k as u64);
    Ok(())
}
pub fn c18() -> Prop {
    Prop {
        id: "C18",
        quick: 96,
        thorough: 1600,
        rule: "case = parameter set x level x key x message with 10^2-10^3 repeated encryptions, or all rows of RGSW, relinearisation, Galois and evaluation keys, or a birthday run of 2^17 (thorough 2^19) encryptions. Non-trivial: all. Oracle: masks pairwise distinct and uniform, noise exactly centred binomial and uncorrelated between coefficients, rows and encryptions (7 sigma).",
        kinds: vec![Kind { name: "encryptions", weight: 20, f: fresh_bfv }, Kind { name: "keys", weight: 20, f: fresh_keys }, Kind { name: "evaluation", weight: 6, f: fresh_eval }, Kind { name: "birthday", weight: 2, f: birthday }],
    }
}

// ---------------------------------------------------------------- C19

fn pvw_params(cx: &mut Cx) -> PvwParams {
    loop {
        let variance = cx.rng.gen_range(1..=16usize);
        let m = if cx.tiny() { 8 } else { cx.rng.gen_range(1..=160usize) };
        let worst = (2 * variance * m) as u64;
        let q = match cx.rng.gen_range(0..4) {
            // just enough room for the worst case
            0 => 4 * worst + 16 + cx.rng.gen_range(0..16),
            1 => 65537,
            2 => cx.rng.gen_range(100..1u64 << 62),
            _ => any_modulus(&mut cx.rng),
        };
        if q < (1 << 62) && worst + 3 <= q / 4 {
            let n = if cx.tiny() { 3 } else { cx.rng.gen_range(1..=40) };
            return PvwParams { n, ell: cx.rng.gen_range(1..=8), m, q, variance };
        }
    }
}
fn pvw_roundtrip(cx: &mut Cx) -> R {
    let p = pvw_params(cx);
    pvw_in(cx, &p, if cx.tiny() { 1 } else { 12 })
}
fn pvw_default(cx: &mut Cx) -> R {
    let p = if cx.tiny() { pvw_params(cx) } else { PvwParams::default() };
    pvw_in(cx, &p, 3)
}
fn pvw_in(cx: &mut Cx, p: &PvwParams, reps: usize) -> R {
    let sk = PvwSk::gen_sk(p);
    let pk = sk.gen_pk(p);
    let mut seen = HashSet::new();
    for i in 0..reps {
        let msg: Vec<u64> = match i {
            0 => vec![0; p.ell],
            1 => vec![1; p.ell],
            _ => (0..p.ell).map(|_| cx.rng.gen_range(0..2)).collect(),
        };
        let ct = pk.encrypt(p, msg.clone());
        ensure!(ct.a.len() == p.n && ct.b.len() == p.ell, "ciphertext of {}+{} words", ct.a.len(), ct.b.len());
        ensure!(ct.a.iter().chain(ct.b.iter()).all(|x| *x < p.q), "ciphertext word not reduced mod {}", p.q);
        let got = sk.decrypt(p, &ct);
        ensure!(got == msg, "{:?} decrypts to {:?} under {:?}", msg, got, p);
        if p.m >= 100 && p.q > 1 << 16 && p.n >= 8 {
            ensure!(seen.insert((ct.a.clone(), ct.b.clone())), "two encryptions are equal");
        }
        cx.eval(msg.contains(&1), &(format!("{:?}", p), msg, hash(&ct.a)));
        cx.event("encryptions");
    }
    cx.sample(|| format!("{:?}", p));
    Ok(())
}
/// With a zero mask the decoder sees b itself: its decision for every value.
fn pvw_rounding(cx: &mut Cx) -> R {
    let mut p = pvw_params(cx);
    let all = cx.rng.gen::<bool>();
    if all {
        p.q = cx.rng.gen_range(17..600);
        p.m = 1;
        p.n = 1 + p.n % 4;
    }
    let sk = PvwSk::gen_sk(&p);
    let bs: Vec<u64> = if all {
        (0..p.q).collect()
    } else {
        let mut v = vec![];
        for base in [0, p.q / 4, p.q / 2, p.q / 4 * 3, p.q - 1] {
            for d in 0..8 {
                v.push((base + d) % p.q);
                v.push((base + p.q - d) % p.q);
            }
        }
        v.extend((0..100).map(|_| cx.rng.gen_range(0..p.q)));
        v
    };
    for chunk in bs.chunks(p.ell) {
        let mut b = chunk.to_vec();
        b.resize(p.ell, 0);
        let got = sk.decrypt(&p, &PvwCiphertext { a: vec![0; p.n], b: b.clone() });
        ensure!(got.len() == p.ell, "{} bits", got.len());
        for (x, g) in b.iter().zip(&got) {
            ensure!(*g <= 1, "decoded symbol {}", g);
            let d0 = (*x).min(p.q - x);
            let d1 = (p.q / 2).abs_diff(*x);
            if d0 + 3 <= p.q / 4 {
                ensure!(*g == 0, "{} mod {} decodes to {}", x, p.q, g);
            } else if d1 + 3 <= p.q / 4 {
                ensure!(*g == 1, "{} mod {} decodes to {}", x, p.q, g);
            }
            cx.eval(*x != 0, &(p.q, *x));
        }
    }
    cx.events("rounding decisions", bs.len() as u64);
    Ok(())
}
/// Measures the noise of encryptions through the decryption oracle: sliding b
/// until the decoded bit flips locates <a, s> to within rounding.
fn pvw_noise(cx: &mut Cx) -> R {
    let p = PvwParams { n: 12, ell: 2, m: if cx.tiny() { 6 } else { 100 }, q: 1_000_003 + 2 * cx.rng.gen_range(0..1000u64), variance: cx.rng.gen_range(4..=16) };
    let sk = PvwSk::gen_sk(&p);
    let pk = sk.gen_pk(&p);
    let bit = |a: &Vec<u64>, b: u64| sk.decrypt(&p, &PvwCiphertext { a: a.clone(), b: vec![b; p.ell] });
    let reps = if cx.tiny() { 1 } else { 60 };
    let mut xs = vec![];
    for _ in 0..reps {
        let ct = pk.encrypt(&p, vec![0; p.ell]);
        for l in 0..p.ell {
            // b = <a,s> + e; b' = b + k flips 0 -> 1 near v = q/4
            let f = |k: u64| bit(&ct.a, (ct.b[l] + k) % p.q)[l] == 1;
            ensure!(!f(0) && f(p.q / 2), "an encryption of 0 is not decoded by its distance to 0");
            let (mut lo, mut hi) = (0, p.q / 2);
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                if f(mid) {
                    hi = mid;
                } else {
                    lo = mid;
                }
            }
            let flip = (p.q / 2 - p.q / 4) as i64;
            xs.push(flip - hi as i64);
        }
    }
    let bound = (2 * p.variance * p.m) as i64 + 2;
    ensure!(xs.iter().all(|x| x.abs() <= bound), "noise beyond {}: {:?}", bound, xs);
    if !cx.tiny() {
        let n = xs.len() as f64;
        let want = (p.variance * p.m) as f64 / 2.0;
        let m2 = xs.iter().map(|x| (x * x) as f64).sum::<f64>() / n;
        // errors are shared between encryptions of one key: allow a wide band
        ensure!(m2 > want / 6.0 && m2 < want * 6.0, "noise power {:.1}, expected about {:.1} ({:?})", m2, want, p);
        let d: HashSet<_> = xs.iter().collect();
        ensure!(d.len() > 10, "noise takes only {} values", d.len());
    }
    cx.eval(true, &(format!("{:?}", p), hash(&xs)));
    cx.events("noise measurements", xs.len() as u64);
    Ok(())
}
/// Public-key masks and fresh ciphertexts look uniform and do not repeat.
fn pvw_fresh(cx: &mut Cx) -> R {
    let p = PvwParams { n: 16, ell: 3, m: if cx.tiny() { 8 } else { 128 }, q: 65537, variance: 2 };
    let sk = PvwSk::gen_sk(&p);
    let pk = sk.gen_pk(&p);
    let reps = if cx.tiny() { 2 } else { 1500 };
    let mut seen = HashSet::new();
    let mut a = vec![];
    let mut b = vec![];
    for _ in 0..reps {
        let ct = pk.encrypt(&p, vec![1, 0, 1]);
        ensure!(seen.insert(ct.a.clone()), "two encryptions share their mask");
        a.extend(ct.a);
        b.extend(ct.b);
    }
    if !cx.tiny() {
        judge_uniform(&a, p.q, "PVW mask")?;
        judge_uniform(&b, p.q, "PVW body")?;
    }
    cx.eval(true, &(hash(&a),));
    cx.events("encryptions", reps as u64);
    Ok(())
}
/// The noise, masks and secret of generated keys, read off exactly.
fn pvw_keys(cx: &mut Cx) -> R {
    let q = match cx.rng.gen_range(0..3) {
        0 => 65537,
        1 => cx.rng.gen_range(1000..1u64 << 62),
        _ => any_modulus(&mut cx.rng).max(1000).min((1 << 62) - 1),
    };
    let tiny = cx.tiny();
    let p = PvwParams {
        n: if tiny { 3 } else { cx.rng.gen_range(1..=24) },
        ell: cx.rng.gen_range(1..=8),
        m: if tiny { 6 } else { cx.rng.gen_range(40..=400) },
        q,
        variance: cx.rng.gen_range(1..=16),
    };
    let keys = if tiny { 1 } else { 3 + 6000 / (p.m * p.ell) };
    let (mut s, mut a, mut e) = (vec![], vec![], vec![]);
    let mut cols = vec![];
    for _ in 0..keys {
        let sk = PvwSk::gen_sk(&p);
        let pk = sk.gen_pk(&p);
        let (sr, pr) = (pvw_sk_rows(&sk), pvw_pk_rows(&pk));
        ensure!(sr.len() == p.ell && sr.iter().all(|r| r.len() == p.n), "secret of the wrong shape under {:?}", p);
        ensure!(pr.len() == p.m && pr.iter().all(|r| r.a.len() == p.n && r.b.len() == p.ell), "public key of the wrong shape under {:?}", p);
        let first = e.len();
        for r in pr {
            for (l, s) in sr.iter().enumerate() {
                let dot = s.iter().zip(&r.a).fold(0, |acc, (x, y)| addmod(acc, mulmod(*x, *y, q), q));
                let d = submod(r.b[l], dot, q);
                e.push(if d > q / 2 { -((q - d) as i64) } else { d as i64 });
            }
            a.extend(&r.a);
        }
        // the same noise slot by slot
        for l in 0..p.ell {
            cols.extend(e[first..].iter().skip(l).step_by(p.ell));
        }
        for r in sr {
            s.extend(r);
        }
    }
    judge_cbd(&e, p.variance, &format!("noise of PVW keys under {:?}", p))?;
    judge_lags(&e, p.variance, &[1, 2, 3, p.ell, 2 * p.ell, p.ell + 1, p.m * p.ell], &format!("noise of PVW keys under {:?}", p))?;
    judge_lags(&cols, p.variance, &[1, 2, p.m, 2 * p.m, p.m * p.ell], &format!("noise of PVW keys under {:?}, slot by slot", p))?;
    if !tiny {
        judge_uniform(&a, q, "masks of PVW keys")?;
        if s.len() >= 200 {
            judge_uniform(&s, q, "PVW secrets")?;
        }
        for lag in [1, p.n, p.m * p.n] {
            if a.len() > lag + 1000 {
                judge_uncorrelated(&a, q, &a[lag..], q, "masks of PVW keys")?;
            }
        }
    }
    cx.eval(true, &(format!("{:?}", p), hash(&e)));
    cx.events("key noise terms read", e.len() as u64);
    cx.sample(|| format!("{:?} x {} keys", p, keys));
    Ok(())
}
/// Under a public key of unit masks a ciphertext shows which rows it sums.
fn pvw_subset(cx: &mut Cx) -> R {
    let q = any_modulus(&mut cx.rng).max(1000).min((1 << 62) - 1);
    let m = if cx.tiny() { 6 } else { cx.rng.gen_range(2..=300usize) };
    let p = PvwParams { n: m, ell: cx.rng.gen_range(1..=8), m, q, variance: 1 };
    let bs: Vec<Vec<u64>> = (0..m).map(|_| (0..p.ell).map(|_| val(&mut cx.rng, q)).collect()).collect();
    let pk = pvw_pk_from_rows((0..m).map(|i| PvwCiphertext { a: (0..m).map(|j| (i == j) as u64).collect(), b: bs[i].clone() }).collect());
    let reps = if cx.tiny() { 2 } else { 40 + 20000 / m };
    let mut bits: Vec<i8> = vec![];
    let mut count = vec![0f64; m];
    for _ in 0..reps {
        let msg: Vec<u64> = (0..p.ell).map(|_| cx.rng.gen_range(0..2)).collect();
        let ct = pk.encrypt(&p, msg.clone());
        ensure!(ct.a.len() == m && ct.a.iter().all(|x| *x < 2), "an encryption counts a row of the public key other than once: {:?}", ct.a);
        for l in 0..p.ell {
            let w = ct.a.iter().zip(&bs).fold(mulmod(q / 2, msg[l], q), |acc, (x, b)| if *x == 1 { addmod(acc, b[l], q) } else { acc });
            ensure!(ct.b[l] == w, "slot {}: body is {}, the selected rows and the message sum to {}; {:?}", l, ct.b[l], w, p);
        }
        for (c, x) in count.iter_mut().zip(&ct.a) {
            *c += *x as f64;
        }
        bits.extend(ct.a.iter().map(|x| 2 * *x as i8 - 1));
    }
    let r = reps as f64;
    for (i, c) in count.iter().enumerate() {
        ensure!((c - r / 2.0).abs() <= SIGMAS * (r / 4.0).sqrt() + 1.0, "row {} of {} is in {} of {} encryptions", i, m, c, reps);
    }
    for lag in 1..(2 * m + 130).min(bits.len() / 2) {
        let n = bits.len() - lag;
        let c: i64 = bits.iter().zip(&bits[lag..]).map(|(x, y)| (*x * *y) as i64).sum();
        ensure!((c as f64).abs() <= (SIGMAS + 1.0) * (n as f64).sqrt(), "selections {} apart agree by {} out of {}, {} rows", lag, c, n, m);
    }
    cx.eval(true, &(m, q, hash(&bits)));
    cx.events("selection bits read", bits.len() as u64);
    cx.sample(|| format!("{} rows, {} encryptions", m, reps));
    Ok(())
}
pub fn c19() -> Prop {
    Prop {
        id: "C19",
        quick: 600,
        thorough: 20000,
        rule: "case = parameters (n, ell, m, q, variance) whose worst-case noise fits q/4, often exactly, x keys x bit vectors; decoder decisions for every value of a small modulus; noise measured through the decryption oracle; repeated encryptions; key noise read exactly; the rows each encryption sums, read under a public key of unit masks; the default parameters. Non-trivial: message has a one. Oracle: exact bits back, nearest of 0 and q/2, noise exactly binomial and uncorrelated, selections unbiased and uncorrelated at every distance, uniformity.",
        kinds: vec![
            Kind { name: "roundtrip", weight: 100, f: pvw_roundtrip },
            Kind { name: "rounding", weight: 80, f: pvw_rounding },
            Kind { name: "noise", weight: 16, f: pvw_noise },
            Kind { name: "fresh", weight: 3, f: pvw_fresh },
            Kind { name: "default", weight: 1, f: pvw_default },
            Kind { name: "keys", weight: 8, f: pvw_keys },
            Kind { name: "subset", weight: 8, f: pvw_subset },
        ],
    }
}
