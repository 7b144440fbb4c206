//! C01-C09, C25, C26: the PIR protocol and the encryption schemes under it.
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, Zero};
use onion_pir::vp_hooks::*;
use rand::Rng;
use std::sync::Arc;

fn bu(x: u64) -> BigUint {
    BigUint::from(x)
}
pub fn s_max(c: &Cfg) -> u64 {
    2 * c.v as u64
}
/// noise added by oblivious expansion
pub fn unpack_noise(c: &Cfg) -> BigUint {
    c.ks(0) * (c.n as u64 - 1)
}

// ---------------------------------------------------------------- C01, C25

pub struct Shape {
    pub first: usize,
    pub dim: usize,
    pub k: usize,
}
impl Shape {
    pub fn rows(&self) -> usize {
        self.first * self.dim.pow(self.k as u32)
    }
}
pub fn pir_noise(c: &Cfg, s: &Shape) -> BigUint {
    let n = c.n as u64;
    let u = unpack_noise(c) + s_max(c) + 2u64;
    let upper = &u * n * s_max(c) + c.ks(0) * 2u64;
    let sq = c.q.iter().fold(BigUint::zero(), |a, b| a + *b);
    let per = (&upper + &u) * n * &sq;
    let mut e = &u * (s.first as u64) * n * c.t;
    for _ in 0..s.k {
        e = (&e + &per) * (s.dim as u64);
    }
    e
}
pub fn shape(cx: &mut Cx, c: &Cfg, max_rows: usize) -> Shape {
    loop {
        if let Some(s) = try_shape(cx, c, max_rows, 1000) {
            return s;
        }
    }
}
/// A database shape whose worst-case noise fits, if one turns up.
pub fn try_shape(cx: &mut Cx, c: &Cfg, max_rows: usize, tries: usize) -> Option<Shape> {
    for _ in 0..tries {
        let dim = *pick(&mut cx.rng, &[2usize, 2, 2, 3, 3, 4, 5, 6, 7, 8, 11, 16]);
        let k = *pick(&mut cx.rng, &[0usize, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6]);
        let room = c.n.saturating_sub(k * dim);
        if room == 0 {
            continue;
        }
        let first = match cx.rng.gen_range(0..4) {
            0 => room,
            1 => 1 + cx.rng.gen_range(0..room.min(4)),
            _ => cx.rng.gen_range(1..=room),
        };
        let s = Shape { first, dim, k };
        if s.rows() <= max_rows && pir_noise(c, &s) <= c.room(0) {
            return Some(s);
        }
    }
    None
}
pub fn dims_of(index: usize, s: &Shape) -> Vec<usize> {
    let mut d = vec![index % s.first];
    let mut r = index / s.first;
    for _ in 0..s.k {
        d.push(r % s.dim);
        r /= s.dim;
    }
    d
}
/// The client's side of the protocol, as in the repository's query example.
pub fn make_query(c: &Cfg, sk: &SecretKey, s: &Shape, index: usize) -> Vec<BfvCipherText> {
    let client = VpClient::new(s.first, s.dim);
    let enc = client.encode(dims_of(index, s), s.rows(), &c.params, sk);
    query_cts(c, sk, s, &enc)
}
pub fn query_cts(c: &Cfg, sk: &SecretKey, s: &Shape, enc: &[u64]) -> Vec<BfvCipherText> {
    let mut cts = vec![sk.encrypt(&Plaintext::new(&c.params, &enc.to_vec(), 0, Encoding::Poly))];
    let ctx = c.ctx(0);
    for gi in ctx.rns.garner.iter() {
        let mut p = Poly::try_from_vec_u64(&ctx, &enc[s.first..]);
        p.change_representation(Representation::Ntt);
        p *= gi;
        cts.push(sk.encrypt_poly(&p));
    }
    cts
}
pub fn make_db(cx: &mut Cx, c: &Cfg, rows: usize) -> Vec<Plaintext> {
    (0..rows)
        .map(|i| {
            if cx.rng.gen_range(0..3) == 0 {
                let v = vals(&mut cx.rng, c.n, c.t);
                Plaintext::new(&c.params, &v, 0, Encoding::SIMD)
            } else {
                let len = *pick(&mut cx.rng, &[1, 2, c.n / 2, c.n, c.n]);
                let mut v = vals(&mut cx.rng, len.max(1), c.t);
                // rows are distinguishable
                v[0] = i as u64 % c.t;
                Plaintext::new(&c.params, &v, 0, Encoding::Poly)
            }
        })
        .collect()
}

fn pir_case(cx: &mut Cx, c: &Cfg, max_rows: usize, queries: usize) -> R {
    let Some(s) = try_shape(cx, c, max_rows, 1000) else {
        cx.event("skipped: no noise room");
        return Ok(());
    };
    pir_shape(cx, c, &s, queries)
}
fn pir_shape(cx: &mut Cx, c: &Cfg, s: &Shape, queries: usize) -> R {
    let rows = s.rows();
    let db = make_db(cx, c, rows);
    let server = VpServer::new(s.first, s.dim, &db, &c.params);
    let sk = secret(cx, c);
    let eval = VpEvaluation::build(&sk, &c.params);
    let mut idx: Vec<usize> = if rows <= queries {
        (0..rows).collect()
    } else {
        let mut v = vec![0, rows - 1];
        for _ in 2..queries {
            v.push(cx.rng.gen_range(0..rows));
        }
        v
    };
    idx.dedup();
    for i in idx {
        let q = make_query(c, &sk, s, i);
        let ans = server.decode(q, &eval, &c.params);
        ensure!(ans.len() == 1, "{} answers for one query ({} rows)", ans.len(), rows);
        ensure!(ans[0].level == 0 && ans[0].cts.len() == 2, "answer has level {} and {} components", ans[0].level, ans[0].cts.len());
        let got = decrypt(&sk, &ans[0]);
        ensure!(
            got == db[i].values.to_vec(),
            "row {} of {} (first={} dim={} dims={}) decrypts to {:?}, row is {:?}; {}",
            i, rows, s.first, s.dim, s.k, got, db[i].values, c.desc()
        );
        let e = noise_num(&phase(&ans[0].cts, &sk.coeffs)?, &got, &c.big(0), c.t);
        ensure!(e <= pir_noise(c, s) * c.t, "answer noise {} bits exceeds the worst case {} bits", e.bits(), (pir_noise(c, s) * c.t).bits());
        cx.eval(got.iter().any(|x| *x != 0) && rows > 1, &(c.desc(), s.first, s.dim, s.k, i, got));
        cx.event(&format!("query N={} L={} dim={} dims={}", c.n, c.q.len(), s.dim, s.k));
    }
    cx.sample(|| format!("{} rows={} first={} dim={} extra_dims={}", c.desc(), rows, s.first, s.dim, s.k));
    Ok(())
}
fn pir_random(cx: &mut Cx) -> R {
    let c = cfg(cx, &PIR);
    let rows = if c.n >= 64 { 64 } else { 128 };
    let k = if c.n >= 64 { 2 } else { 3 };
    pir_case(cx, &c, rows, k)
}
/// Chains of two to eight moduli of any size and wide plaintext moduli.
fn pir_chains(cx: &mut Cx) -> R {
    static CHAINS: Class = Class { name: "pir-chains", ns: &[8, 16, 8, 32, 16], moduli: 2..=8, bits: 40..=62, tbits: 5..=38, pool: 24 };
    let c = cfg(cx, &CHAINS);
    pir_case(cx, &c, if c.n >= 32 { 48 } else { 100 }, 2)
}
/// Many dimensions, many rows.
fn pir_deep(cx: &mut Cx) -> R {
    static DEEP: Class = Class { name: "pir-deep", ns: &[16, 32, 16], moduli: 3..=4, bits: 60..=62, tbits: 6..=20, pool: 6 };
    let c = cfg(cx, &DEEP);
    let fits: Vec<Shape> = (2..=12usize)
        .flat_map(|dim| (2..=10usize).map(move |k| (dim, k)))
        .filter(|(dim, k)| k * dim < c.n && dim.pow(*k as u32) >= 100 && dim.pow(*k as u32) <= 1100)
        .map(|(dim, k)| Shape { first: cx.rng.gen_range(1..=(c.n - k * dim).min(1 + 600 / dim.pow(k as u32))), dim, k })
        .filter(|s| pir_noise(&c, s) <= c.room(0))
        .collect();
    if fits.is_empty() || cx.tiny() {
        cx.event("skipped: no noise room");
        return Ok(());
    }
    let s = pick(&mut cx.rng, &fits);
    pir_shape(cx, &c, s, 2)
}
/// First dimensions of sixty to all of the degree's entries, and few or no others.
fn pir_wide(cx: &mut Cx) -> R {
    static WIDE_FIRST: Class = Class { name: "pir-wide", ns: &[128, 64, 256], moduli: 3..=4, bits: 61..=62, tbits: 9..=17, pool: 6 };
    let c = cfg(cx, &WIDE_FIRST);
    let k = cx.rng.gen_range(0..=1usize);
    let dim = cx.rng.gen_range(2..=3usize);
    let most = c.n - k * dim;
    let first = match cx.rng.gen_range(0..4) {
        0 => most,
        1 => most / 32 * 32,
        2 => cx.rng.gen_range(most / 2..=most),
        _ => cx.rng.gen_range(most * 3 / 4..=most),
    };
    let s = Shape { first, dim, k };
    if cx.tiny() || pir_noise(&c, &s) > c.room(0) {
        cx.event("skipped: no noise room");
        return Ok(());
    }
    cx.event("wide first dimension");
    pir_shape(cx, &c, &s, 2)
}
/// A large degree, where the noise of expansion is at its worst.
fn pir_large(cx: &mut Cx) -> R {
    static BIG: Class = Class { name: "pir-large", ns: &[128, 256, 512, 1024], moduli: 4..=4, bits: 60..=62, tbits: 10..=17, pool: 4 };
    let c = cfg(cx, &BIG);
    pir_case(cx, &c, 48, 1)
}
fn pir_sweep(cx: &mut Cx) -> R {
    let c = loop {
        let c = cfg(cx, &PIR);
        if c.n <= 16 {
            break c;
        }
    };
    pir_case(cx, &c, 24, 24)
}
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        quick: 160,
        thorough: 2600,
        rule: "case = parameter set x database shape x database contents x secret key x row index, all drawn from the seed; the sweep kind asks for every row of a small database. Non-trivial: more than one row and the row asked for is not all zero. Oracle: the answer decrypts to exactly the row, and its noise stays below the worst-case bound.",
        kinds: vec![Kind { name: "random", weight: 60, f: pir_random }, Kind { name: "chains", weight: 16, f: pir_chains }, Kind { name: "deep", weight: 10, f: pir_deep }, Kind { name: "sweep", weight: 20, f: pir_sweep }, Kind { name: "wide", weight: 4, f: pir_wide }, Kind { name: "large", weight: 1, f: pir_large }],
    }
}

fn encode_case(cx: &mut Cx) -> R {
    let c = cfg_at(0, &TINY, 0);
    let sk = SecretKey::new(vec![0; c.n], &c.params);
    for _ in 0..40 {
        let s = loop {
            let s = Shape {
                first: cx.rng.gen_range(1..=130),
                dim: cx.rng.gen_range(1..=12),
                k: cx.rng.gen_range(0..=5),
            };
            if s.rows() < 1 << 24 {
                break s;
            }
        };
        let index = match cx.rng.gen_range(0..4) {
            0 => 0,
            1 => s.rows() - 1,
            _ => cx.rng.gen_range(0..s.rows()),
        };
        let d = dims_of(index, &s);
        let client = VpClient::new(s.first, s.dim);
        let e = client.encode(d.clone(), s.rows(), &c.params, &sk);
        ensure!(e.len() == s.first + s.k * s.dim, "encoding of {:?} has length {}", d, e.len());
        let mut want = vec![0u64; e.len()];
        want[d[0]] = 1;
        for j in 0..s.k {
            want[s.first + j * s.dim + d[j + 1]] = 1;
        }
        ensure!(e == want, "encoding of {:?} (first={} dim={}) is {:?}", d, s.first, s.dim, e);
        cx.eval(s.rows() > 1, &(s.first, s.dim, s.k, index));
        // Distinct indices have distinct encodings.
        if s.rows() > 1 {
            let other = (index + 1 + cx.rng.gen_range(0..s.rows() - 1)) % s.rows();
            let o = client.encode(dims_of(other, &s), s.rows(), &c.params, &sk);
            ensure!((o == e) == (other == index), "indices {} and {} encode alike", index, other);
        }
    }
    Ok(())
}
fn encode_exhaustive(cx: &mut Cx) -> R {
    let c = cfg_at(0, &TINY, 0);
    let sk = SecretKey::new(vec![0; c.n], &c.params);
    let mut s = loop {
        let s = Shape { first: cx.rng.gen_range(1..=12), dim: cx.rng.gen_range(1..=5), k: cx.rng.gen_range(0..=4) };
        if s.rows() <= 2000 {
            break s;
        }
    };
    let client = if cx.rng.gen_range(0..40) == 0 {
        // the client's defaults: a 4 x 4^k database
        s = Shape { first: 4, dim: 4, k: cx.rng.gen_range(0..=4) };
        VpClient::default()
    } else {
        VpClient::new(s.first, s.dim)
    };
    if s.dim > 1 && s.rows() <= 64 {
        // the server counts as many encrypted values as a query has
        let db: Vec<Plaintext> = (0..s.rows()).map(|_| Plaintext::new(&c.params, &vec![1; c.n], 0, Encoding::Poly)).collect();
        let n = VpServer::new(s.first, s.dim, &db, &c.params).no_of_cts();
        ensure!(n == s.first + s.k * s.dim, "the server expects {} values for first={} dim={} extra_dims={}", n, s.first, s.dim, s.k);
        cx.event("server's count of encrypted values");
    }
    let mut seen = std::collections::HashSet::new();
    for i in 0..s.rows() {
        let d = dims_of(i, &s);
        let e = client.encode(d.clone(), s.rows(), &c.params, &sk);
        ensure!(e.iter().sum::<u64>() == 1 + s.k as u64 && e.iter().all(|x| *x <= 1), "encoding of {:?} is {:?}", d, e);
        ensure!(seen.insert(e.clone()), "index {} has the encoding of an earlier index: {:?}", i, e);
        // Decoding the one-hot blocks gives the index back.
        let mut idx = e[..s.first].iter().position(|x| *x == 1).unwrap_or(usize::MAX);
        let mut stride = s.first;
        for j in 0..s.k {
            let b = &e[s.first + j * s.dim..s.first + (j + 1) * s.dim];
            idx = idx.saturating_add(stride * b.iter().position(|x| *x == 1).unwrap_or(usize::MAX / stride));
            stride *= s.dim;
        }
        ensure!(idx == i, "encoding of index {} names index {}", i, idx);
        cx.eval(s.rows() > 1, &(s.first, s.dim, s.k, i, "x"));
    }
    cx.sample(|| format!("all {} indices of first={} dim={} extra_dims={}", s.rows(), s.first, s.dim, s.k));
    Ok(())
}
pub fn c25() -> Prop {
    Prop {
        id: "C25",
        quick: 400,
        thorough: 20000,
        rule: "case = database shape x index; the exhaustive kind encodes every index of a small database. Non-trivial: more than one row. Oracle: independent one-hot model, injectivity, and decoding back to the index.",
        kinds: vec![Kind { name: "random", weight: 3, f: encode_case }, Kind { name: "exhaustive", weight: 1, f: encode_exhaustive }],
    }
}

// ---------------------------------------------------------------- C02

fn expand_plain(cx: &mut Cx) -> R {
    let c = cfg_chains(cx);
    if unpack_noise(&c) + c.fresh() > c.room(0) {
        return expand_raw(cx);
    }
    let sk = secret(cx, &c);
    let eval = VpEvaluation::build(&sk, &c.params);
    let m = if cx.rng.gen_range(0..3) == 0 { sparse(cx, c.n, c.t) } else { vals(&mut cx.rng, c.n, c.t) };
    let (ct, e) = ciphertext(cx, &c, 0, &sk, &m, &c.fresh());
    let out = eval.unpack(ct);
    ensure!(out.len() == c.n, "{} ciphertexts for {} coefficients", out.len(), c.n);
    let bound = (unpack_noise(&c) + &e) * c.t;
    for (i, o) in out.iter().enumerate() {
        let mut want = vec![0u64; c.n];
        want[0] = m[i];
        let got = decrypt(&sk, o);
        ensure!(got == want, "coefficient {} = {} expands to {:?}; {}", i, m[i], got, c.desc());
        let nn = noise_num(&phase(&o.cts, &sk.coeffs)?, &want, &c.big(0), c.t);
        ensure!(nn <= bound, "expansion noise of coefficient {}: {} bits > {} bits", i, nn.bits(), bound.bits());
    }
    cx.eval(m.iter().any(|x| *x != 0), &(c.desc(), &m));
    cx.events(&format!("coefficients N={} L={}", c.n, c.q.len()), c.n as u64);
    cx.sample(|| format!("{} m={:?}", c.desc(), &m[..8]));
    Ok(())
}
/// Coefficients scaled by an arbitrary constant mod Q (the queries' gadget rows).
fn expand_raw(cx: &mut Cx) -> R {
    let c = cfg_chains(cx);
    let q = c.big(0);
    let sk = secret(cx, &c);
    let eval = VpEvaluation::build(&sk, &c.params);
    let ctx = c.ctx(0);
    let g = if cx.rng.gen() { pick(&mut cx.rng, &ctx.rns.garner).clone() } else { big_val(&mut cx.rng, &q) };
    let m = match cx.rng.gen_range(0..3) {
        0 => (0..c.n).map(|_| cx.rng.gen_range(0..2)).collect(),
        1 => sparse(cx, c.n, c.t),
        _ => vals(&mut cx.rng, c.n, c.t),
    };
    let mut p = Poly::try_from_vec_u64(&ctx, &m);
    p.change_representation(Representation::Ntt);
    p *= &g;
    let ct = if cx.rng.gen_range(0..8) == 0 {
        cx.event("transparent input");
        BfvCipherText { params: c.params.clone(), cts: vec![p.clone(), Poly::zero(&ctx, Representation::Ntt)], level: 0 }
    } else {
        sk.encrypt_poly(&p)
    };
    let out = eval.unpack(ct);
    ensure!(out.len() == c.n, "{} ciphertexts for {} coefficients", out.len(), c.n);
    let bound = unpack_noise(&c) + s_max(&c);
    for (i, o) in out.iter().enumerate() {
        let mut want = vec![BigInt::zero(); c.n];
        want[0] = BigInt::from(&g * m[i]);
        let d = dist(&phase(&o.cts, &sk.coeffs)?, &want, &q);
        ensure!(d <= bound, "expanded coefficient {} is off by {} bits (bound {}); {}", i, d.bits(), bound.bits(), c.desc());
        ensure!(o.level == 0, "level {}", o.level);
    }
    cx.eval(m.iter().any(|x| *x != 0) && !g.is_zero(), &(c.desc(), &m, g.to_string()));
    cx.events(&format!("scaled coefficients N={} L={}", c.n, c.q.len()), c.n as u64);
    Ok(())
}
/// The medium parameter sets, and now and then ones with more or smaller moduli
/// and wide plaintext moduli.
fn cfg_chains(cx: &mut Cx) -> Arc<Cfg> {
    static CHAINS: Class = Class { name: "expand-chains", ns: &[8, 16, 8, 32, 16], moduli: 2..=10, bits: 30..=62, tbits: 5..=40, pool: 24 };
    if cx.rng.gen_range(0..4) == 0 {
        cfg(cx, &CHAINS)
    } else {
        cfg(cx, &MEDIUM)
    }
}
fn expand_large(cx: &mut Cx) -> R {
    let c = cfg_at(cx.seed, &LARGE, [0usize, 1][(cx.case % 2) as usize]);
    if unpack_noise(&c) + c.fresh() > c.room(0) {
        return Ok(());
    }
    let sk = SecretKey::generate(&c.params);
    let eval = VpEvaluation::build(&sk, &c.params);
    let m = vals(&mut cx.rng, c.n, c.t);
    let out = eval.unpack(sk.encrypt(&Plaintext::new(&c.params, &m, 0, Encoding::Poly)));
    ensure!(out.len() == c.n, "{} ciphertexts for {} coefficients", out.len(), c.n);
    for (i, o) in out.iter().enumerate() {
        let got = decrypt(&sk, o);
        ensure!(got[0] == m[i] && got[1..].iter().all(|x| *x == 0), "coefficient {} = {} expands to {:?}..; {}", i, m[i], &got[..4], c.desc());
    }
    cx.eval(m.iter().any(|x| *x != 0), &(c.desc(), &m));
    cx.events(&format!("coefficients N={} L={}", c.n, c.q.len()), c.n as u64);
    Ok(())
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        quick: 300,
        thorough: 6000,
        rule: "case = parameter set x secret key x packed coefficients (plain, or scaled by a gadget constant mod Q); every one of the N outputs is judged. Non-trivial: some coefficient is not zero. Oracle: output i has phase (coefficient i) * scale with all other coefficients zero, within the worst-case noise.",
        kinds: vec![Kind { name: "plain", weight: 30, f: expand_plain }, Kind { name: "scaled", weight: 29, f: expand_raw }, Kind { name: "large", weight: 1, f: expand_large }],
    }
}

// ---------------------------------------------------------------- C03, C26

fn enc_dec(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    enc_dec_in(cx, &c)
}
fn enc_dec_large(cx: &mut Cx) -> R {
    let class = match cx.rng.gen_range(0..100) {
        0..=7 => &HUGE,
        8 => &GIANT,
        _ => &LARGE,
    };
    let c = cfg(cx, class);
    enc_dec_in(cx, &c)
}
fn enc_dec_in(cx: &mut Cx, c: &Cfg) -> R {
    for _ in 0..6 {
        let lv = level(cx, c, 1);
        if c.fresh() > c.room(lv) {
            continue;
        }
        let sk = secret(cx, c);
        let simd = cx.rng.gen::<bool>();
        let len = if simd { c.n } else { *pick(&mut cx.rng, &[1, c.n / 2, c.n - 1, c.n, c.n, c.n]) };
        let v = vals(&mut cx.rng, len, c.t);
        let enc = || if simd { Encoding::SIMD } else { Encoding::Poly };
        if cx.rng.gen_range(0..4) == 0 {
            // values need not be reduced
            let raw: Vec<u64> = (0..len).map(|_| if cx.rng.gen() { val(&mut cx.rng, u64::MAX) } else { cx.rng.gen_range(0..c.t) }).collect();
            let want: Vec<u64> = (0..c.n).map(|i| raw.get(i).map_or(0, |x| x % c.t)).collect();
            let pt = Plaintext::new(&c.params, &raw, lv, enc());
            ensure!(pt.decode() == want, "encoding {:?} (simd={}) decodes to {:?}, not its value mod t; {}", raw, simd, pt.decode(), c.desc());
            let mut back = sk.decrypt(&sk.encrypt(&pt));
            back.set_encoding(enc());
            let got = back.decode();
            ensure!(got == want, "{:?} at level {} (simd={}) decrypts to {:?}, not its value mod t; {}", raw, lv, simd, got, c.desc());
            cx.event("values beyond t");
        }
        let pt = Plaintext::new(&c.params, &v, lv, enc());
        let mut full = v.clone();
        full.resize(c.n, 0);
        ensure!(pt.decode() == full, "encoding {:?} decodes to {:?}", full, pt.decode());
        let ct = sk.encrypt(&pt);
        ensure!(ct.level == lv, "plaintext of level {} encrypts to level {}", lv, ct.level);
        let mut back = sk.decrypt(&ct);
        ensure!(back.level == lv, "ciphertext of level {} decrypts to level {}", lv, back.level);
        back.set_encoding(enc());
        ensure!(back.decode() == full, "{:?} at level {} (simd={}) decrypts to {:?}; {}", full, lv, simd, back.decode(), c.desc());
        ensure!(back.values.iter().all(|x| *x < c.t), "decrypted value not reduced");
        if c.n <= 128 {
            let ph = phase(&ct.cts, &sk.coeffs)?;
            let mut raw = sk.decrypt_trial(&ct.cts[0], &ct.cts[1]);
            raw.change_representation(Representation::PowerBasis);
            ensure!(lift_rows(&rows(&raw)?, &Crt::new(c.ql(lv))) == ph, "the raw phase differs from c0 + c1*s; {}", c.desc());
            let nn = noise_num(&ph, &back.values, &c.big(lv), c.t);
            ensure!(nn <= c.fresh() * c.t, "fresh noise {} exceeds {}", nn / c.t, c.fresh());
        }
        cx.eval(v.iter().any(|x| *x != 0), &(c.desc(), lv, simd, &v));
        cx.event(&format!("N={} moduli={} level={} {}", c.n, c.q.len(), lv, if simd { "simd" } else { "poly" }));
        cx.sample(|| format!("{} level={} simd={} {:?}", c.desc(), lv, simd, &v[..v.len().min(8)]));
    }
    Ok(())
}
/// Any ciphertext whose noise is below Q/2t decrypts to its message.
fn dec_boundary(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    for _ in 0..4 {
        let lv = level(cx, &c, 1);
        let room = c.room(lv);
        if room < bu(8) {
            continue;
        }
        let sk = secret(cx, &c);
        let m = vals(&mut cx.rng, c.n, c.t);
        // three components now and then: c2 = small polynomial folded into noise-free phase
        let budget = match cx.rng.gen_range(0..3) {
            0 => room.clone(),
            1 => &room >> 1,
            _ => BigUint::one() << cx.rng.gen_range(1..room.bits().max(2) - 1),
        };
        let e: Vec<BigInt> = (0..c.n).map(|_| signed_below(&mut cx.rng, &budget)).collect();
        let crt = Crt::new(c.ql(lv));
        let c1 = crt_vals(&mut cx.rng, c.n, &crt);
        let ct = craft(&c, lv, &sk.coeffs, &m, &e, &c1);
        let got = decrypt(&sk, &ct);
        ensure!(got == m, "message {:?} with noise of {} bits (limit {} bits) at level {} decrypts to {:?}; {}", m, budget.bits(), room.bits(), lv, got, c.desc());
        cx.eval(m.iter().any(|x| *x != 0), &(c.desc(), lv, &m, budget.to_string()));
        cx.event("crafted noise up to the decryption limit");
    }
    Ok(())
}
/// Decryption of ciphertexts of more than two components.
fn dec_components(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let lv = level(cx, &c, 1);
    let room = c.room(lv);
    if room < bu(8) {
        return Ok(());
    }
    let sk = secret(cx, &c);
    let m = vals(&mut cx.rng, c.n, c.t);
    let k = cx.rng.gen_range(1..=4usize);
    let zero = vec![BigInt::zero(); c.n];
    let ct = craft_many(cx, &c, lv, &sk.coeffs, &m, &zero, k);
    let got = decrypt(&sk, &ct);
    ensure!(got == m, "a {}-component encryption of {:?} decrypts to {:?}; {}", k, m, got, c.desc());
    cx.eval(m.iter().any(|x| *x != 0), &(c.desc(), lv, &m, k));
    cx.event(&format!("{} components", k));
    Ok(())
}
pub fn c03() -> Prop {
    Prop {
        id: "C03",
        quick: 1500,
        thorough: 40000,
        rule: "case = parameter set x level x secret key x message x encoding, or a crafted ciphertext with chosen components and noise up to the decryption limit. Non-trivial: message not all zero. Oracle: exact message back; fresh noise within the sampling bound.",
        kinds: vec![
            Kind { name: "roundtrip", weight: 30, f: enc_dec },
            Kind { name: "boundary", weight: 20, f: dec_boundary },
            Kind { name: "components", weight: 9, f: dec_components },
            Kind { name: "large", weight: 1, f: enc_dec_large },
        ],
    }
}

fn noise_meter(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    for _ in 0..4 {
        let lv = level(cx, &c, 1);
        let room = c.room(lv);
        if room < bu(64) {
            continue;
        }
        let sk = secret(cx, &c);
        let m = vals(&mut cx.rng, c.n, c.t);
        let ct = if cx.rng.gen_range(0..4) == 0 {
            sk.encrypt(&Plaintext::new(&c.params, &m, lv, Encoding::Poly))
        } else {
            let crt = Crt::new(c.ql(lv));
            let c1 = crt_vals(&mut cx.rng, c.n, &crt);
            let budget = BigUint::one() << cx.rng.gen_range(0..room.bits() - 1);
            let mut e: Vec<BigInt> = (0..c.n).map(|_| signed_below(&mut cx.rng, &budget)).collect();
            match cx.rng.gen_range(0..4) {
                // one large coefficient only
                0 => {
                    let j = cx.rng.gen_range(0..c.n);
                    for (i, x) in e.iter_mut().enumerate() {
                        if i != j {
                            *x = BigInt::zero();
                        } else {
                            *x = if x.is_negative() { -BigInt::from(budget.clone()) } else { BigInt::from(budget.clone()) };
                        }
                    }
                }
                // a largest coefficient where the bit length changes
                1 | 2 => {
                    let j = cx.rng.gen_range(0..c.n);
                    let quiet = cx.rng.gen::<bool>();
                    for x in e.iter_mut() {
                        *x = if quiet { BigInt::zero() } else { &*x / 2 };
                    }
                    let top = BigInt::from(budget.clone()) + cx.rng.gen_range(-3i64..=2);
                    e[j] = if cx.rng.gen() { -top } else { top };
                    cx.event("largest coefficient next to a power of two");
                }
                _ => {}
            }
            if cx.rng.gen_range(0..3) == 0 {
                let k = *pick(&mut cx.rng, &[1usize, 3, 4]);
                cx.event(&format!("{} components", k));
                craft_many(cx, &c, lv, &sk.coeffs, &m, &e, k)
            } else {
                craft(&c, lv, &sk.coeffs, &m, &e, &c1)
            }
        };
        let got = sk.measure_noise(&ct) as u64;
        // Deviation from the message scaled by Q/t, which may be rounded down, up or to nearest.
        let ph = phase(&ct.cts, &sk.coeffs)?;
        let q = c.big(lv);
        let scaled = |add: BigUint| -> Vec<BigInt> { m.iter().map(|x| BigInt::from((&q * *x + &add) / c.t)).collect() };
        // The encoder's own scaling counts as well, if it stays within 2 of that.
        let own = lift_rows(&rows(&Plaintext::new(&c.params, &m, lv, Encoding::Poly).to_poly())?, &Crt::new(c.ql(lv)));
        let own_off = dist(&own, &scaled(bu(c.t >> 1)), &q);
        ensure!(own_off <= bu(2), "the encoder's scaled message is {} away from Q*m/t; level {} {}", own_off, lv, c.desc());
        let own: Vec<BigInt> = own.into_iter().map(BigInt::from).collect();
        let by_rule: Vec<BigUint> = [scaled(bu(0)), own, scaled(bu(c.t - 1)), scaled(bu(c.t >> 1))].iter().map(|w| dist(&ph, w, &q)).collect();
        let true_noise = by_rule[1].clone();
        ensure!(
            by_rule.iter().any(|d| d.bits() == got),
            "reported noise {} bits, actual noise {} has {} bits; level {} {}", got, true_noise, true_noise.bits(), lv, c.desc()
        );
        cx.eval(true_noise > bu(3), &(c.desc(), lv, &m, true_noise.to_string()));
        cx.event(&format!("noise of {} bits", (true_noise.bits() / 16) * 16));
        cx.sample(|| format!("{} level={} noise={}", c.desc(), lv, true_noise));
    }
    Ok(())
}
pub fn c26() -> Prop {
    Prop {
        id: "C26",
        quick: 800,
        thorough: 20000,
        rule: "case = parameter set x level x key x ciphertext of known noise (fresh or crafted, from one bit up to the decryption limit, a share with its largest coefficient within 3 of a power of two). Non-trivial: noise above the encoding's own rounding. Oracle: exact big-integer bit length of the deviation from the message scaled by rounding down, up, to nearest or as the encoder does.",
        kinds: vec![Kind { name: "meter", weight: 1, f: noise_meter }],
    }
}

// ---------------------------------------------------------------- C04

fn simd_ring(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    for _ in 0..3 {
        let a = vals(&mut cx.rng, c.n, c.t);
        let b = vals(&mut cx.rng, c.n, c.t);
        let pa = Plaintext::new(&c.params, &a, 0, Encoding::SIMD);
        let pb = Plaintext::new(&c.params, &b, 0, Encoding::SIMD);
        ensure!(pa.values.iter().all(|x| *x < c.t), "encoded coefficient not reduced mod t");
        ensure!(pa.decode() == a, "SIMD encoding of {:?} decodes to {:?}", a, pa.decode());
        let mk = |v: Vec<u64>| Plaintext { params: c.params.clone(), level: 0, encoding: Encoding::SIMD, values: v.into_boxed_slice() };
        let sum = mk(addv(&pa.values, &pb.values, c.t)).decode();
        ensure!(sum == addv(&a, &b, c.t), "sum of encodings decodes to {:?}", sum);
        let prod = mk(neg_mul(&pa.values, &pb.values, c.t)).decode();
        let want: Vec<u64> = a.iter().zip(&b).map(|(x, y)| mulmod(*x, *y, c.t)).collect();
        ensure!(prod == want, "product of encodings of {:?} and {:?} decodes to {:?}", a, b, prod);
        // Decoding, then encoding, is the identity as well.
        let v = vals(&mut cx.rng, c.n, c.t);
        let d = mk(v.clone()).decode();
        ensure!(d.iter().all(|x| *x < c.t), "decoded slot not reduced mod t");
        let back = Plaintext::new(&c.params, &d, 0, Encoding::SIMD);
        ensure!(back.values.to_vec() == v, "decode then encode changes {:?} to {:?}", v, back.values);
        // Substituting X -> X^(3^r) rotates both rows left by r; X^-1 swaps the rows.
        let r = cx.rng.gen_range(0..c.n / 2);
        let half = c.n / 2;
        let rot = mk(subst(&pa.values, powmod(3, r as u64, 2 * c.n as u64) as usize, c.t)).decode();
        let want: Vec<u64> = (0..c.n).map(|i| if i < half { a[(i + r) % half] } else { a[half + (i - half + r) % half] }).collect();
        ensure!(rot == want, "rotation by {} of {:?} decodes to {:?}", r, a, rot);
        let sw = mk(subst(&pa.values, 2 * c.n - 1, c.t)).decode();
        let want: Vec<u64> = a[half..].iter().chain(a[..half].iter()).cloned().collect();
        ensure!(sw == want, "row swap of {:?} decodes to {:?}", a, sw);
        cx.eval(a.iter().any(|x| *x != a[0]) && b.iter().any(|x| *x != 0), &(c.n, c.t, &a, &b, r));
        cx.event(&format!("N={}", c.n));
        cx.sample(|| format!("N={} t={} a={:?} rotation={}", c.n, c.t, &a[..8], r));
    }
    Ok(())
}
fn simd_cipher(cx: &mut Cx) -> R {
    let c = cfg(cx, &MEDIUM);
    let lv = level(cx, &c, 2);
    let need = c.ks(lv) + c.fresh() * c.t * c.n as u64;
    if need > c.room(lv) {
        return simd_ring(cx);
    }
    let sk = secret(cx, &c);
    let a = vals(&mut cx.rng, c.n, c.t);
    let b = vals(&mut cx.rng, c.n, c.t);
    let ca = sk.encrypt(&Plaintext::new(&c.params, &a, lv, Encoding::SIMD));
    let pb = Plaintext::new(&c.params, &b, lv, Encoding::SIMD);
    let cb = sk.encrypt(&pb);
    let slots = |ct: &BfvCipherText| {
        let mut p = sk.decrypt(ct);
        p.set_encoding(Encoding::SIMD);
        p.decode()
    };
    let s = slots(&(&ca + &cb));
    ensure!(s == addv(&a, &b, c.t), "encrypted slotwise sum of {:?} and {:?} gives {:?}", a, b, s);
    let p = slots(&(&ca * &pb));
    let want: Vec<u64> = a.iter().zip(&b).map(|(x, y)| mulmod(*x, *y, c.t)).collect();
    ensure!(p == want, "encrypted slotwise product of {:?} and {:?} gives {:?}", a, b, p);
    let half = c.n / 2;
    let r = cx.rng.gen_range(0..half);
    let k = powmod(3, r as u64, 2 * c.n as u64) as usize;
    let gk = GaliosKey::new(&sk, &Substitution::new(&c.ctx(lv), k), lv);
    let got = slots(&gk.relinearize(&ca));
    let want: Vec<u64> = (0..c.n).map(|i| if i < half { a[(i + r) % half] } else { a[half + (i - half + r) % half] }).collect();
    ensure!(got == want, "encrypted rotation by {} of {:?} gives {:?}", r, a, got);
    let gk = GaliosKey::new(&sk, &Substitution::new(&c.ctx(lv), 2 * c.n - 1), lv);
    let got = slots(&gk.relinearize(&ca));
    let want: Vec<u64> = a[half..].iter().chain(a[..half].iter()).cloned().collect();
    ensure!(got == want, "encrypted row swap of {:?} gives {:?}", a, got);
    cx.eval(a.iter().any(|x| *x != a[0]) && b.iter().any(|x| *x != 0), &(c.desc(), lv, &a, &b, r));
    cx.event(&format!("encrypted N={} level={}", c.n, lv));
    Ok(())
}
fn simd_large(cx: &mut Cx) -> R {
    let c = large(cx);
    let a = vals(&mut cx.rng, c.n, c.t);
    let pa = Plaintext::new(&c.params, &a, 0, Encoding::SIMD);
    ensure!(pa.decode() == a, "SIMD encoding does not decode (N={})", c.n);
    let r = cx.rng.gen_range(0..c.n / 2);
    let half = c.n / 2;
    let rot = Plaintext { params: c.params.clone(), level: 0, encoding: Encoding::SIMD, values: subst(&pa.values, powmod(3, r as u64, 2 * c.n as u64) as usize, c.t).into_boxed_slice() }.decode();
    let want: Vec<u64> = (0..c.n).map(|i| if i < half { a[(i + r) % half] } else { a[half + (i - half + r) % half] }).collect();
    ensure!(rot == want, "rotation by {} is wrong (N={})", r, c.n);
    cx.eval(a.iter().any(|x| *x != a[0]), &(c.n, c.t, &a, r));
    cx.event(&format!("N={}", c.n));
    Ok(())
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        quick: 800,
        thorough: 20000,
        rule: "case = parameter set x two slot vectors x rotation amount, on plaintexts and on ciphertexts of every level with two or more moduli. Non-trivial: slots not all equal. Oracle: slotwise modular arithmetic, cyclic rotation of the two rows, row swap.",
        kinds: vec![Kind { name: "plaintext", weight: 20, f: simd_ring }, Kind { name: "ciphertext", weight: 19, f: simd_cipher }, Kind { name: "large", weight: 1, f: simd_large }],
    }
}

// ---------------------------------------------------------------- C05

/// Random straight-line programs of linear operations, with the noise tracked
/// so that every intermediate result must decrypt.
/// An encryption of `m` with `k` components, hostile ones beyond c0, and the
/// given noise.
fn craft_many(cx: &mut Cx, c: &Cfg, lv: usize, s: &[i64], m: &[u64], e: &[BigInt], k: usize) -> BfvCipherText {
    let crt = Crt::new(c.ql(lv));
    let comps: Vec<Vec<BigUint>> = (1..k).map(|_| crt_vals(&mut cx.rng, c.n, &crt)).collect();
    // c0 = delta m + e - sum c_i s^i
    let mut c0rows = vec![];
    for &qi in c.ql(lv) {
        let mut acc = vec![0u64; c.n];
        for comp in comps.iter().rev() {
            let r: Vec<u64> = comp.iter().map(|x| low(&(x % qi))).collect();
            acc = neg_mul_small(&addv(&acc, &r, qi), s, qi);
        }
        let d: Vec<u64> = m.iter().zip(e).map(|(x, e)| low(&modp(&(BigInt::from(delta_m(*x, &crt.prod, c.t)) + e), &bu(qi)))).collect();
        c0rows.push(subv(&d, &acc, qi));
    }
    let ctx = c.ctx(lv);
    let mut cts = vec![poly_from_big(&ctx, &lift_rows(&c0rows, &crt), true)];
    for comp in &comps {
        cts.push(poly_from_big(&ctx, comp, true));
    }
    BfvCipherText { params: c.params.clone(), cts, level: lv }
}
fn linear_program(cx: &mut Cx) -> R {
    let c = cfg_mixed(cx, &GENERAL);
    let lv = level(cx, &c, 1);
    let room = c.room(lv);
    if c.fresh() * 4u64 > room {
        return Ok(());
    }
    let n = c.n as u64;
    let sk = secret(cx, &c);
    let ctx = c.ctx(lv);
    let q = c.big(lv);
    let mut pool: Vec<(BfvCipherText, Vec<u64>, BigUint)> = vec![];
    for _ in 0..2 {
        let m = vals(&mut cx.rng, c.n, c.t);
        let (ct, e) = ciphertext(cx, &c, lv, &sk, &m, &(&room >> (room.bits() / 2)));
        pool.push((ct, m, e));
    }
    if cx.rng.gen_range(0..6) == 0 {
        let m = vals(&mut cx.rng, c.n, c.t);
        let a = pool[0].0.clone();
        if let Some(ct) = sibling(cx, &c, lv, &sk, &a, &m, &c.fresh()) {
            cx.event("operands with a common component");
            pool.push((ct, m, c.fresh() + 1u64));
        }
    }
    // a product that has not been relinearised, say
    if cx.rng.gen() {
        let m = vals(&mut cx.rng, c.n, c.t);
        let k = *pick(&mut cx.rng, &[1usize, 3, 3, 3, 4]);
        let e: Vec<BigInt> = (0..c.n).map(|_| signed_below(&mut cx.rng, &c.fresh())).collect();
        let ct = craft_many(cx, &c, lv, &sk.coeffs, &m, &e, k);
        cx.event(&format!("operand of {} components", k));
        pool.push((ct, m, c.fresh() + 1u64));
    }
    let mut trace = vec![];
    for step in 0..8 {
        let i = cx.rng.gen_range(0..pool.len());
        let j = cx.rng.gen_range(0..pool.len());
        let op = cx.rng.gen_range(0..8);
        let operands = (pool[i].0.clone(), pool[j].0.clone());
        let (ct, m, e, name) = {
            let (a, ma, ea) = &pool[i];
            let (b, mb, eb) = &pool[j];
            match op {
                0 | 1 => (a + b, addv(ma, mb, c.t), ea + eb, "ct+ct"),
                2 => (a - b, subv(ma, mb, c.t), ea + eb, "ct-ct"),
                3 => {
                    let v = vals(&mut cx.rng, c.n, c.t);
                    let p = Plaintext::new(&c.params, &v, lv, Encoding::Poly);
                    (a + &p.to_poly(), addv(ma, &v, c.t), ea + 2u64, "ct+poly")
                }
                4 => {
                    let v = vals(&mut cx.rng, c.n, c.t);
                    let enc = if cx.rng.gen() { Encoding::SIMD } else { Encoding::Poly };
                    let p = Plaintext::new(&c.params, &v, lv, enc);
                    (a * &p, neg_mul(ma, &p.values, c.t), ea * n * c.t, "ct*pt")
                }
                5 => {
                    // a polynomial over the integers, small and signed
                    let v: Vec<i64> = (0..c.n).map(|_| cx.rng.gen_range(-8..=8)).collect();
                    let mut p = Poly::try_from_vec_i64(&ctx, &v);
                    p.change_representation(Representation::Ntt);
                    (a * &p, neg_mul_small(ma, &v, c.t), ea * (n * 8), "ct*poly")
                }
                6 => {
                    let k = match cx.rng.gen_range(0..4) {
                        0 => BigUint::zero(),
                        1 => &q - cx.rng.gen_range(1..100u64),
                        _ => bu(cx.rng.gen_range(0..1000)),
                    };
                    let kc = center(&(&k % &q), &q);
                    let kt = low(&modp(&kc, &bu(c.t)));
                    (a * &k, ma.iter().map(|x| mulmod(*x, kt, c.t)).collect(), ea * kc.abs().to_biguint().unwrap(), "ct*scalar")
                }
                _ => {
                    // inner product with plaintext polynomials
                    let k = match cx.rng.gen_range(0..16) {
                        0..=7 => cx.rng.gen_range(1..=3usize),
                        8 if c.n <= 64 => {
                            cx.event("inner product of more than 60 terms");
                            cx.rng.gen_range(60..=300usize)
                        }
                        _ => cx.rng.gen_range(1..=20usize),
                    };
                    let which: Vec<usize> = (0..k).map(|x| if x % 2 == 0 { i } else { j }).collect();
                    let cts: Vec<BfvCipherText> = which.iter().map(|x| pool[*x].0.clone()).collect();
                    // -1 has the largest residue in every position of every modulus
                    let ones = cx.rng.gen_range(0..3) == 0;
                    let vs: Vec<Vec<i64>> = (0..k)
                        .map(|_| (0..c.n).map(|y| if !ones { cx.rng.gen_range(-7..8) } else if y == 0 { -1 } else { 0 }).collect())
                        .collect();
                    let polys: Vec<Poly> = vs
                        .iter()
                        .map(|v| {
                            let mut p = Poly::try_from_vec_i64(&ctx, v);
                            p.change_representation(Representation::Ntt);
                            p
                        })
                        .collect();
                    let r = omr_inner_product(&cts, &polys);
                    let mut m = vec![0; c.n];
                    for (x, v) in which.iter().zip(&vs) {
                        m = addv(&m, &neg_mul_small(&pool[*x].1, v, c.t), c.t);
                    }
                    (r, m, (ea + eb) * (n * 7 * (k as u64 / 2 + 1)), "inner-product")
                }
            }
        };
        if e > room {
            cx.event("skipped: noise budget");
            continue;
        }
        trace.push(name);
        ensure!((&pool[i].0.cts, &pool[j].0.cts) == (&operands.0.cts, &operands.1.cts), "{} modified an operand", name);
        ensure!(ct.level == lv, "{} changed the level to {}", name, ct.level);
        let got = decrypt(&sk, &ct);
        ensure!(got == m, "step {} of {:?} at level {}: {:?} expected {:?}; {}", step, trace, lv, got, m, c.desc());
        let nn = noise_num(&phase(&ct.cts, &sk.coeffs)?, &m, &q, c.t);
        ensure!(nn <= &e * c.t, "{}: noise {} bits exceeds bound {} bits", name, (nn / c.t).bits(), e.bits());
        cx.eval(m.iter().any(|x| *x != 0), &(c.desc(), lv, &m, step));
        cx.event(name);
        pool.push((ct, m, e));
    }
    cx.sample(|| format!("{} level={} program={:?}", c.desc(), lv, trace));
    Ok(())
}
pub fn c05() -> Prop {
    Prop {
        id: "C05",
        quick: 1200,
        thorough: 30000,
        rule: "case = a random straight-line program of up to 8 linear operations (ct+ct, ct-ct, ct+poly, ct*pt, ct*poly, ct*scalar, inner product) over fresh and crafted ciphertexts at a random level; every intermediate value is decrypted. Non-trivial: result not all zero. Oracle: schoolbook arithmetic mod (t, X^N+1) and an interval bound on the noise.",
        kinds: vec![Kind { name: "program", weight: 1, f: linear_program }],
    }
}

// ---------------------------------------------------------------- C06

fn mul_noise(c: &Cfg, e1: &BigUint, e2: &BigUint, k1: usize, k2: usize) -> BigUint {
    let n = c.n as u64;
    let ns = bu(n * s_max(c));
    let geo = |k: usize| (0..k).fold(BigUint::zero(), |a, i| a + ns.pow(i as u32));
    let m1 = (geo(k1) + 4u64) * c.t;
    let m2 = (geo(k2) + 4u64) * c.t;
    let min = e1.min(e2);
    (m1 * e2 + m2 * e1) * n + min * n + geo(k1 + k2 - 1) + 2u64
}
fn mul_case(cx: &mut Cx) -> R {
    let c = cfg_mixed(cx, &MULT);
    let lv = level(cx, &c, 2);
    let sk = secret(cx, &c);
    let room = c.room(lv);
    let fresh = c.fresh();
    if mul_noise(&c, &fresh, &fresh, 2, 2) + c.ks(lv) > room {
        cx.event("skipped: noise budget");
        return Ok(());
    }
    let q = c.big(lv);
    let m1 = vals(&mut cx.rng, c.n, c.t);
    let mut m2 = vals(&mut cx.rng, c.n, c.t);
    let (a, e1) = ciphertext(cx, &c, lv, &sk, &m1, &fresh);
    let (b, e2) = match cx.rng.gen_range(0..12) {
        0 => {
            cx.event("square");
            m2 = m1.clone();
            (a.clone(), e1.clone())
        }
        1 | 2 => match sibling(cx, &c, lv, &sk, &a, &m2, &fresh) {
            Some(b) => {
                cx.event("factors with a common component");
                (b, fresh.clone())
            }
            None => ciphertext(cx, &c, lv, &sk, &m2, &fresh),
        },
        _ => ciphertext(cx, &c, lv, &sk, &m2, &fresh),
    };
    let want = neg_mul(&m1, &m2, c.t);
    let p = &a * &b;
    ensure!(p.cts.len() == 3 && p.level == lv, "product has {} components, level {}", p.cts.len(), p.level);
    let e = mul_noise(&c, &e1, &e2, 2, 2);
    let chk = |ct: &BfvCipherText, m: &Vec<u64>, e: &BigUint, what: &str| -> R {
        let got = decrypt(&sk, ct);
        ensure!(got == *m, "{} of {:?} and {:?} at level {} decrypts to {:?}, expected {:?}; {}", what, m1, m2, lv, got, m, c.desc());
        let nn = noise_num(&phase(&ct.cts, &sk.coeffs)?, m, &q, c.t);
        ensure!(nn <= e * c.t, "{}: noise {} bits exceeds bound {} bits; {}", what, (nn / c.t).bits(), e.bits(), c.desc());
        Ok(())
    };
    chk(&p, &want, &e, "product")?;
    cx.event(&format!("product level={} of {}", lv, c.q.len()));
    let rlk = RelinearizationKey::new(&sk, lv);
    let r = multiply_with_strategy(&a, &b, &rlk);
    ensure!(r.cts.len() == 2 && r.level == lv, "relinearised product has {} components, level {}", r.cts.len(), r.level);
    let er = &e + c.ks(lv);
    chk(&r, &want, &er, "relinearised product")?;
    // what relinearisation itself adds
    let wide: Vec<BigInt> = phase(&p.cts, &sk.coeffs)?.into_iter().map(BigInt::from).collect();
    let added = dist(&phase(&r.cts, &sk.coeffs)?, &wide, &q);
    ensure!(added <= c.ks(lv), "relinearisation adds noise of {} bits, bound {} bits; {}", added.bits(), c.ks(lv).bits(), c.desc());
    // Relinearising the last component by hand gives the same message.
    let (c0, c1) = rlk.relinearize_poly(&p.cts[2]);
    let by_hand = BfvCipherText { params: c.params.clone(), cts: vec![&p.cts[0] + &c0, &p.cts[1] + &c1], level: lv };
    chk(&by_hand, &want, &er, "hand-relinearised product")?;
    let mut pb = p.cts[2].clone();
    pb.change_representation(Representation::PowerBasis);
    let (d0, d1) = rlk.relinearize_poly(&pb);
    ensure!(d0 == c0 && d1 == c1, "relinearisation depends on the representation of its input");
    cx.eval(want.iter().any(|x| *x != 0), &(c.desc(), lv, &m1, &m2));
    // Multiply again while the budget lasts.
    let (mut acc, mut am, mut ae, mut depth) = (r, want, er, 1);
    for _ in 0..3 {
        let e3 = mul_noise(&c, &ae, &e1, 2, 2) + c.ks(lv);
        if e3 > room {
            break;
        }
        acc = multiply_with_strategy(&acc, &a, &rlk);
        am = neg_mul(&am, &m1, c.t);
        ae = e3;
        depth += 1;
        chk(&acc, &am, &ae, "repeated product")?;
        cx.eval(am.iter().any(|x| *x != 0), &(c.desc(), lv, &am, depth));
    }
    cx.event(&format!("depth {}", depth));
    // Three components times two.
    let e4 = mul_noise(&c, &e, &e2, 3, 2);
    if e4 <= room {
        let p3 = &p * &b;
        ensure!(p3.cts.len() == 4, "3x2 product has {} components", p3.cts.len());
        chk(&p3, &neg_mul(&neg_mul(&m1, &m2, c.t), &m2, c.t), &e4, "3x2 product")?;
        cx.event("3x2 product");
    }
    cx.sample(|| format!("{} level={} m1={:?} m2={:?}", c.desc(), lv, &m1[..8], &m2[..8]));
    Ok(())
}
pub fn c06() -> Prop {
    Prop {
        id: "C06",
        quick: 350,
        thorough: 8000,
        rule: "case = parameter set x level x key x two messages (fresh or crafted ciphertexts); products with and without relinearisation, repeated while the worst-case noise fits. Non-trivial: product not zero. Oracle: negacyclic product mod t, and a worst-case noise bound.",
        kinds: vec![Kind { name: "product", weight: 1, f: mul_case }],
    }
}

// ---------------------------------------------------------------- C07

fn galois_case(cx: &mut Cx) -> R {
    let c = cfg_mixed(cx, &MEDIUM);
    let lv = level(cx, &c, 2);
    let e_ct = c.fresh();
    let bound = c.ks(lv) + &e_ct;
    if bound > c.room(lv) {
        cx.event("skipped: noise budget");
        return Ok(());
    }
    let sk = secret(cx, &c);
    let q = c.big(lv);
    let two_n = 2 * c.n;
    let ks: Vec<usize> = if c.n <= 16 && cx.rng.gen_range(0..4) == 0 {
        (0..c.n).map(|i| 2 * i + 1).collect()
    } else {
        let mut v = vec![1, 3, c.n + 1, two_n - 1, c.n / 2 + 1];
        v.push(2 * cx.rng.gen_range(0..c.n) + 1);
        // exponents are taken mod 2N
        v.push(2 * cx.rng.gen_range(0..20 * c.n) + 1);
        let a = cx.rng.gen_range(0..v.len());
        vec![v[a], v[5], v[6]]
    };
    for k in ks {
        let m = vals(&mut cx.rng, c.n, c.t);
        let (ct, e) = ciphertext(cx, &c, lv, &sk, &m, &e_ct);
        let gk = GaliosKey::new(&sk, &Substitution::new(&c.ctx(lv), k), lv);
        let r = gk.relinearize(&ct);
        ensure!(r.cts.len() == 2 && r.level == lv, "result has {} components, level {}", r.cts.len(), r.level);
        let want = subst(&m, k, c.t);
        let got = decrypt(&sk, &r);
        ensure!(got == want, "X -> X^{} on {:?} at level {} decrypts to {:?}, expected {:?}; {}", k, m, lv, got, want, c.desc());
        let nn = noise_num(&phase(&r.cts, &sk.coeffs)?, &want, &q, c.t);
        ensure!(nn <= (c.ks(lv) + e) * c.t, "automorphism noise {} bits exceeds the bound", nn.bits());
        cx.eval(m[1..].iter().any(|x| *x != 0) && k % two_n != 1, &(c.desc(), lv, k % two_n, &m));
        cx.event(&format!("N={} level={} of {}", c.n, lv, c.q.len()));
        cx.sample(|| format!("{} level={} k={} m={:?}", c.desc(), lv, k, &m[..8]));
    }
    Ok(())
}
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        quick: 700,
        thorough: 16000,
        rule: "case = parameter set x level x key x odd exponent (all of them for small N, also beyond 2N) x message. Non-trivial: the automorphism moves some coefficient. Oracle: coefficient-wise substitution mod t, worst-case noise bound.",
        kinds: vec![Kind { name: "automorphism", weight: 1, f: galois_case }],
    }
}

// ---------------------------------------------------------------- C08

fn ksk_rows(c: &Cfg, ksk: &Ksk, s: &[i64], from: &[BigUint], ct_level: usize, ksk_level: usize) -> R {
    let crt_ct = Crt::new(c.ql(ct_level));
    let qk = c.big(ksk_level);
    ensure!(ksk.c0.len() == c.ql(ct_level).len() && ksk.c1.len() == ksk.c0.len(), "{} key rows for {} moduli", ksk.c0.len(), c.ql(ct_level).len());
    for i in 0..ksk.c0.len() {
        // the i-th CRT basis element of the ciphertext modulus
        let mut r = vec![0u64; crt_ct.q.len()];
        r[i] = 1;
        let g = crt_ct.lift(&r);
        let want: Vec<BigInt> = from.iter().map(|f| BigInt::from(f * &g)).collect();
        let d = dist(&phase(&[ksk.c0[i].clone(), ksk.c1[i].clone()], s)?, &want, &qk);
        ensure!(d <= bu(s_max(c)), "key row {} is off its gadget multiple by {} bits", i, d.bits());
    }
    Ok(())
}
fn ksk_case(cx: &mut Cx) -> R {
    let c = cfg_mixed(cx, &GENERAL);
    let sk = secret(cx, &c);
    // the key may live at a level with at least the ciphertext's moduli
    let ct_level = level(cx, &c, 1);
    let ksk_level = if cx.rng.gen_range(0..3) == 0 { cx.rng.gen_range(0..=ct_level) } else { ct_level };
    let crt_k = Crt::new(c.ql(ksk_level));
    let crt_c = Crt::new(c.ql(ct_level));
    let from = crt_vals(&mut cx.rng, c.n, &crt_k);
    let fp = poly_from_big(&c.ctx(ksk_level), &from, true);
    let ksk = Ksk::new(&sk, &fp, ct_level, ksk_level);
    ksk_rows(&c, &ksk, &sk.coeffs, &from, ct_level, ksk_level)?;
    for _ in 0..3 {
        let x = crt_vals(&mut cx.rng, c.n, &crt_c);
        let xp = poly_from_big(&c.ctx(ct_level), &x, false);
        let (c0, c1) = ksk.key_switch(&xp);
        ensure!(c0.context.moduli_64 == crt_c.q && c1.context.moduli_64 == crt_c.q, "key switching changed the modulus");
        let ph = phase(&[c0, c1], &sk.coeffs)?;
        // x * from mod Q_ct, residue by residue
        let xr = rows(&xp)?;
        let mut want = vec![];
        for (i, qi) in crt_c.q.iter().enumerate() {
            let f: Vec<u64> = from.iter().map(|v| low(&(v % *qi))).collect();
            want.push(neg_mul(&xr[i], &f, *qi));
        }
        let want: Vec<BigInt> = lift_rows(&want, &crt_c).into_iter().map(BigInt::from).collect();
        let d = dist(&ph, &want, &crt_c.prod);
        ensure!(d <= c.ks(ct_level), "key switching error {} bits exceeds {} bits (ct level {}, key level {}); {}", d.bits(), c.ks(ct_level).bits(), ct_level, ksk_level, c.desc());
        // vacuous when the noise may cover the whole modulus
        cx.eval(c.ks(ct_level) * 4u64 < crt_c.prod && x.iter().any(|v| !v.is_zero()) && from.iter().any(|v| !v.is_zero()), &(c.desc(), ct_level, ksk_level, hash(&x), hash(&from)));
        cx.event(&format!("moduli={} ct_level={} key_level={}", c.q.len(), ct_level, ksk_level));
    }
    cx.sample(|| format!("{} ct_level={} key_level={}", c.desc(), ct_level, ksk_level));
    Ok(())
}
fn ksk_plain(cx: &mut Cx) -> R {
    let c = cfg_mixed(cx, &MEDIUM);
    let lv = level(cx, &c, 1);
    let sk = secret(cx, &c);
    let m = vals(&mut cx.rng, c.n, c.t);
    let pt = Plaintext::new(&c.params, &m, lv, Encoding::Poly);
    let from = bigs(&pt.to_poly())?;
    let ksk = Ksk::new_with_pt(&sk, &pt, lv, lv);
    ksk_rows(&c, &ksk, &sk.coeffs, &from, lv, lv)?;
    // Switching a small polynomial p yields an encryption of p * m.
    let p: Vec<u64> = (0..c.n).map(|_| cx.rng.gen_range(0..4)).collect();
    let e = c.ks(lv) + bu(2 * 4 * c.n as u64);
    if e <= c.room(lv) {
        let (c0, c1) = ksk.key_switch(&Poly::try_from_vec_u64(&c.ctx(lv), &p));
        let ct = BfvCipherText { params: c.params.clone(), cts: vec![c0, c1], level: lv };
        let got = decrypt(&sk, &ct);
        let want = neg_mul(&m, &p, c.t);
        ensure!(got == want, "key made from {:?} applied to {:?} decrypts to {:?}", m, p, got);
        cx.eval(want.iter().any(|v| *v != 0), &(c.desc(), lv, &m, &p));
    }
    // Rows taken as ciphertexts assemble into the same key.
    let rl: Vec<BfvCipherText> = ksk.c0.iter().zip(ksk.c1.iter()).map(|(a, b)| BfvCipherText { params: c.params.clone(), cts: vec![a.clone(), b.clone()], level: lv }).collect();
    let again = Ksk::try_from_decomposed_rlwes(&c.params, &rl);
    let crt = Crt::new(c.ql(lv));
    let x = poly_from_big(&c.ctx(lv), &crt_vals(&mut cx.rng, c.n, &crt), false);
    ensure!(again.key_switch(&x) == ksk.key_switch(&x), "a key assembled from its rows at level {} behaves differently", lv);
    cx.event("assembled from rows");
    Ok(())
}
/// Galois and relinearisation keys are key-switching keys of the right secrets.
fn ksk_derived(cx: &mut Cx) -> R {
    let c = cfg_mixed(cx, &MEDIUM);
    let lv = level(cx, &c, 2);
    let sk = secret(cx, &c);
    let s: Vec<i64> = sk.coeffs.to_vec();
    let q = c.big(lv);
    let si: Vec<BigInt> = s.iter().map(|x| BigInt::from(*x)).collect();
    let s2: Vec<BigUint> = neg_mul_big(&si, &si).iter().map(|x| modp(x, &q)).collect();
    ksk_rows(&c, relinearization_key_ksk(&RelinearizationKey::new(&sk, lv)), &s, &s2, lv, lv)?;
    let k = 2 * cx.rng.gen_range(0..c.n) + 1;
    let mut sub = vec![BigInt::zero(); c.n];
    for i in 0..c.n {
        let e = (i * k) % (2 * c.n);
        if e < c.n {
            sub[e] += s[i];
        } else {
            sub[e - c.n] -= s[i];
        }
    }
    let sub: Vec<BigUint> = sub.iter().map(|x| modp(x, &q)).collect();
    let gk = GaliosKey::new(&sk, &Substitution::new(&c.ctx(lv), k), lv);
    ksk_rows(&c, galois_key_ksk(&gk), &s, &sub, lv, lv)?;
    cx.eval(true, &(c.desc(), lv, k, &s));
    cx.event("galois and relinearisation key rows");
    Ok(())
}
pub fn c08() -> Prop {
    Prop {
        id: "C08",
        quick: 900,
        thorough: 24000,
        rule: "case = parameter set x ciphertext level x key level x key x source polynomial x hostile inputs (every digit q_i - 1, one-hot, random). Non-trivial: operands not zero and the noise bound is under a quarter of the modulus. Oracle: big-integer product, worst-case noise; every key row is the gadget multiple of the source within the sampling bound.",
        kinds: vec![Kind { name: "switch", weight: 4, f: ksk_case }, Kind { name: "plaintext", weight: 1, f: ksk_plain }, Kind { name: "derived", weight: 1, f: ksk_derived }],
    }
}

// ---------------------------------------------------------------- C09

fn ct_of(c: &Cfg, p: (Poly, Poly), lv: usize) -> BfvCipherText {
    BfvCipherText { params: c.params.clone(), cts: vec![p.0, p.1], level: lv }
}
fn ext_case(cx: &mut Cx) -> R {
    let c = cfg_mixed(cx, &MEDIUM);
    let lv = level(cx, &c, 2);
    let q = c.big(lv);
    let n = c.n as u64;
    let sk = secret(cx, &c);
    let ctx = c.ctx(lv);
    // the RGSW message: bits, small, mod t, or signed small
    let style = cx.rng.gen_range(0..4);
    let (rgsw, g): (RgswCt, Vec<i64>) = match style {
        0 => {
            let b = cx.rng.gen_range(0..2u64);
            let pt = Plaintext::new(&c.params, &vec![b], lv, Encoding::Poly);
            let mut g = vec![0i64; c.n];
            g[0] = b as i64;
            (RgswCt::encrypt(&sk, &pt), g)
        }
        1 => {
            let v = vals(&mut cx.rng, c.n, c.t);
            let pt = Plaintext::new(&c.params, &v, lv, Encoding::Poly);
            (RgswCt::encrypt(&sk, &pt), v.iter().map(|x| *x as i64).collect())
        }
        2 => {
            let g: Vec<i64> = (0..c.n).map(|_| cx.rng.gen_range(-3..=3)).collect();
            let mut p = Poly::try_from_vec_i64(&ctx, &g);
            p.change_representation(Representation::Ntt);
            (RgswCt::encrypt_poly(&sk, &p), g)
        }
        _ => {
            // a monomial
            let mut g = vec![0i64; c.n];
            g[cx.rng.gen_range(0..c.n)] = if cx.rng.gen() { 1 } else { -1 };
            let mut p = Poly::try_from_vec_i64(&ctx, &g);
            p.change_representation(Representation::Ntt);
            (RgswCt::encrypt_poly(&sk, &p), g)
        }
    };
    // rows
    let gb: Vec<BigInt> = g.iter().map(|x| BigInt::from(*x)).collect();
    let si: Vec<BigInt> = sk.coeffs.iter().map(|x| BigInt::from(*x)).collect();
    let up: Vec<BigUint> = neg_mul_big(&si, &gb).iter().map(|x| modp(x, &q)).collect();
    let lo: Vec<BigUint> = gb.iter().map(|x| modp(x, &q)).collect();
    ksk_rows(&c, &rgsw.ksk0, &sk.coeffs, &up, lv, lv)?;
    ksk_rows(&c, &rgsw.ksk1, &sk.coeffs, &lo, lv, lv)?;
    let gmax = g.iter().map(|x| x.unsigned_abs()).max().unwrap();
    let gl1: u128 = g.iter().map(|x| x.unsigned_abs() as u128).sum();
    let m = vals(&mut cx.rng, c.n, c.t);
    let room = c.room(lv);
    let ks2 = c.ks(lv) * 2u64;
    let mut e = c.fresh();
    if &ks2 + &e * gl1 > room {
        cx.event("skipped: noise budget");
        return Ok(());
    }
    if cx.rng.gen_range(0..3) == 0 && gl1 > 0 {
        e = (&room - &ks2) / gl1;
    }
    let (mut ct, mut e) = ciphertext(cx, &c, lv, &sk, &m, &e);
    let mut want = m.clone();
    let mut depth = 0;
    // chain
    loop {
        let e2 = &e * gl1 + &ks2;
        if e2 > room || depth == 4 {
            break;
        }
        ct = ct_of(&c, RgswCt::external_product(&rgsw, &ct), lv);
        want = neg_mul_small(&want, &g, c.t);
        e = e2;
        depth += 1;
        let got = decrypt(&sk, &ct);
        ensure!(got == want, "external product #{} of {:?} with {:?} at level {} decrypts to {:?}, expected {:?}; {}", depth, m, g, lv, got, want, c.desc());
        let nn = noise_num(&phase(&ct.cts, &sk.coeffs)?, &want, &q, c.t);
        ensure!(nn <= &e * c.t, "external product noise {} bits exceeds {} bits", (nn / c.t).bits(), e.bits());
        cx.eval(gmax > 0 && m.iter().any(|x| *x != 0), &(c.desc(), lv, &m, &g, depth));
        cx.event(&format!("product style={} level={}", style, lv));
    }
    let _ = n;
    cx.sample(|| format!("{} level={} rgsw message={:?} depth={}", c.desc(), lv, &g[..8], depth));
    Ok(())
}
/// An RGSW ciphertext assembled by the server from encryptions of the gadget
/// multiples of a bit and the encrypted secret key.
fn ext_assembled(cx: &mut Cx) -> R {
    let c = cfg(cx, &PIR);
    let lv = 0;
    let q = c.big(lv);
    let n = c.n as u64;
    let sk = secret(cx, &c);
    let ctx = c.ctx(lv);
    let mut sp = Poly::try_from_vec_i64(&ctx, &sk.coeffs);
    sp.change_representation(Representation::Ntt);
    let sk_rgsw = RgswCt::encrypt_poly(&sk, &sp);
    let crt = Crt::new(c.ql(lv));
    let g: Vec<i64> = if cx.rng.gen() {
        let mut g = vec![0; c.n];
        g[0] = cx.rng.gen_range(0..2);
        g
    } else {
        (0..c.n).map(|_| cx.rng.gen_range(-1..=1)).collect()
    };
    let gl1: u128 = g.iter().map(|x| x.unsigned_abs() as u128).sum();
    let lower: Vec<BfvCipherText> = (0..crt.q.len())
        .map(|i| {
            let mut r = vec![0u64; crt.q.len()];
            r[i] = 1;
            let gi = crt.lift(&r);
            let v: Vec<BigUint> = g.iter().map(|x| modp(&(BigInt::from(gi.clone()) * x), &q)).collect();
            sk.encrypt_poly(&poly_from_big(&ctx, &v, true))
        })
        .collect();
    let upper: Vec<BfvCipherText> = lower.iter().map(|ct| ct_of(&c, RgswCt::external_product(&sk_rgsw, ct), lv)).collect();
    let rgsw = RgswCt::try_from_ksks(&Ksk::try_from_decomposed_rlwes(&c.params, &upper), &Ksk::try_from_decomposed_rlwes(&c.params, &lower));
    let sq = c.q.iter().fold(BigUint::zero(), |a, b| a + *b);
    let e_low = bu(s_max(&c));
    let e_up = &e_low * (n * s_max(&c)) + c.ks(0) * 2u64;
    let e = c.fresh() * gl1 + (&e_low + &e_up) * n * sq;
    if e > c.room(lv) {
        cx.event("skipped: noise budget");
        return Ok(());
    }
    let m = vals(&mut cx.rng, c.n, c.t);
    let (ct, _) = ciphertext(cx, &c, lv, &sk, &m, &c.fresh());
    let out = ct_of(&c, RgswCt::external_product(&rgsw, &ct), lv);
    let want = neg_mul_small(&m, &g, c.t);
    let got = decrypt(&sk, &out);
    ensure!(got == want, "assembled RGSW of {:?} times {:?} decrypts to {:?}; {}", g, m, got, c.desc());
    let nn = noise_num(&phase(&out.cts, &sk.coeffs)?, &want, &q, c.t);
    ensure!(nn <= &e * c.t, "assembled external product noise {} bits exceeds {} bits", nn.bits(), (e * c.t).bits());
    cx.eval(gl1 > 0 && m.iter().any(|x| *x != 0), &(c.desc(), &m, &g));
    cx.event("assembled");
    Ok(())
}
pub fn c09() -> Prop {
    Prop {
        id: "C09",
        quick: 600,
        thorough: 14000,
        rule: "case = parameter set x level x key x RGSW message (bit, mod-t, signed, monomial) x ciphertext (fresh, or noisy up to the budget), chained up to 4 products; and RGSW ciphertexts assembled from encrypted gadget multiples plus the encrypted key. Non-trivial: neither operand zero. Oracle: negacyclic product mod t and worst-case noise; key rows checked against the gadget.",
        kinds: vec![Kind { name: "external", weight: 3, f: ext_case }, Kind { name: "assembled", weight: 1, f: ext_assembled }],
    }
}

pub fn shared_server(cx: &mut Cx, c: &Cfg, rows: usize) -> (Shape, Vec<Plaintext>, Arc<VpServer>) {
    let s = shape(cx, c, rows);
    let db = make_db(cx, c, s.rows());
    let server = Arc::new(VpServer::new(s.first, s.dim, &db, &c.params));
    (s, db, server)
}
