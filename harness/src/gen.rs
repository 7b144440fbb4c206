//! Workload generation: parameter pools, hostile values, hostile ciphertexts.
use crate::model::*;
use crate::run::{hash, mix, Cx, Tier};
use num_bigint::{BigInt, BigUint, RandBigInt};
use num_traits::{One, Zero};
use onion_pir::vp_hooks::*;
use rand::seq::SliceRandom;
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const BD: BitDecomposition = BitDecomposition { base: 4, l: 8 };

/// A random prime of exactly `bits` bits, = 1 mod `step`, not in `avoid`.
pub fn ntt_prime(rng: &mut impl Rng, bits: usize, step: u64, avoid: &[u64]) -> Option<u64> {
    let lo = 1u64 << (bits - 1);
    let hi = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let kmin = lo / step;
    let kmax = (hi - 1) / step;
    if kmax < kmin {
        return None;
    }
    let k0 = match rng.gen_range(0..6) {
        0 => kmin,
        1 => kmax,
        _ => rng.gen_range(kmin..=kmax),
    };
    let up = k0 == kmin || (k0 != kmax && rng.gen());
    let mut k = k0;
    for _ in 0..=(kmax - kmin).min(20000) {
        let p = k * step + 1;
        if p >= lo && p <= hi && !avoid.contains(&p) && prime(p) {
            return Some(p);
        }
        k = if up {
            if k == kmax { kmin } else { k + 1 }
        } else if k == kmin {
            kmax
        } else {
            k - 1
        };
    }
    None
}

pub struct Cfg {
    pub n: usize,
    pub t: u64,
    pub q: Vec<u64>,
    pub v: usize,
    pub params: Arc<BfvParameters>,
}
impl Cfg {
    pub fn new(n: usize, t: u64, q: Vec<u64>, v: usize) -> Cfg {
        let params = Arc::new(BfvParameters::new(n, t, q.clone(), v, BD));
        Cfg { n, t, q, v, params }
    }
    pub fn levels(&self) -> usize {
        self.q.len()
    }
    pub fn ql(&self, level: usize) -> &[u64] {
        &self.q[..self.q.len() - level]
    }
    pub fn big(&self, level: usize) -> BigUint {
        product(self.ql(level))
    }
    pub fn ctx(&self, level: usize) -> Arc<RqContext> {
        self.params.q_ctxs[level].clone()
    }
    /// bound on key-switching noise: N * 2v * sum(q_i), whatever the input
    pub fn ks(&self, level: usize) -> BigUint {
        let s = self.ql(level).iter().fold(BigUint::zero(), |a, b| a + *b);
        s * (self.n as u64) * (2 * self.v as u64)
    }
    /// bound on fresh encryption noise
    pub fn fresh(&self) -> BigUint {
        BigUint::from(2 * self.v as u64 + 2)
    }
    /// decryption is determined for noise <= this: Q/2t, less the 2^-40 part
    /// of it within which the fixed-point rounding may go either way
    pub fn room(&self, level: usize) -> BigUint {
        let r = self.big(level) / (2 * self.t);
        let r = &r - (&r >> 40);
        if r > BigUint::from(4u64) {
            r - 4u64
        } else {
            BigUint::zero()
        }
    }
    pub fn desc(&self) -> String {
        format!("N={} t={} q={:?} variance={}", self.n, self.t, self.q, self.v)
    }
}

pub struct Class {
    pub name: &'static str,
    pub ns: &'static [usize],
    pub moduli: std::ops::RangeInclusive<usize>,
    pub bits: std::ops::RangeInclusive<usize>,
    /// plaintext modulus bits
    pub tbits: std::ops::RangeInclusive<usize>,
    pub pool: usize,
}

pub static GENERAL: Class = Class { name: "general", ns: &[8, 8, 16, 16, 32, 64, 128], moduli: 1..=8, bits: 24..=62, tbits: 5..=22, pool: 40 };
pub static MEDIUM: Class = Class { name: "medium", ns: &[8, 16, 16, 32, 64], moduli: 2..=5, bits: 40..=62, tbits: 5..=21, pool: 24 };
pub static MULT: Class = Class { name: "mult", ns: &[8, 16, 32, 64], moduli: 3..=6, bits: 50..=62, tbits: 5..=20, pool: 24 };
pub static PIR: Class = Class { name: "pir", ns: &[8, 16, 16, 32, 32, 64], moduli: 4..=5, bits: 55..=62, tbits: 5..=21, pool: 16 };
pub static LARGE: Class = Class { name: "large", ns: &[256, 512, 1024, 2048], moduli: 2..=4, bits: 40..=62, tbits: 13..=21, pool: 5 };
/// Degrees of deployed parameter sets.
pub static HUGE: Class = Class { name: "huge", ns: &[4096, 8192], moduli: 2..=3, bits: 45..=62, tbits: 15..=30, pool: 3 };
/// Degrees whose exponents leave 16 bits.
pub static GIANT: Class = Class { name: "giant", ns: &[16384, 65536, 32768], moduli: 1..=2, bits: 45..=62, tbits: 19..=34, pool: 3 };
/// Long modulus chains: sums over the chain leave a machine word's headroom.
pub static MANY: Class = Class { name: "many", ns: &[8, 16], moduli: 9..=30, bits: 50..=62, tbits: 5..=20, pool: 4 };
/// Plaintext moduli beyond 32 bits.
pub static WIDE: Class = Class { name: "wide", ns: &[8, 16, 32], moduli: 1..=5, bits: 56..=62, tbits: 23..=58, pool: 16 };
/// Moduli and plaintext moduli near the small end of what the transform allows.
pub static SMALL: Class = Class { name: "small", ns: &[8, 8, 16, 32], moduli: 1..=8, bits: 12..=28, tbits: 5..=9, pool: 16 };
pub static TINY: Class = Class { name: "tiny", ns: &[8], moduli: 4..=4, bits: 55..=62, tbits: 5..=10, pool: 1 };

fn pool() -> &'static Mutex<HashMap<(u64, &'static str, usize), Arc<OnceLock<Arc<Cfg>>>>> {
    static P: OnceLock<Mutex<HashMap<(u64, &'static str, usize), Arc<OnceLock<Arc<Cfg>>>>>> = OnceLock::new();
    P.get_or_init(|| Mutex::new(HashMap::new()))
}

/// The `idx`-th parameter set of a class: a function of the run's seed.
pub fn cfg_at(seed: u64, class: &'static Class, idx: usize) -> Arc<Cfg> {
    let cell = pool().lock().unwrap().entry((seed, class.name, idx)).or_default().clone();
    cell.get_or_init(|| {
        let mut rng = ChaCha8Rng::seed_from_u64(mix(mix(seed, hash(&class.name)), idx as u64));
        Arc::new(make_cfg(&mut rng, class, idx))
    })
    .clone()
}
pub fn cfg(cx: &mut Cx, class: &'static Class) -> Arc<Cfg> {
    if cx.tier == Tier::Tiny {
        return cfg_at(0, &TINY, 0);
    }
    let class = if class.name == "general" {
        match cx.rng.gen_range(0..200) {
            0 => &MANY,
            1..=20 => &WIDE,
            21..=36 => &SMALL,
            _ => class,
        }
    } else {
        class
    };
    let pool = if cx.tier == Tier::Thorough { class.pool * 4 } else { class.pool };
    let idx = cx.rng.gen_range(0..pool);
    cfg_at(cx.seed, class, idx)
}

/// As `cfg`, with a large degree, a long chain or a wide plaintext modulus now
/// and then.
pub fn cfg_mixed(cx: &mut Cx, class: &'static Class) -> Arc<Cfg> {
    if cx.tier != Tier::Tiny {
        let other = match cx.rng.gen_range(0..6000) {
            0..=19 => Some(&LARGE),
            20..=49 => Some(&MANY),
            50..=349 => Some(&WIDE),
            350..=549 => Some(&SMALL),
            550 => Some(&HUGE),
            _ => None,
        };
        if let Some(o) = other {
            let c = cfg(cx, o);
            // key switching over one modulus is not offered
            if c.levels() >= 2 || *class.moduli.start() < 2 {
                return c;
            }
        }
    }
    cfg(cx, class)
}

/// A large degree, now and then a very large one.
pub fn large(cx: &mut Cx) -> Arc<Cfg> {
    let class = match cx.rng.gen_range(0..200) {
        0 => &HUGE,
        1 => &GIANT,
        _ => &LARGE,
    };
    cfg(cx, class)
}

/// As `cfg` over the general class, with a large degree now and then.
pub fn general(cx: &mut Cx) -> Arc<Cfg> {
    if cx.tier != Tier::Tiny && cx.rng.gen_range(0..300) == 0 {
        large(cx)
    } else {
        cfg(cx, &GENERAL)
    }
}
fn make_cfg(rng: &mut ChaCha8Rng, class: &Class, idx: usize) -> Cfg {
    loop {
        let n = class.ns[if idx < class.ns.len() { idx } else { rng.gen_range(0..class.ns.len()) }];
        let step = 2 * n as u64;
        let l = if rng.gen_range(0..4) == 0 { *class.moduli.end() } else { rng.gen_range(class.moduli.clone()) };
        let mut q = vec![];
        let uniform_bits = rng.gen::<bool>().then(|| match rng.gen_range(0..3) {
            0 => *class.bits.end(),
            _ => rng.gen_range(class.bits.clone()),
        });
        for _ in 0..l {
            let b = uniform_bits.unwrap_or_else(|| rng.gen_range(class.bits.clone()));
            if let Some(p) = ntt_prime(rng, b, step, &q) {
                q.push(p);
            }
        }
        if q.len() != l {
            continue;
        }
        let tmin = (*class.tbits.start()).max(step.ilog2() as usize + 1);
        let tmax = *class.tbits.end();
        let qmin = *q.iter().min().unwrap();
        let tight = (class.name == "wide" || class.name == "small") && idx % 4 == 1;
        let mut t = None;
        for _ in 0..20 {
            // now and then as close to the smallest modulus as it may be
            let b = if tight { 64 - qmin.leading_zeros() as usize } else { rng.gen_range(tmin..=tmax.max(tmin)) };
            if let Some(p) = ntt_prime(rng, b, step, &q) {
                if p < qmin {
                    t = Some(p);
                    break;
                }
            }
        }
        let Some(t) = t else { continue };
        let v = match rng.gen_range(0..6) {
            0 => 1,
            1 => 16,
            2 => 10,
            _ => rng.gen_range(1..=16),
        };
        return Cfg::new(n, t, q, v);
    }
}

/// A residue mod p, biased to the ends and to powers of two.
pub fn val(rng: &mut impl Rng, p: u64) -> u64 {
    match rng.gen_range(0..12) {
        0 => 0,
        1 => 1 % p,
        2 => p - 1,
        3 => (p - 1).saturating_sub(1),
        4 => p / 2,
        5 => (p / 2 + 1) % p,
        6 => (1u64 << rng.gen_range(0..63)) % p,
        7 => ((1u64 << rng.gen_range(0..63)) - 1) % p,
        8 => p - 1 - ((1u64 << rng.gen_range(0..63)) % p),
        _ => rng.gen_range(0..p),
    }
}
pub fn vals(rng: &mut impl Rng, n: usize, p: u64) -> Vec<u64> {
    match rng.gen_range(0..12) {
        0 => vec![0; n],
        1 => vec![p - 1; n],
        2 => {
            let mut v = vec![0; n];
            v[rng.gen_range(0..n)] = 1 + rng.gen_range(0..p - 1);
            v
        }
        3 => {
            let mut v = vec![p - 1; n];
            v[rng.gen_range(0..n)] = 0;
            v
        }
        4 => (0..n).map(|i| if i % 2 == 0 { p - 1 } else { 0 }).collect(),
        5 => (0..n).map(|i| i as u64 % p).collect(),
        6 => {
            let mut v = vec![0; n];
            let i = if rng.gen() { 0 } else { n - 1 };
            v[i] = val(rng, p);
            v
        }
        7 | 8 => (0..n).map(|_| val(rng, p)).collect(),
        9 => {
            let x = rng.gen_range(0..p);
            vec![x; n]
        }
        _ => (0..n).map(|_| rng.gen_range(0..p)).collect(),
    }
}
pub fn big_val(rng: &mut impl Rng, q: &BigUint) -> BigUint {
    let b = q.bits();
    match rng.gen_range(0..10) {
        0 => BigUint::zero(),
        1 => BigUint::one() % q,
        2 => q - 1u64,
        3 => q >> 1,
        4 => ((q >> 1) + 1u64) % q,
        5 => (BigUint::one() << rng.gen_range(0..b)) % q,
        6 => ((BigUint::one() << rng.gen_range(0..b)) - 1u64) % q,
        _ => rng.gen_biguint_below(q),
    }
}
pub fn big_vals(rng: &mut impl Rng, n: usize, q: &BigUint) -> Vec<BigUint> {
    match rng.gen_range(0..8) {
        0 => vec![q - 1u64; n],
        1 => {
            let mut v = vec![BigUint::zero(); n];
            v[rng.gen_range(0..n)] = big_val(rng, q);
            v
        }
        2 | 3 => (0..n).map(|_| big_val(rng, q)).collect(),
        4 => {
            let x = big_val(rng, q);
            vec![x; n]
        }
        _ => (0..n).map(|_| rng.gen_biguint_below(q)).collect(),
    }
}
/// Integers whose residues are hostile modulus by modulus (all q_i - 1, ...).
pub fn crt_vals(rng: &mut impl Rng, n: usize, crt: &Crt) -> Vec<BigUint> {
    match rng.gen_range(0..3) {
        0 => big_vals(rng, n, &crt.prod),
        _ => {
            let rows: Vec<Vec<u64>> = crt.q.iter().map(|q| vals(rng, n, *q)).collect();
            lift_rows(&rows, crt)
        }
    }
}

pub fn poly_from_big(ctx: &Arc<RqContext>, v: &[BigUint], ntt: bool) -> Poly {
    let mut p = Poly::try_from_bigint(ctx, v);
    if ntt {
        p.change_representation(Representation::Ntt);
    }
    p
}

/// A secret key: usually generated by the code, sometimes hostile (extreme but
/// within what key generation can produce).
pub fn secret(cx: &mut Cx, c: &Cfg) -> SecretKey {
    let m = 2 * c.v as i64;
    let n = c.n;
    match cx.rng.gen_range(0..10) {
        0 => SecretKey::new(vec![m; n], &c.params),
        1 => SecretKey::new((0..n).map(|i| if i % 2 == 0 { m } else { -m }).collect(), &c.params),
        2 => {
            let mut s = vec![0; n];
            s[cx.rng.gen_range(0..n)] = if cx.rng.gen() { m } else { -m };
            SecretKey::new(s, &c.params)
        }
        3 => SecretKey::new(vec![-m; n], &c.params),
        _ => SecretKey::generate(&c.params),
    }
}

/// A ciphertext with chosen c1 and chosen noise: c0 = round(Q m / t) + e - c1 s.
pub fn craft(c: &Cfg, level: usize, s: &[i64], m: &[u64], e: &[BigInt], c1: &[BigUint]) -> BfvCipherText {
    let ctx = c.ctx(level);
    let q = c.ql(level);
    let crt = Crt::new(q);
    let mut c0rows = vec![];
    for &qi in q {
        let c1r: Vec<u64> = c1.iter().map(|x| low(&(x % qi))).collect();
        let prod = neg_mul_small(&c1r, s, qi);
        let bq = BigUint::from(qi);
        let d: Vec<u64> = m
            .iter()
            .zip(e)
            .map(|(mi, ei)| low(&modp(&(BigInt::from(delta_m(*mi, &crt.prod, c.t)) + ei), &bq)))
            .collect();
        c0rows.push(subv(&d, &prod, qi));
    }
    let c0 = lift_rows(&c0rows, &crt);
    BfvCipherText {
        params: c.params.clone(),
        cts: vec![poly_from_big(&ctx, &c0, true), poly_from_big(&ctx, c1, true)],
        level,
    }
}
pub fn low(x: &BigUint) -> u64 {
    let d = x.to_u64_digits();
    if d.is_empty() { 0 } else { d[0] }
}

/// An encryption of `m` at `level` and a bound on its noise: fresh, or crafted
/// with hostile c1 and noise of up to `budget`.
pub fn ciphertext(cx: &mut Cx, c: &Cfg, level: usize, sk: &SecretKey, m: &[u64], budget: &BigUint) -> (BfvCipherText, BigUint) {
    if cx.rng.gen_range(0..3) > 0 || *budget < BigUint::from(4u64) {
        let pt = Plaintext::new(&c.params, &m.to_vec(), level, Encoding::Poly);
        (sk.encrypt(&pt), c.fresh())
    } else {
        let crt = Crt::new(c.ql(level));
        let mut c1 = crt_vals(&mut cx.rng, c.n, &crt);
        let b = budget - 2u64;
        let mut e: Vec<BigInt> = (0..c.n).map(|_| signed_below(&mut cx.rng, &b)).collect();
        match cx.rng.gen_range(0..10) {
            // transparent: the message in the clear
            0 | 1 => {
                c1 = vec![BigUint::zero(); c.n];
                e = vec![BigInt::zero(); c.n];
            }
            2 => c1 = vec![BigUint::zero(); c.n],
            // fixed by every automorphism
            3 => {
                let x = big_val(&mut cx.rng, &crt.prod);
                c1 = vec![BigUint::zero(); c.n];
                c1[0] = x;
            }
            4 => e = vec![BigInt::zero(); c.n],
            // all in the second component
            6 => {
                if let Some(ct) = with_first(c, level, sk, m, &e, &Poly::zero(&c.ctx(level), Representation::Ntt)) {
                    return (ct, budget.clone());
                }
            }
            // zero modulo one of the moduli
            5 => {
                let qi = *pick(&mut cx.rng, &crt.q);
                c1 = c1.iter().map(|x| x - x % qi).collect();
            }
            _ => {}
        }
        (craft(c, level, &sk.coeffs, m, &e, &c1), budget.clone())
    }
}
/// A ciphertext with a given first component, if the secret key is invertible.
pub fn with_first(c: &Cfg, level: usize, sk: &SecretKey, m: &[u64], e: &[BigInt], c0: &Poly) -> Option<BfvCipherText> {
    let mut ct = craft(c, level, &sk.coeffs, m, e, &vec![BigUint::zero(); c.n]);
    let want = phase(&ct.cts, &sk.coeffs).ok()?;
    let mut s = Poly::try_from_vec_i64(&c.ctx(level), &sk.coeffs);
    s.change_representation(Representation::Ntt);
    if s.coefficients().iter().any(|x| *x == 0) {
        return None;
    }
    let mut d = ct.cts[0].clone();
    d.change_representation(Representation::Ntt);
    let c1 = &(&d - c0) * &s.inverse();
    ct.cts = vec![c0.clone(), c1];
    (phase(&ct.cts, &sk.coeffs).ok()? == want).then_some(ct)
}
/// A ciphertext of `m` that shares its first or second component with `a`.
pub fn sibling(cx: &mut Cx, c: &Cfg, level: usize, sk: &SecretKey, a: &BfvCipherText, m: &[u64], budget: &BigUint) -> Option<BfvCipherText> {
    let b = budget - 2u64;
    let e: Vec<BigInt> = (0..c.n).map(|_| signed_below(&mut cx.rng, &b)).collect();
    if cx.rng.gen() {
        with_first(c, level, sk, m, &e, &a.cts[0])
    } else {
        let c1 = lift_rows(&rows(&a.cts[1]).ok()?, &Crt::new(c.ql(level)));
        Some(craft(c, level, &sk.coeffs, m, &e, &c1))
    }
}
pub fn signed_below(rng: &mut impl Rng, b: &BigUint) -> BigInt {
    let x = match rng.gen_range(0..4) {
        0 => b.clone(),
        1 => BigUint::zero(),
        _ => rng.gen_biguint_below(&(b + 1u64)),
    };
    if rng.gen() {
        BigInt::from(x)
    } else {
        -BigInt::from(x)
    }
}

pub fn pick<'a, T>(rng: &mut impl Rng, v: &'a [T]) -> &'a T {
    v.choose(rng).unwrap()
}
pub fn seed32(rng: &mut impl RngCore) -> [u8; 32] {
    let mut s = [0u8; 32];
    rng.fill_bytes(&mut s);
    s
}
pub fn decrypt(sk: &SecretKey, ct: &BfvCipherText) -> Vec<u64> {
    sk.decrypt(ct).values.to_vec()
}
/// level for an operation that needs at least `min` moduli
pub fn level(cx: &mut Cx, c: &Cfg, min: usize) -> usize {
    let max = c.levels().saturating_sub(min);
    match cx.rng.gen_range(0..4) {
        0 => 0,
        1 => max,
        _ => cx.rng.gen_range(0..=max),
    }
}
/// A message that is zero except at some multiples of a power of two, shifted.
pub fn sparse(cx: &mut Cx, n: usize, t: u64) -> Vec<u64> {
    let step = 1usize << cx.rng.gen_range(0..=n.ilog2());
    let off = if cx.rng.gen() { 0 } else { cx.rng.gen_range(0..step) };
    (0..n).map(|i| if i % step == off { val(&mut cx.rng, t) } else { 0 }).collect()
}
