//! C10-C16, C20, C24: arithmetic under the schemes.
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use ndarray::Array1;
use num_bigint::{BigInt, BigUint, RandBigInt};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use onion_pir::vp_hooks::*;
use rand::Rng;
use std::sync::Arc;

fn bu(x: u64) -> BigUint {
    BigUint::from(x)
}

// ---------------------------------------------------------------- C12

/// A modulus in [2, 2^62): any, prime, or next to a power of two.
pub fn any_modulus(rng: &mut impl Rng) -> u64 {
    let top = (1u64 << 62) - 1;
    let p = match rng.gen_range(0..10) {
        0 => *pick(rng, &[2u64, 3, 4, 5, 7, top, top - 1, 1 << 61, (1 << 61) - 1, (1 << 61) + 1]),
        1 => 1u64 << rng.gen_range(1..62),
        2 => (1u64 << rng.gen_range(2..63)) - 1,
        3 => (1u64 << rng.gen_range(1..62)) + 1,
        4 => rng.gen_range(2..200),
        5 => top - rng.gen_range(0..1000),
        _ => {
            let b = rng.gen_range(2..=62);
            rng.gen_range(1u64 << (b - 1)..1u64 << b)
        }
    };
    p.clamp(2, top)
}
pub fn any_prime(rng: &mut impl Rng) -> u64 {
    loop {
        let mut p = any_modulus(rng) | 1;
        for _ in 0..400 {
            if p < 1 << 62 && prime(p) {
                return p;
            }
            p = p.saturating_sub(2).max(3);
        }
    }
}
fn any_u64(rng: &mut impl Rng, p: u64) -> u64 {
    match rng.gen_range(0..10) {
        0 => u64::MAX - rng.gen_range(0..3),
        1 => 1u64 << rng.gen_range(0..64),
        2 => (p as u128 * rng.gen_range(0..=(u64::MAX / p)) as u128) as u64,
        3 => (p as u128 * rng.gen_range(1..=(u64::MAX / p)) as u128 - 1) as u64,
        4 => (2 * p).wrapping_sub(rng.gen_range(0..3)),
        5 => val(rng, p),
        _ => rng.gen(),
    }
}
fn scalar_case(cx: &mut Cx) -> R {
    let p = if cx.rng.gen_range(0..3) == 0 { any_prime(&mut cx.rng) } else { any_modulus(&mut cx.rng) };
    let is_p = prime(p);
    let m = Modulus::new(p);
    ensure!(m.modulus() == p, "modulus() = {} for {}", m.modulus(), p);
    ensure!(m.bits() == (64 - p.leading_zeros()) as u64, "bits() = {} for {}", m.bits(), p);
    let rounds = if cx.tiny() { 4 } else { 60 };
    let mut av = vec![];
    let mut bv = vec![];
    for _ in 0..rounds {
        let (a, b) = (val(&mut cx.rng, p), val(&mut cx.rng, p));
        av.push(a);
        bv.push(b);
        ensure!(m.add(a, b) == addmod(a, b, p), "{} + {} mod {} = {}", a, b, p, m.add(a, b));
        ensure!(m.sub(a, b) == submod(a, b, p), "{} - {} mod {} = {}", a, b, p, m.sub(a, b));
        ensure!(m.mul(a, b) == mulmod(a, b, p), "{} * {} mod {} = {}", a, b, p, m.mul(a, b));
        ensure!(m.neg(a) == submod(0, a, p), "-{} mod {} = {}", a, p, m.neg(a));
        let r = m.pow(a, b);
        ensure!(r == powmod(a, b, p), "{}^{} mod {} = {}", a, b, p, r);
        if is_p && a != 0 {
            let i = m.inv(a);
            ensure!(i < p && mulmod(i, a, p) == 1, "inverse of {} mod {} = {}", a, p, i);
        }
        let x = any_u64(&mut cx.rng, p);
        ensure!(m.reduce(x) == x % p, "{} mod {} = {}", x, p, m.reduce(x));
        let l = m.lazy_reduce_ct(x);
        ensure!(l < 2 * p && l % p == x % p, "lazy reduction of {} mod {} = {}", x, p, l);
        let d = 1 + cx.rng.gen_range(0..2 * p);
        ensure!(Modulus::reduce_ct(d - 1, p) == (d - 1) % p, "conditional subtraction of {} from {}", p, d - 1);
        // Shoup multiplication takes any left operand
        let sh = m.shoup(b);
        ensure!(sh as u128 == ((b as u128) << 64) / p as u128, "Shoup form of {} mod {} = {}", b, p, sh);
        let w = mulmod(x % p, b, p);
        let l = m.lazy_mul_shoup(x, b, sh);
        ensure!(l < 2 * p && l % p == w, "lazy Shoup product {} * {} mod {} = {}", x, b, p, l);
        ensure!(m.mul_shoup(x, b, sh) == w, "Shoup product {} * {} mod {} = {}", x, b, p, m.mul_shoup(x, b, sh));
        // double words below p * 2^64
        let hi = if cx.rng.gen() { val(&mut cx.rng, p) } else { p - 1 };
        let y = ((hi as u128) << 64) | any_u64(&mut cx.rng, p) as u128;
        let l = m.lazy_reduce_u128(y);
        ensure!(l < 2 * p && l % p == (y % p as u128) as u64, "lazy reduction of {} mod {} = {}", y, p, l);
        ensure!(m.reduce_u128(y) == (y % p as u128) as u64, "{} mod {} = {}", y, p, m.reduce_u128(y));
        cx.eval(a > 1 && b > 1, &(p, a, b, x, y));
    }
    cx.events(if is_p { "prime modulus" } else { "composite modulus" }, rounds);
    cx.event(&format!("modulus of {} bits", 64 - p.leading_zeros()));
    cx.sample(|| format!("p={} a={} b={}", p, av[0], bv[0]));
    // vectors
    let mut t = av.clone();
    m.add_vec(&mut t, &bv);
    ensure!(t == addv(&av, &bv, p), "vector sum mod {}", p);
    let mut t = av.clone();
    m.sub_vec(&mut t, &bv);
    ensure!(t == subv(&av, &bv, p), "vector difference mod {}", p);
    let mut t = av.clone();
    m.mul_vec(&mut t, &bv);
    ensure!(t.iter().zip(av.iter().zip(&bv)).all(|(r, (a, b))| *r == mulmod(*a, *b, p)), "vector product mod {}", p);
    ensure!(m.neg_vec(&av).iter().zip(&av).all(|(r, a)| *r == submod(0, *a, p)), "vector negation mod {}", p);
    let k = bv[0];
    let s = m.scalar_mul_vec(&av, k);
    ensure!(s.len() == av.len() && s.iter().zip(&av).all(|(r, a)| r % p == mulmod(*a, k, p)), "scalar product by {} mod {}", k, p);
    ensure!(m.shoup_vec(&av).iter().zip(&av).all(|(r, a)| *r == m.shoup(*a)), "vector Shoup form mod {}", p);
    if is_p {
        let nz: Vec<u64> = av.iter().map(|a| if *a == 0 { 1 } else { *a }).collect();
        ensure!(m.inv_vec(&nz).iter().zip(&nz).all(|(r, a)| *r < p && mulmod(*r, *a, p) == 1), "vector inverse mod {}", p);
    }
    let us: Vec<u64> = (0..rounds).map(|_| any_u64(&mut cx.rng, p)).collect();
    ensure!(m.reduce_vec_u64(&us).iter().zip(&us).all(|(r, a)| *r == a % p), "reduction of u64s mod {}", p);
    let is: Vec<i64> = us.iter().map(|x| *x as i64).chain([i64::MIN, i64::MAX, -1, 0, 1, i64::MIN + 1]).collect();
    for (r, a) in m.reduce_vec_i64(&is).iter().zip(&is) {
        ensure!(*r == (*a as i128).rem_euclid(p as i128) as u64, "{} mod {} = {}", a, p, r);
    }
    let bs: Vec<BigUint> = (0..8).map(|i| cx.rng.gen_biguint(1 + 40 * i)).collect();
    for (r, a) in m.reduce_vec_biguint(&bs).iter().zip(&bs) {
        ensure!(bu(*r) == a % p, "{} mod {} = {}", a, p, r);
        ensure!(m.reduce_biguint(a) == *r, "{} mod {}", a, p);
    }
    Ok(())
}
fn inverse_case(cx: &mut Cx) -> R {
    for _ in 0..40 {
        let q = match cx.rng.gen_range(0..3) {
            0 => cx.rng.gen_range(2..100),
            _ => any_modulus(&mut cx.rng),
        };
        let v = 1 + val(&mut cx.rng, q - 1);
        let got = mod_inverse(v, q);
        ensure!(got == invmod(v, q), "inverse of {} mod {} = {:?}, expected {:?}", v, q, got, invmod(v, q));
        cx.eval(v > 1, &(v, q));
        cx.event(if got.is_some() { "inverse exists" } else { "no inverse" });
    }
    Ok(())
}
/// Every pair of residues for small moduli.
fn scalar_exhaustive(cx: &mut Cx) -> R {
    let p = cx.rng.gen_range(2..64u64);
    let m = Modulus::new(p);
    for a in 0..p {
        for b in 0..p {
            ensure!(m.add(a, b) == (a + b) % p, "{} + {} mod {}", a, b, p);
            ensure!(m.sub(a, b) == (p + a - b) % p, "{} - {} mod {}", a, b, p);
            ensure!(m.mul(a, b) == a * b % p, "{} * {} mod {}", a, b, p);
            ensure!(m.pow(a, b) == powmod(a, b, p), "{}^{} mod {}", a, b, p);
            ensure!(m.mul_shoup(a, b, m.shoup(b)) == a * b % p, "Shoup {} * {} mod {}", a, b, p);
            ensure!(m.neg(a) == (p - a) % p, "-{} mod {}", a, p);
            cx.eval(a > 1 && b > 1, &(p, a, b));
        }
    }
    cx.event("all residue pairs of a small modulus");
    Ok(())
}
pub fn c12() -> Prop {
    Prop {
        id: "C12",
        quick: 6000,
        thorough: 400000,
        rule: "case = modulus in [2, 2^62) (small, powers of two and their neighbours, primes, the top of the range) x operands biased to 0, 1, p-1, p/2, multiples of p and powers of two; all residue pairs for small moduli. Non-trivial: operands above 1. Oracle: 128-bit integer division.",
        kinds: vec![Kind { name: "scalar", weight: 8, f: scalar_case }, Kind { name: "inverse", weight: 1, f: inverse_case }, Kind { name: "exhaustive", weight: 1, f: scalar_exhaustive }],
    }
}

// ---------------------------------------------------------------- C13

fn ntt_at(cx: &mut Cx, n: usize) -> R {
    let min = (2 * n as u64).ilog2() as usize + 1;
    let p = loop {
        let b = match cx.rng.gen_range(0..4) {
            0 => 62,
            1 => cx.rng.gen_range(min..min + 6),
            _ => cx.rng.gen_range(min..=62),
        };
        if let Some(p) = ntt_prime(&mut cx.rng, b, 2 * n as u64, &[]) {
            break p;
        }
    };
    let op = NttOperator::new(&Modulus::new(p), n);
    let fwd = |v: &[u64]| -> Result<Vec<u64>, String> {
        let mut t = v.to_vec();
        op.forward(&mut t);
        ensure!(t.iter().all(|x| *x < p), "forward transform leaves a value not below {}", p);
        Ok(t)
    };
    let bwd = |v: &[u64]| -> Result<Vec<u64>, String> {
        let mut t = v.to_vec();
        op.backward(&mut t);
        ensure!(t.iter().all(|x| *x < p), "backward transform leaves a value not below {}", p);
        Ok(t)
    };
    // The transform of X lists the points of evaluation.
    let mut x = vec![0u64; n];
    x[1] = 1;
    let pts = fwd(&x)?;
    let mut sorted = pts.clone();
    sorted.sort();
    sorted.dedup();
    ensure!(sorted.len() == n, "N={} p={}: evaluation points repeat", n, p);
    for r in &pts {
        ensure!(powmod(*r, n as u64, p) == p - 1, "N={} p={}: point {} is not a root of X^N+1", n, p, r);
    }
    for _ in 0..if n > 512 || cx.tiny() { 1 } else { 4 } {
        let a = vals(&mut cx.rng, n, p);
        let b = vals(&mut cx.rng, n, p);
        let (fa, fb) = (fwd(&a)?, fwd(&b)?);
        ensure!(bwd(&fa)? == a, "backward(forward(a)) != a for N={} p={} a={:?}", n, p, a);
        ensure!(fwd(&bwd(&b)?)? == b, "forward(backward(b)) != b for N={} p={} b={:?}", n, p, b);
        let idx: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..24).map(|_| cx.rng.gen_range(0..n)).collect() };
        for i in idx {
            let v = a.iter().rev().fold(0u64, |acc, c| addmod(mulmod(acc, pts[i], p), *c, p));
            ensure!(v == fa[i], "N={} p={}: output {} is {}, a evaluates to {} there; a={:?}", n, p, i, fa[i], v, a);
        }
        if n <= 256 {
            let prod: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| mulmod(*x, *y, p)).collect();
            ensure!(bwd(&prod)? == neg_mul(&a, &b, p), "N={} p={}: pointwise product is not the negacyclic product of {:?} and {:?}", n, p, a, b);
        }
        ensure!(fwd(&addv(&a, &b, p))? == addv(&fa, &fb, p), "N={} p={}: transform is not additive", n, p);
        cx.eval(a.iter().any(|v| *v != 0), &(n, p, &a));
        cx.event(&format!("N={}", n));
        cx.sample(|| format!("N={} p={} a={:?}", n, p, &a[..8]));
    }
    Ok(())
}
fn ntt_small(cx: &mut Cx) -> R {
    let n = if cx.tiny() { 8 } else { *pick(&mut cx.rng, &[8usize, 8, 16, 32, 64, 128, 256]) };
    ntt_at(cx, n)
}
fn ntt_large(cx: &mut Cx) -> R {
    let n = if cx.tiny() { 16 } else { [512usize, 1024, 2048, 4096, 8192, 16384, 32768, 65536][(cx.case / 20 % 8) as usize] };
    ntt_at(cx, n)
}
pub fn c13() -> Prop {
    Prop {
        id: "C13",
        quick: 1500,
        thorough: 40000,
        rule: "case = size 8..65536 x NTT prime of any admissible bit length up to 62 x hostile vectors (all p-1, alternating, one-hot, random). Non-trivial: vector not zero. Oracle: Horner evaluation at the points the transform itself names, which must be the N roots of X^N+1; both round trips; schoolbook negacyclic product; every output reduced.",
        kinds: vec![Kind { name: "small", weight: 19, f: ntt_small }, Kind { name: "large", weight: 1, f: ntt_large }],
    }
}

// ---------------------------------------------------------------- C14

/// Pairwise coprime moduli below 2^62, not necessarily prime.
fn coprime(cx: &mut Cx) -> Vec<u64> {
    // long bases now and then
    let l = if !cx.tiny() && cx.rng.gen_range(0..16) == 0 { cx.rng.gen_range(9..=40) } else { cx.rng.gen_range(1..=8) };
    let mut q: Vec<u64> = vec![];
    while q.len() < l {
        let m = if cx.rng.gen() { any_prime(&mut cx.rng) } else { any_modulus(&mut cx.rng) };
        if l > 8 && m < 1 << 20 {
            continue;
        }
        if q.iter().all(|x| x.gcd(&m) == 1) {
            q.push(m);
        }
    }
    q
}
fn rns_case(cx: &mut Cx) -> R {
    let q = coprime(cx);
    let rns = RnsContext::new(&q);
    let crt = Crt::new(&q);
    ensure!(*rns.modulus() == crt.prod, "product of {:?} is {}", q, rns.modulus());
    ensure!(rns.garner.len() == q.len(), "{} basis elements for {} moduli", rns.garner.len(), q.len());
    for (i, g) in rns.garner.iter().enumerate() {
        for (j, m) in q.iter().enumerate() {
            ensure!(low(&(g % *m)) == (i == j) as u64 % m, "basis element {} is {} mod {}", i, g % *m, m);
        }
    }
    let k = if cx.tiny() { 3 } else { 24 };
    for x in crt_vals(&mut cx.rng, k, &crt).into_iter().chain(big_vals(&mut cx.rng, 8, &crt.prod)) {
        // values at or above the modulus project like their residue
        let k = cx.rng.gen_range(0..3u64);
        let y = &x + &crt.prod * k;
        let p = rns.project(&y);
        let want: Vec<u64> = q.iter().map(|m| low(&(&x % *m))).collect();
        ensure!(p == want, "{} projects to {:?} over {:?}", y, p, q);
        let l = rns.lift(Array1::from(p.clone()).view());
        ensure!(l == x, "{:?} over {:?} lifts to {}, expected {}", p, q, l, x);
        cx.eval(!x.is_zero() && q.len() > 1, &(&q, x.to_string()));
    }
    cx.event(&format!("{} moduli", q.len()));
    cx.sample(|| format!("moduli={:?}", q));
    Ok(())
}
fn convert_case(cx: &mut Cx) -> R {
    let c = general(cx);
    let lv = level(cx, &c, 1);
    let ctx = c.ctx(lv);
    let q = c.ql(lv);
    let crt = Crt::new(q);
    let len = *pick(&mut cx.rng, &[0usize, 1, 2, c.n - 1, c.n, c.n]);
    let check = |p: &Poly, want: &[BigInt], what: &str| -> R {
        ensure!(p.representation == Representation::PowerBasis, "{} is not in coefficient form", what);
        canonical(p)?;
        let r = raw(p);
        for (i, m) in q.iter().enumerate() {
            for j in 0..c.n {
                let w = if j < want.len() { low(&modp(&want[j], &bu(*m))) } else { 0 };
                ensure!(r[i][j] == w, "{}: coefficient {} mod {} is {}, expected {}", what, j, m, r[i][j], w);
            }
        }
        let v: Vec<BigUint> = p.into();
        ensure!(v.len() == c.n, "{}: {} coefficients lifted", what, v.len());
        for j in 0..c.n {
            let w = if j < want.len() { modp(&want[j], &crt.prod) } else { BigUint::zero() };
            ensure!(v[j] == w, "{}: coefficient {} lifts to {}, expected {} over {:?}", what, j, v[j], w, q);
        }
        Ok(())
    };
    let us: Vec<u64> = (0..len).map(|_| any_u64(&mut cx.rng, *q.last().unwrap())).collect();
    check(&Poly::try_from_vec_u64(&ctx, &us), &us.iter().map(|x| BigInt::from(*x)).collect::<Vec<_>>(), "u64 vector")?;
    let is: Vec<i64> = (0..len)
        .map(|_| match cx.rng.gen_range(0..6) {
            0 => i64::MIN,
            1 => i64::MAX,
            2 => -1,
            3 => cx.rng.gen_range(-40..40),
            _ => cx.rng.gen(),
        })
        .collect();
    check(&Poly::try_from_vec_i64(&ctx, &is), &is.iter().map(|x| BigInt::from(*x)).collect::<Vec<_>>(), "i64 vector")?;
    let bs: Vec<BigUint> = crt_vals(&mut cx.rng, c.n, &crt)[..len].iter().map(|x| x + &crt.prod * cx.rng.gen_range(0..2u64)).collect();
    check(&Poly::try_from_bigint(&ctx, &bs), &bs.iter().map(|x| BigInt::from(x.clone())).collect::<Vec<_>>(), "integer vector")?;
    if q.len() == 1 {
        let v: Vec<u64> = (&Poly::try_from_vec_u64(&ctx, &us)).into();
        ensure!(v[..len].iter().zip(&us).all(|(a, b)| *a == b % q[0]) && v[len..].iter().all(|x| *x == 0), "one-modulus polynomial converts to {:?}", v);
        cx.event("single-word conversion");
    }
    cx.eval(len > 0, &(c.desc(), lv, &us, &is));
    cx.event(&format!("length {} of {}", if len == c.n { "N".into() } else if len == c.n - 1 { "N-1".into() } else { len.to_string() }, c.n));
    Ok(())
}
pub fn c14() -> Prop {
    Prop {
        id: "C14",
        quick: 2500,
        thorough: 80000,
        rule: "case = 1-40 pairwise coprime moduli below 2^62 (prime or not) x integers at and above the product, or residues chosen modulus by modulus; and vectors of u64, i64 and big integers converted to polynomials and back. Non-trivial: more than one modulus and a non-zero value / a non-empty vector. Oracle: mixed-radix reconstruction.",
        kinds: vec![Kind { name: "rns", weight: 1, f: rns_case }, Kind { name: "convert", weight: 1, f: convert_case }],
    }
}

// ---------------------------------------------------------------- C10

fn ring_program(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let lv = level(cx, &c, 1);
    let ctx = c.ctx(lv);
    let q = c.ql(lv).to_vec();
    let crt = Crt::new(&q);
    let mut pool: Vec<(Poly, Vec<Vec<u64>>)> = vec![];
    for _ in 0..3 {
        let v = crt_vals(&mut cx.rng, c.n, &crt);
        let r: Vec<Vec<u64>> = q.iter().map(|m| v.iter().map(|x| low(&(x % *m))).collect()).collect();
        pool.push((poly_from_big(&ctx, &v, true), r));
    }
    let mut trace: Vec<&str> = vec![];
    let zip = |a: &Vec<Vec<u64>>, b: &Vec<Vec<u64>>, f: &dyn Fn(&[u64], &[u64], u64) -> Vec<u64>| -> Vec<Vec<u64>> { a.iter().zip(b).zip(&q).map(|((x, y), m)| f(x, y, *m)).collect() };
    for _ in 0..10 {
        let i = cx.rng.gen_range(0..pool.len());
        let j = cx.rng.gen_range(0..pool.len());
        let (a, ma) = pool[i].clone();
        let (b, mb) = pool[j].clone();
        let (p, m, name): (Poly, Vec<Vec<u64>>, &str) = match cx.rng.gen_range(0..10) {
            0 => (&a + &b, zip(&ma, &mb, &addv), "+"),
            1 => (&a - &b, zip(&ma, &mb, &subv), "-"),
            2 => (&a * &b, zip(&ma, &mb, &neg_mul), "*"),
            3 => {
                let mut t = a.clone();
                t += &b;
                (t, zip(&ma, &mb, &addv), "+=")
            }
            4 => {
                let mut t = a.clone();
                t -= &b;
                (t, zip(&ma, &mb, &subv), "-=")
            }
            5 => {
                let mut t = a.clone();
                t *= &b;
                (t, zip(&ma, &mb, &neg_mul), "*=")
            }
            6 => (-&a, ma.iter().zip(&q).map(|(x, m)| x.iter().map(|v| submod(0, *v, *m)).collect()).collect(), "neg"),
            7 => {
                // negation works on coefficients as well
                let mut t = a.clone();
                t.change_representation(Representation::PowerBasis);
                let mut t = -&t;
                canonical(&t)?;
                t.change_representation(Representation::Ntt);
                (t, ma.iter().zip(&q).map(|(x, m)| x.iter().map(|v| submod(0, *v, *m)).collect()).collect(), "neg coefficients")
            }
            8 => {
                let k = big_val(&mut cx.rng, &crt.prod) + &crt.prod * cx.rng.gen_range(0..2u64);
                let w = ma.iter().zip(&q).map(|(x, m)| x.iter().map(|v| mulmod(*v, low(&(&k % *m)), *m)).collect()).collect();
                let r = &a * &k;
                let mut t = a.clone();
                t *= &k;
                ensure!(t == r, "scalar * and *= differ");
                (r, w, "* integer")
            }
            _ => {
                let mut t = a.clone();
                t.change_representation(Representation::PowerBasis);
                canonical(&t)?;
                ensure!(raw(&t) == ma, "after {:?}: coefficients are {:?}, expected {:?}; N={} q={:?}", trace, raw(&t), ma, c.n, q);
                t.change_representation(Representation::PowerBasis);
                ensure!(raw(&t) == ma, "changing to the representation already held changed the polynomial");
                t.change_representation(Representation::Ntt);
                ensure!(t == a, "round trip through coefficient form changed the polynomial");
                (t, ma.clone(), "round trip")
            }
        };
        trace.push(name);
        ensure!(p.representation == Representation::Ntt && p.context == ctx, "{} changed representation or context", name);
        let got = rows(&p)?;
        ensure!(got == m, "{:?} over N={} q={:?} gives {:?}, expected {:?}", trace, c.n, q, got, m);
        ensure!(pool[i].0 == a && pool[j].0 == b, "an operand was modified");
        cx.eval(m.iter().any(|r| r.iter().any(|x| *x != 0)), &(c.n, &q, hash(&m), name));
        cx.event(name);
        pool.push((p, m));
    }
    cx.sample(|| format!("N={} q={:?} program={:?}", c.n, q, trace));
    Ok(())
}
fn ring_inverse(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let lv = level(cx, &c, 1);
    let ctx = c.ctx(lv);
    // units: all residues non-zero in evaluation form
    let mut r = Poly::random(&ctx, &mut cx.rng, Representation::Ntt);
    for _ in 0..20 {
        if raw(&r).iter().all(|v| v.iter().all(|x| *x != 0)) {
            break;
        }
        r = Poly::random(&ctx, &mut cx.rng, Representation::Ntt);
    }
    if raw(&r).iter().any(|v| v.iter().any(|x| *x == 0)) {
        return Ok(());
    }
    let inv = r.inverse();
    canonical(&inv)?;
    let one = rows(&(&r * &inv))?;
    ensure!(one.iter().all(|v| v[0] == 1 && v[1..].iter().all(|x| *x == 0)), "a * a^-1 != 1 over N={} q={:?}", c.n, c.ql(lv));
    cx.eval(true, &(c.n, c.ql(lv), hash(&raw(&r))));
    cx.event("inverse");
    let z = Poly::zero(&ctx, Representation::Ntt);
    ensure!(rows(&z)?.iter().all(|v| v.iter().all(|x| *x == 0)), "zero is not zero");
    ensure!(&r + &z == r && &r - &r == z && &(-&r) + &r == z, "additive identities fail");
    Ok(())
}
fn ring_large(cx: &mut Cx) -> R {
    let c = large(cx);
    let ctx = c.ctx(0);
    let crt = Crt::new(&c.q);
    let a = crt_vals(&mut cx.rng, c.n, &crt);
    // a sparse second factor keeps the model cheap
    let mut b = vec![BigUint::zero(); c.n];
    for _ in 0..6 {
        b[cx.rng.gen_range(0..c.n)] = big_val(&mut cx.rng, &crt.prod);
    }
    let (pa, pb) = (poly_from_big(&ctx, &a, true), poly_from_big(&ctx, &b, true));
    let got = rows(&(&pb * &pa))?;
    for (i, m) in c.q.iter().enumerate() {
        let x: Vec<u64> = a.iter().map(|v| low(&(v % *m))).collect();
        let y: Vec<u64> = b.iter().map(|v| low(&(v % *m))).collect();
        ensure!(got[i] == neg_mul(&y, &x, *m), "product mod {} is wrong for N={}", m, c.n);
    }
    ensure!(rows(&(&(&pa + &pb) - &pb))? == rows(&pa)?, "a + b - b != a for N={}", c.n);
    cx.eval(true, &(c.n, &c.q, hash(&raw(&pa)), hash(&raw(&pb))));
    cx.event(&format!("N={}", c.n));
    Ok(())
}
pub fn c10() -> Prop {
    Prop {
        id: "C10",
        quick: 1500,
        thorough: 40000,
        rule: "case = ring (N, 1-6 moduli, level) x a random program of 10 ring operations over a growing pool of hostile polynomials; every intermediate polynomial is compared residue by residue. Non-trivial: result not zero. Oracle: schoolbook negacyclic arithmetic per modulus; residues reduced; operands unmodified.",
        kinds: vec![Kind { name: "program", weight: 50, f: ring_program }, Kind { name: "inverse", weight: 9, f: ring_inverse }, Kind { name: "large", weight: 1, f: ring_large }],
    }
}

// ---------------------------------------------------------------- C11

fn subst_in(cx: &mut Cx, c: &Cfg, ks: &[usize]) -> R {
    let lv = level(cx, c, 1);
    let ctx = c.ctx(lv);
    let q = c.ql(lv);
    let crt = Crt::new(q);
    let a = crt_vals(&mut cx.rng, c.n, &crt);
    let pb = poly_from_big(&ctx, &a, false);
    let pn = poly_from_big(&ctx, &a, true);
    let ar = raw(&pb);
    for &k in ks {
        let s = Substitution::new(&ctx, k);
        let want: Vec<Vec<u64>> = ar.iter().zip(q).map(|(r, m)| subst(r, k % (2 * c.n), *m)).collect();
        let x = pb.substitute(&s);
        canonical(&x)?;
        ensure!(x.representation == Representation::PowerBasis && raw(&x) == want, "X -> X^{} on coefficients is wrong for N={} q={:?} a={:?}", k, c.n, q, ar);
        let y = pn.substitute(&s);
        ensure!(y.representation == Representation::Ntt, "substitution changed the representation");
        ensure!(rows(&y)? == want, "X -> X^{} on evaluations is wrong for N={} q={:?}", k, c.n, q);
        // composition and inverse
        let k2 = 2 * cx.rng.gen_range(0..c.n) + 1;
        let s2 = Substitution::new(&ctx, k2);
        let s12 = Substitution::new(&ctx, (k % (2 * c.n)) * k2);
        ensure!(y.substitute(&s2) == pn.substitute(&s12), "X^{} then X^{} is not X^{} for N={}", k, k2, k * k2, c.n);
        ensure!(x.substitute(&s2) == pb.substitute(&s12), "X^{} then X^{} is not X^{} on coefficients for N={}", k, k2, k * k2, c.n);
        cx.eval(k % (2 * c.n) != 1 && ar.iter().any(|r| r[1..].iter().any(|v| *v != 0)), &(c.n, q, k % (2 * c.n), hash(&ar)));
        cx.event(&format!("N={}", c.n));
    }
    cx.sample(|| format!("N={} q={:?} exponents={:?}", c.n, q, &ks[..ks.len().min(6)]));
    Ok(())
}
fn subst_all(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let ks: Vec<usize> = if c.n <= 32 || cx.rng.gen_range(0..8) == 0 {
        (0..c.n).map(|i| 2 * i + 1).collect()
    } else {
        let mut v = vec![1, 3, c.n + 1, 2 * c.n - 1, c.n / 2 + 1, c.n - 1];
        for _ in 0..6 {
            v.push(2 * cx.rng.gen_range(0..c.n) + 1);
        }
        v
    };
    subst_in(cx, &c, &ks)?;
    let far: Vec<usize> = (0..3).map(|_| 2 * cx.rng.gen_range(0..1000 * c.n) + 1).collect();
    subst_in(cx, &c, &far)
}
fn subst_large(cx: &mut Cx) -> R {
    let c = large(cx);
    let mut ks = vec![3, c.n + 1, 2 * c.n - 1];
    for _ in 0..4 {
        ks.push(2 * cx.rng.gen_range(0..c.n) + 1);
    }
    subst_in(cx, &c, &ks)
}
pub fn c11() -> Prop {
    Prop {
        id: "C11",
        quick: 900,
        thorough: 20000,
        rule: "case = ring x level x polynomial x odd exponents (all 1..2N for N<=32, also far beyond 2N) in both representations, plus compositions. Non-trivial: exponent not 1 and a non-constant polynomial. Oracle: index arithmetic with X^N = -1 per modulus.",
        kinds: vec![Kind { name: "all-exponents", weight: 29, f: subst_all }, Kind { name: "large", weight: 1, f: subst_large }],
    }
}

// ---------------------------------------------------------------- C15

/// x * num/den to the nearest integer; both neighbours when the exact value is
/// within 2^-50 of a half.
fn rounded(x: &BigInt, num: &BigUint, den: &BigUint) -> Vec<BigInt> {
    let n = x * BigInt::from(num.clone());
    let d = BigInt::from(den.clone());
    let two = BigInt::from(2);
    let r = (&n * &two + &d).div_floor(&(&d * &two)); // floor(v + 1/2)
    // distance of v to the half below r: v - (r - 1/2), in units of 1/(2d)
    let off = &n * &two - (&r * &two - 1) * &d;
    let mut out = vec![r.clone()];
    let tol = (&d * &two) >> 50;
    if off <= tol {
        out.push(&r - 1);
    }
    if &d * &two - &off <= tol {
        out.push(&r + 1);
    }
    out
}
fn scale_check(p: &Poly, out: &Poly, from: &[u64], to: &[u64], num: &BigUint, den: &BigUint) -> R {
    let cf = Crt::new(from);
    ensure!(out.context.moduli_64 == to, "scaling gave moduli {:?}", out.context.moduli_64);
    let x = lift_rows(&rows(p)?, &cf);
    let o = rows(out)?;
    for j in 0..x.len() {
        let xc = cf.center(&x[j]);
        let mut ok = rounded(&xc, num, den);
        // at Q/2 either representative is the centred one
        let edge = (BigInt::from(cf.prod.clone()) - (xc.abs() << 1u32)).abs();
        if edge <= BigInt::from(cf.prod.clone() >> 55) + 2 {
            let other = if xc.is_negative() { &xc + BigInt::from(cf.prod.clone()) } else { &xc - BigInt::from(cf.prod.clone()) };
            ok.extend(rounded(&other, num, den));
        }
        let good = ok.iter().any(|w| to.iter().enumerate().all(|(i, m)| o[i][j] == low(&modp(w, &bu(*m)))));
        ensure!(good, "{} (centred, over {:?}) times {}/{} gives {:?} over {:?}, expected {}", xc, from, num, den, o.iter().map(|r| r[j]).collect::<Vec<_>>(), to, ok[0]);
    }
    Ok(())
}
/// Values whose image lies at or next to a rounding boundary.
fn near_half(cx: &mut Cx, crt: &Crt, num: &BigUint, den: &BigUint) -> BigUint {
    if num.is_zero() {
        return BigUint::zero();
    }
    let k = big_val(&mut cx.rng, &(&crt.prod * num / den + 1u64));
    // x ~ (k + 1/2) den / num
    let x = ((k * 2u64 + 1u64) * den) / (num * 2u64);
    let d = cx.rng.gen_range(0..5u64);
    (x + d) % &crt.prod
}
fn scale_ctx(cx: &mut Cx, from: &[u64], to: &[u64], n: usize, num: &BigUint, den: &BigUint) -> R {
    let fc = Arc::new(RqContext::new(from.to_vec(), n, BD));
    let tc = if from == to && cx.rng.gen() {
        cx.event("one ring");
        fc.clone()
    } else {
        Arc::new(RqContext::new(to.to_vec(), n, BD))
    };
    let sc = RqScaler::new(&fc, &tc, ScalingFactor::new(num.clone(), den.clone()));
    let crt = Crt::new(from);
    for round in 0..if cx.tiny() { 1 } else { 4 } {
        let v = if round % 2 == 0 { crt_vals(&mut cx.rng, n, &crt) } else { (0..n).map(|_| near_half(cx, &crt, num, den)).collect() };
        let ntt = cx.rng.gen::<bool>();
        let p = poly_from_big(&fc, &v, ntt);
        let out = rq_scale(&sc, &p);
        ensure!(out.representation == p.representation, "scaling changed the representation");
        scale_check(&p, &out, from, to, num, den)?;
        cx.eval(v.iter().any(|x| !x.is_zero()) && !num.is_zero(), &(from, to, num.to_string(), den.to_string(), hash(&raw(&p))));
    }
    Ok(())
}
fn ntt_basis(cx: &mut Cx, n: usize, l: usize, avoid: &[u64]) -> Vec<u64> {
    let mut q = vec![];
    let same = cx.rng.gen::<bool>().then(|| cx.rng.gen_range(20..=62)).map(|b| if l > 8 && b < 45 { 62 } else { b });
    while q.len() < l {
        let b = same.unwrap_or_else(|| cx.rng.gen_range(14..=62));
        let av: Vec<u64> = q.iter().chain(avoid).cloned().collect();
        if let Some(p) = ntt_prime(&mut cx.rng, b, 2 * n as u64, &av) {
            q.push(p);
        }
    }
    q
}
fn scale_random(cx: &mut Cx) -> R {
    let n = match cx.rng.gen_range(0..400) {
        _ if cx.tiny() => 8,
        0 => *pick(&mut cx.rng, &[512usize, 1024, 4096]),
        1..=40 => *pick(&mut cx.rng, &[16usize, 32, 64]),
        _ => 8,
    };
    let (mut lf, mut lt) = (cx.rng.gen_range(1..=6), cx.rng.gen_range(1..=6));
    // long bases now and then
    if !cx.tiny() && cx.rng.gen_range(0..16) == 0 {
        lf = cx.rng.gen_range(7..=40);
        lt = if cx.rng.gen() { cx.rng.gen_range(7..=40) } else { lt };
    }
    let from = ntt_basis(cx, n, lf, &[]);
    // bases may share moduli, in any position
    let mut to = ntt_basis(cx, n, lt, &[]);
    if cx.rng.gen() {
        for i in 0..lt {
            if cx.rng.gen() {
                let x = if cx.rng.gen() { from[i % lf] } else { *pick(&mut cx.rng, &from) };
                if !to.contains(&x) {
                    to[i] = x;
                }
            }
        }
    }
    // the same basis, a part of it, or the two the other way round
    match cx.rng.gen_range(0..16) {
        0 => to = from.clone(),
        1 => to = from[..cx.rng.gen_range(1..=lf)].to_vec(),
        2 => to = from.iter().rev().cloned().collect(),
        _ => {}
    }
    let big = product(&from);
    let (num, den) = match cx.rng.gen_range(0..9) {
        0 => (BigUint::one(), BigUint::one()),
        1 => (bu(cx.rng.gen_range(2..1 << 40)), big.clone()),
        2 => (bu(cx.rng.gen_range(1..100)), bu(cx.rng.gen_range(1..100))),
        3 => (BigUint::one(), BigUint::one() << cx.rng.gen_range(1..big.bits())),
        4 => (BigUint::zero(), bu(cx.rng.gen_range(1..100))),
        5 => (BigUint::one(), bu(*pick(&mut cx.rng, &from))),
        6 => {
            let k = cx.rng.gen_biguint_below(&big) + 1u64;
            (k.clone(), k)
        }
        _ => (cx.rng.gen_biguint_below(&big) + 1u64, cx.rng.gen_biguint_below(&big) + 1u64),
    };
    cx.event(&format!("{} to {} moduli{}", lf, lt, if num == den { ", factor 1" } else { "" }));
    cx.sample(|| format!("from={:?} to={:?} factor={}/{}", from, to, num, den));
    scale_ctx(cx, &from, &to, n, &num, &den)
}
/// The scalings the scheme itself uses: t/Q to one modulus, Q to QP by one,
/// QP to Q by t/Q.
fn scale_scheme(cx: &mut Cx) -> R {
    let c = general(cx);
    let lv = level(cx, &c, 1);
    let q = c.ql(lv).to_vec();
    let e = c.params.e_ctxs[lv].moduli_64.clone();
    let (t, big) = (bu(c.t), c.big(lv));
    match cx.rng.gen_range(0..3) {
        0 => scale_ctx(cx, &q, &q[..1].to_vec(), c.n, &t, &big)?,
        1 => scale_ctx(cx, &q, &e, c.n, &BigUint::one(), &BigUint::one())?,
        _ => scale_ctx(cx, &e, &q, c.n, &t, &big)?,
    }
    // and as built into the parameters
    let crt = Crt::new(&q);
    let v = crt_vals(&mut cx.rng, c.n, &crt);
    let p = poly_from_big(&c.ctx(lv), &v, false);
    let out = rq_scale(&c.params.scalars[lv], &p);
    scale_check(&p, &out, &q, &out.context.moduli_64.clone(), &t, &big)?;
    cx.eval(v.iter().any(|x| !x.is_zero()), &(c.desc(), lv, hash(&raw(&p))));
    cx.event("decryption scaling of the parameters");
    Ok(())
}
pub fn c15() -> Prop {
    Prop {
        id: "C15",
        quick: 1200,
        thorough: 40000,
        rule: "case = source and target bases (1-40 moduli of 14-62 bits, disjoint or sharing moduli in any position) x factor num/den (1, t/Q, powers of two, zero, arbitrary) x hostile values, half of them chosen to land next to a rounding boundary. Non-trivial: value and factor not zero. Oracle: exact rational rounding of the centred representative (either neighbour accepted within 2^-50 of a half, either representative within 2^-55 Q of Q/2).",
        kinds: vec![Kind { name: "random", weight: 3, f: scale_random }, Kind { name: "scheme", weight: 1, f: scale_scheme }],
    }
}

// ---------------------------------------------------------------- C16

fn switch_poly(cx: &mut Cx) -> R {
    let c = loop {
        let c = general(cx);
        if c.levels() >= 2 {
            break c;
        }
    };
    let lv = cx.rng.gen_range(0..c.levels() - 1);
    let crt = Crt::new(c.ql(lv));
    let mut x = crt_vals(&mut cx.rng, c.n, &crt);
    // next to the rounding boundary of the dropped modulus
    let last = *c.ql(lv).last().unwrap();
    for v in x.iter_mut().take(c.n / 2) {
        if cx.rng.gen() {
            let k = big_val(&mut cx.rng, &(&crt.prod / last));
            *v = (k * last + last / 2 + cx.rng.gen_range(0..3u64)) % &crt.prod;
        }
    }
    let mut p = poly_from_big(&c.ctx(lv), &x, false);
    let to = cx.rng.gen_range(lv..c.levels());
    let mut q = c.ql(lv).to_vec();
    ensure!(c.ctx(lv).switch_iterations(&c.ctx(to)) == Some(to - lv), "{} switches from level {} to {}", c.ctx(lv).switch_iterations(&c.ctx(to)).unwrap_or(99), lv, to);
    if to > lv {
        ensure!(c.ctx(to).switch_iterations(&c.ctx(lv)).is_none(), "switching back up is reported possible");
    }
    let direct = cx.rng.gen::<bool>();
    let mut want = x.clone();
    for _ in lv..to {
        let l = q.pop().unwrap();
        let prod = product(&q);
        want = want.iter().map(|v| ((v + l / 2) / l) % &prod).collect();
        if !direct {
            p.mod_switch_down_next();
            ensure!(bigs(&p)? == want, "switching down from {:?} by {} gives the wrong integers; N={}", q, l, c.n);
        }
    }
    if direct {
        p.mod_switch_to(&c.ctx(to));
    }
    ensure!(p.context == c.ctx(to) && p.representation == Representation::PowerBasis, "switching from level {} to {} ends in the wrong ring", lv, to);
    let got = bigs(&p)?;
    ensure!(got == want, "switching from level {} to {} of {:?} gives the wrong integers (first {} for {}, expected {})", lv, to, c.q, got[0], x[0], want[0]);
    cx.eval(to > lv && x.iter().any(|v| !v.is_zero()), &(c.desc(), lv, to, hash(&raw(&p))));
    cx.event(&format!("{} steps", to - lv));
    cx.sample(|| format!("{} level {} to {} x0={}", c.desc(), lv, to, x[0]));
    Ok(())
}
/// A ciphertext switched down still decrypts.
fn switch_ct(cx: &mut Cx) -> R {
    let c = cfg(cx, &MEDIUM);
    let lv = cx.rng.gen_range(0..c.levels() - 1);
    let sk = secret(cx, &c);
    let m = vals(&mut cx.rng, c.n, c.t);
    let (mut ct, mut e) = ciphertext(cx, &c, lv, &sk, &m, &(c.room(lv) >> 1));
    for to in lv + 1..c.levels() {
        let l = c.ql(to - 1).last().copied().unwrap();
        // rounding of each component, times the key, and of the message
        let e2 = &e / l + bu((c.n as u64 * 2 * c.v as u64 + 1) / 2 + 4);
        if e2 > c.room(to) {
            cx.event("skipped: noise budget");
            break;
        }
        for p in ct.cts.iter_mut() {
            p.change_representation(Representation::PowerBasis);
            p.mod_switch_down_next();
            p.change_representation(Representation::Ntt);
        }
        ct.level = to;
        e = e2;
        let got = decrypt(&sk, &ct);
        ensure!(got == m, "{:?} switched to level {} decrypts to {:?}; {}", m, to, got, c.desc());
        let nn = noise_num(&phase(&ct.cts, &sk.coeffs)?, &m, &c.big(to), c.t);
        ensure!(nn <= &e * c.t, "noise after switching {} exceeds {}", nn / c.t, e);
        cx.eval(m.iter().any(|x| *x != 0), &(c.desc(), lv, to, &m));
        cx.event("ciphertext switched");
    }
    Ok(())
}
pub fn c16() -> Prop {
    Prop {
        id: "C16",
        quick: 2000,
        thorough: 60000,
        rule: "case = parameter set x start and end level x hostile integers, half next to the rounding boundary of the dropped modulus; and ciphertexts of up to half the noise limit switched down level by level. Non-trivial: at least one step and a non-zero value. Oracle: floor((x + floor(q/2)) / q) over the integers; exact message and noise bound for ciphertexts.",
        kinds: vec![Kind { name: "polynomial", weight: 2, f: switch_poly }, Kind { name: "ciphertext", weight: 1, f: switch_ct }],
    }
}

// ---------------------------------------------------------------- C20

fn primes_exist(bits: usize, modulo: u64, upper: u64) -> bool {
    let lo = 1u64 << (bits - 1);
    let mut k = lo / modulo;
    loop {
        let p = k * modulo + 1;
        if p >= upper {
            return false;
        }
        if p >= lo && prime(p) {
            return true;
        }
        k += 1;
    }
}
fn gen_prime_case(cx: &mut Cx) -> R {
    for _ in 0..if cx.tiny() { 2 } else { 12 } {
        let bits = if cx.rng.gen_range(0..3) == 0 { cx.rng.gen_range(10..=20) } else { cx.rng.gen_range(10..=62) };
        let modulo = match cx.rng.gen_range(0..4) {
            0 => cx.rng.gen_range(2..200),
            1 => cx.rng.gen_range(if bits <= 20 { 1 } else { 2 }..=1u64 << bits.min(20)),
            _ => 1u64 << cx.rng.gen_range(1..=bits.min(20)),
        };
        let modulo = if bits <= 20 && cx.rng.gen_range(0..20) == 0 { 1 } else { modulo };
        let top = 1u64 << bits;
        let upper = match cx.rng.gen_range(0..4) {
            0 | 1 => top,
            2 => top - cx.rng.gen_range(0..(top / 4).min(1 << 30)),
            _ => (top / 2 + 1 + cx.rng.gen_range(0..(top / 8))).min(top),
        };
        let got = generate_prime(bits, modulo, upper);
        match got {
            Some(p) => {
                ensure!(prime(p), "{} is not prime (bits={} modulo={} below={})", p, bits, modulo, upper);
                ensure!(p % modulo == 1 % modulo, "{} is not 1 mod {}", p, modulo);
                ensure!(p < upper, "{} is not below {}", p, upper);
                ensure!(64 - p.leading_zeros() as usize == bits, "{} does not have {} bits", p, bits);
                cx.event("prime found");
            }
            None => {
                // completeness, where it can be decided quickly
                if (upper >> bits.saturating_sub(1)) / 1 <= 2 && (1u64 << bits) / modulo <= 1 << 22 {
                    ensure!(!primes_exist(bits, modulo, upper), "no prime reported for bits={} modulo={} below={}", bits, modulo, upper);
                }
                cx.event("none exists");
            }
        }
        cx.eval(true, &(bits, modulo, upper));
    }
    for b in [0usize, 1, 9, 63, 64, 100] {
        ensure!(generate_prime(b, 16, 1 << 9).is_none(), "a {}-bit prime was generated", b);
    }
    Ok(())
}
/// Successive primes: repeatedly lowering the bound enumerates distinct primes.
fn gen_prime_chain(cx: &mut Cx) -> R {
    let bits = cx.rng.gen_range(10..=16);
    let modulo = 1u64 << cx.rng.gen_range(1..7);
    let mut upper = 1u64 << bits;
    let mut found = vec![];
    while let Some(p) = generate_prime(bits, modulo, upper) {
        ensure!(p < upper && prime(p) && p % modulo == 1 && p >> (bits - 1) == 1, "bad prime {} below {}", p, upper);
        found.push(p);
        upper = p;
        if upper <= 2 {
            break;
        }
    }
    ensure!(!primes_exist(bits, modulo, upper), "chain for bits={} modulo={} ended early at {}", bits, modulo, upper);
    cx.events("primes in a chain", found.len() as u64);
    cx.eval(!found.is_empty(), &(bits, modulo, found));
    Ok(())
}
fn is_prime_case(cx: &mut Cx) -> R {
    const HARD: &[u64] = &[
        561, 1105, 1729, 2465, 2821, 6601, 8911, 2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 4759123141, 1122004669633,
        4295098369, 18446744073709551557, 18446744073709551615, 4611686018427387904, 9223372036854775807, 9223372036854775783, 2305843009213693951, 4611686018427387847, 341, 645, 1387, 5459, 5777, 10877,
        989, 3239, 5777, 10469, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077,
    ];
    let mut check = |n: u64| -> R {
        ensure!(is_prime(n) == prime(n), "is_prime({}) = {}", n, is_prime(n));
        cx.eval(n > 1, &n);
        Ok(())
    };
    for n in HARD {
        check(*n)?;
    }
    Ok(())
}
fn is_prime_random(cx: &mut Cx) -> R {
    let base = cx.rng.gen_range(0..1u64 << 17);
    let mut ns: Vec<u64> = (base..base + 200).collect();
    for _ in 0..60 {
        let b = cx.rng.gen_range(2..=64u32);
        ns.push(cx.rng.gen::<u64>() >> (64 - b));
    }
    for _ in 0..20 {
        let a = any_prime(&mut cx.rng) >> 31 | 1;
        let b = cx.rng.gen_range(3..1u64 << 31) | 1;
        ns.push(a * b);
        if a < 1 << 31 {
            ns.push(a * a);
            // psp-shaped (k+1)(2k+1)
            ns.push((a + 1) * (2 * (a % (1 << 30)) + 1));
        }
        ns.push(any_prime(&mut cx.rng));
    }
    // primes modulo which every small integer is a square: the Lucas half of
    // a Baillie-PSW test searches long on these
    let m = 8 * [3u64, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41].iter().product::<u64>();
    let mut k = cx.rng.gen_range(1..u64::MAX / m - 400);
    for _ in 0..3 {
        k = (k..k + 100).find(|k| prime(k * m + 1)).unwrap_or(k) + 1;
        ns.push((k - 1) * m + 1);
    }
    for n in ns {
        ensure!(is_prime(n) == prime(n), "is_prime({}) = {}", n, is_prime(n));
        cx.event(if prime(n) { "prime" } else { "composite" });
        cx.eval(n > 1, &n);
    }
    Ok(())
}
fn moduli_case(cx: &mut Cx) -> R {
    let n = *pick(&mut cx.rng, &[8usize, 16, 64, 256, 1024, 4096]);
    let l = cx.rng.gen_range(1..=7);
    let sizes: Vec<usize> = match cx.rng.gen_range(0..3) {
        0 => vec![cx.rng.gen_range(10..=62); l],
        1 => vec![cx.rng.gen_range(10..=18); l],
        _ => (0..l).map(|_| cx.rng.gen_range(10..=62)).collect(),
    };
    match BfvParameters::generate_moduli(&sizes, n) {
        Some(m) => {
            ensure!(m.len() == l, "{} moduli for sizes {:?}", m.len(), sizes);
            for (i, q) in m.iter().enumerate() {
                ensure!(prime(*q) && q % (2 * n as u64) == 1, "{} is not an NTT prime for N={}", q, n);
                ensure!(64 - q.leading_zeros() as usize == sizes[i], "{} does not have {} bits", q, sizes[i]);
                ensure!(!m[..i].contains(q), "modulus {} repeats in {:?}", q, m);
            }
            cx.event("moduli generated");
        }
        None => {
            // then some size really has too few primes
            let short = sizes.iter().any(|s| {
                let want = sizes.iter().filter(|x| *x == s).count();
                let lo = 1u64 << (s - 1);
                if (lo / (2 * n as u64)) > 1 << 16 {
                    return false;
                }
                let have = (lo / (2 * n as u64)..=(2 * lo) / (2 * n as u64)).map(|k| k * 2 * n as u64 + 1).filter(|p| *p >= lo && *p < 2 * lo && prime(*p)).count();
                have < want
            });
            ensure!(short, "no moduli for sizes {:?}, N={}", sizes, n);
            cx.event("exhausted");
        }
    }
    cx.eval(l > 1, &(n, &sizes));
    cx.sample(|| format!("N={} sizes={:?}", n, sizes));
    Ok(())
}
fn params_case(cx: &mut Cx) -> R {
    let c = cfg(cx, &GENERAL);
    let p = &c.params;
    ensure!(p.degree == c.n && p.plaintext_modulus_u64 == c.t && p.ciphertext_moduli == c.q && p.variance == c.v, "parameters do not record their inputs");
    ensure!(p.q_ctxs.len() == c.levels() && p.e_ctxs.len() == c.levels(), "{} levels for {} moduli", p.q_ctxs.len(), c.levels());
    for lv in 0..c.levels() {
        let ctx = &p.q_ctxs[lv];
        ensure!(ctx.moduli_64 == c.ql(lv) && ctx.degree == c.n, "level {} has moduli {:?}", lv, ctx.moduli_64);
        ensure!(*ctx.rns.modulus() == c.big(lv), "level {} has modulus {}", lv, ctx.rns.modulus());
        ensure!(p.ctx_level(ctx) == Some(lv), "level of context {} is {:?}", lv, p.ctx_level(ctx));
        let e = &p.e_ctxs[lv].moduli_64;
        let mut s = e.clone();
        s.sort();
        s.dedup();
        ensure!(s.len() == e.len() && e.iter().all(|q| prime(*q) && q % (2 * c.n as u64) == 1), "extended basis {:?} is not made of distinct NTT primes", e);
        // a product of two centred polynomials fits, with room for sums
        let need = c.big(lv) * c.big(lv) * (c.n as u64);
        ensure!(product(e) > need, "extended basis of level {} has {} bits, products need {}", lv, product(e).bits(), need.bits());
        cx.eval(true, &(c.desc(), lv));
    }
    let other = cfg_at(0, &TINY, 0);
    if other.q != c.q || other.n != c.n {
        ensure!(p.ctx_level(&other.ctx(0)).is_none(), "a foreign ring has a level");
    }
    cx.event(&format!("{} levels", c.levels()));
    let n = *pick(&mut cx.rng, &[8usize, 16, 32]);
    let l = cx.rng.gen_range(1..=4);
    if 1152 % (2 * n) == 0 {
        let d = BfvParameters::default(l, n, BD);
        ensure!(d.q_ctxs.len() == l && d.degree == n && d.ciphertext_moduli.iter().all(|q| q >> 61 == 1), "default parameters");
    }
    Ok(())
}
pub fn c20() -> Prop {
    Prop {
        id: "C20",
        quick: 600,
        thorough: 16000,
        rule: "case = bit length x congruence x bound for prime generation (with brute-force completeness where the range is small), integers for primality (ranges, products, Carmichael and strong-pseudoprime lists, near 2^64), size lists for moduli, and whole parameter sets level by level. Non-trivial: all but 0 and 1. Oracle: deterministic Miller-Rabin and enumeration.",
        kinds: vec![
            Kind { name: "generate", weight: 4, f: gen_prime_case },
            Kind { name: "chain", weight: 2, f: gen_prime_chain },
            Kind { name: "hard", weight: 1, f: is_prime_case },
            Kind { name: "primality", weight: 3, f: is_prime_random },
            Kind { name: "moduli", weight: 4, f: moduli_case },
            Kind { name: "levels", weight: 4, f: params_case },
        ],
    }
}

// ---------------------------------------------------------------- C24

fn big4(a: [u64; 4]) -> BigUint {
    a.iter().rev().fold(BigUint::zero(), |x, w| (x << 64) + *w)
}
fn word(rng: &mut impl Rng) -> u64 {
    match rng.gen_range(0..5) {
        0 => 0,
        1 => u64::MAX,
        2 => 1 << rng.gen_range(0..64),
        _ => rng.gen(),
    }
}
fn u256_case(cx: &mut Cx) -> R {
    let m = BigUint::one() << 256;
    for _ in 0..if cx.tiny() { 10 } else { 200 } {
        let a = [word(&mut cx.rng), word(&mut cx.rng), word(&mut cx.rng), word(&mut cx.rng)];
        let b = [word(&mut cx.rng), word(&mut cx.rng), word(&mut cx.rng), word(&mut cx.rng)];
        let (x, y) = (big4(a), big4(b));
        let back = |u: U256| big4(<[u64; 4]>::from(u));
        ensure!(back(U256::from(a)) == x, "words round trip of {:?}", a);
        let mut s = U256::from(a);
        s.wrapping_add_assign(U256::from(b));
        ensure!(back(s) == (&x + &y) % &m, "{} + {} mod 2^256 = {}", x, y, back(s));
        let mut s = U256::from(a);
        s.wrapping_sub_assign(U256::from(b));
        ensure!(back(s) == (&x + &m - &y) % &m, "{} - {} mod 2^256 = {}", x, y, back(s));
        ensure!(back(!U256::from(a)) == &m - 1u64 - &x, "not {}", x);
        ensure!(U256::from(a).msb() == a[3] >> 63, "top bit of {}", x);
        ensure!(back(U256::zero()).is_zero(), "zero");
        let k = match cx.rng.gen_range(0..3) {
            0 => *pick(&mut cx.rng, &[0usize, 1, 63, 64, 65, 126, 127, 128, 129, 191, 192, 193, 255]),
            _ => cx.rng.gen_range(0..256),
        };
        ensure!(back(U256::from(a) >> k) == &x >> k, "{} >> {} = {}", x, k, back(U256::from(a) >> k));
        let mut t = U256::from(a);
        t >>= k;
        ensure!(back(t) == &x >> k, "{} >>= {}", x, k);
        let d = <[u128; 2]>::from(U256::from(a));
        ensure!(back(U256::from(d)) == x && d[0] == (a[0] as u128 | (a[1] as u128) << 64), "double words of {}", x);
        let lo = U256::from([a[0], a[1], 0, 0]);
        ensure!(u128::from(&lo) == d[0], "low half of {}", x);
        cx.eval(!x.is_zero() && !y.is_zero(), &(a, b, k));
        cx.event(&format!("shift {}..{}", k / 64 * 64, k / 64 * 64 + 63));
    }
    Ok(())
}
fn bits_case(cx: &mut Cx) -> R {
    for _ in 0..if cx.tiny() { 5 } else { 60 } {
        let size = cx.rng.gen_range(1..=64usize);
        let m = word(&mut cx.rng) >> (64 - size);
        let v = bit_vector(size, m);
        ensure!(v.len() == size && (0..size).all(|i| v[i] == ((m >> i) & 1 == 1)), "bits of {} over {} are {:?}", m, size, v);
        let b = cx.rng.gen_range(1..=size.min(63));
        let d = decompose_bits(m, size, b);
        ensure!(d.len() == (size + b - 1) / b, "{} digits of {} bits for {} bits", d.len(), b, size);
        let mut acc = BigUint::zero();
        for (i, x) in d.iter().enumerate() {
            ensure!(b == 64 || *x < 1u64 << b, "digit {} of {} does not fit {} bits", i, x, b);
            acc += bu(*x) << (i * b);
        }
        ensure!(acc == bu(m), "digits {:?} in base 2^{} recompose to {}, not {}", d, b, acc, m);
        let w = word(&mut cx.rng).max(1);
        ensure!(ilog2(w) == w.ilog2() as usize, "ilog2({}) = {}", w, ilog2(w));
        let wide = ((word(&mut cx.rng) as u128) << 64 | word(&mut cx.rng) as u128).max(1);
        ensure!(ilog2(wide) == wide.ilog2() as usize, "ilog2({}) = {}", wide, ilog2(wide));
        let w32 = (w as u32).max(1);
        ensure!(ilog2(w32) == w32.ilog2() as usize && ilog2(w32 as usize) == w32.ilog2() as usize, "ilog2({})", w32);
        let a = if cx.rng.gen() { wide >> 1 } else { wide };
        let bb = match cx.rng.gen_range(0..3) {
            0 => 1,
            1 => 2,
            _ => word(&mut cx.rng).max(1) as u128,
        };
        let (aw, bw) = (word(&mut cx.rng), word(&mut cx.rng).max(1));
        ensure!(bu(div_ceil(aw, bw)) == (bu(aw) + bu(bw) - 1u64) / bu(bw), "ceil({} / {}) = {}", aw, bw, div_ceil(aw, bw));
        let q = div_ceil(a, bb);
        ensure!(bu_128(q) == (bu_128(a) + bu_128(bb) - 1u64) / bu_128(bb), "ceil({} / {}) = {}", a, bb, q);
        cx.eval(m > 1, &(size, m, b, a, bb));
        cx.event("bit utilities");
    }
    Ok(())
}
fn bu_128(x: u128) -> BigUint {
    BigUint::from(x)
}
pub fn c24() -> Prop {
    Prop {
        id: "C24",
        quick: 2000,
        thorough: 100000,
        rule: "case = pairs of 256-bit integers with words of all zeros, all ones, single bits or random, every shift distance; bit vectors and digit decompositions of every width; logarithms and ceiling division. Non-trivial: operands not zero. Oracle: arbitrary-precision integers.",
        kinds: vec![Kind { name: "u256", weight: 1, f: u256_case }, Kind { name: "bits", weight: 1, f: bits_case }],
    }
}
#[allow(unused)]
fn _unused() {
    let _ = 0u64.to_u64();
}
