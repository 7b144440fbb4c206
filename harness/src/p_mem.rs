//! C21: memory safety and arithmetic integrity. The oracle is the build: the
//! overflow and unchecked-access monitors of the checked build, AddressSanitizer,
//! and the Miri interpreter. The workload here concentrates on the unsafe code
//! (transforms, basis change) and walks every layer once more at sizes an
//! interpreter can afford; check.py also runs every other workload under ASan.
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::run::*;
use ndarray::Array1;
use num_bigint::BigUint;
use num_traits::One;
use onion_pir::vp_hooks::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use std::sync::Arc;

fn bits(cx: &mut Cx, min: usize) -> usize {
    match cx.rng.gen_range(0..4) {
        0 => 62,
        1 => min,
        _ => cx.rng.gen_range(min..=62),
    }
}
fn basis(cx: &mut Cx, n: usize, l: usize) -> Vec<u64> {
    let mut q = vec![];
    let min = (2 * n as u64).ilog2() as usize + 3;
    while q.len() < l {
        let b = bits(cx, min);
        if let Some(p) = ntt_prime(&mut cx.rng, b, 2 * n as u64, &q) {
            q.push(p);
        }
    }
    q
}

/// Transforms in buffers of exactly the right size, at every offset of a
/// larger buffer, so that a read or write past either end is seen.
fn transforms(cx: &mut Cx) -> R {
    let n = if cx.tiny() { 1usize << cx.rng.gen_range(3..6) } else { 1usize << cx.rng.gen_range(3..13) };
    let p = basis(cx, n, 1)[0];
    let op = NttOperator::new(&Modulus::new(p), n);
    for round in 0..if cx.tiny() { 2 } else { 6 } {
        let v = if round == 0 { vec![p - 1; n] } else { vals(&mut cx.rng, n, p) };
        let mut exact = v.clone().into_boxed_slice();
        op.forward(&mut exact);
        ensure!(exact.iter().all(|x| *x < p), "transform left its range");
        op.backward(&mut exact);
        ensure!(exact[..] == v[..], "N={} p={}: transform and back is not the identity", n, p);
        // inside a larger buffer the surroundings stay as they are
        let pad = 1 + cx.rng.gen_range(0..n);
        let mut buf = vec![0xdeadbeefu64; n + 2 * pad];
        buf[pad..pad + n].copy_from_slice(&v);
        op.forward(&mut buf[pad..pad + n]);
        op.backward(&mut buf[pad..pad + n]);
        ensure!(
            buf[..pad].iter().chain(&buf[pad + n..]).all(|x| *x == 0xdeadbeef) && buf[pad..pad + n] == v[..],
            "N={}: a transform writes outside its operand",
            n
        );
        cx.eval(true, &(n, p, &v));
        cx.event(&format!("transform N={}", n));
    }
    Ok(())
}

/// RnsScaler::scale for every window of the target basis.
fn windows(cx: &mut Cx) -> R {
    let n = 8;
    let m = if cx.tiny() { 3 } else { 7 };
    let (lf, lt) = (cx.rng.gen_range(1..=m), cx.rng.gen_range(1..=m));
    let from = basis(cx, n, lf);
    let to = basis(cx, n, lt);
    let big = product(&from);
    let (num, den) = match cx.rng.gen_range(0..3) {
        0 => (BigUint::one(), BigUint::one()),
        1 => (BigUint::from(cx.rng.gen_range(1u64..1 << 20)), big.clone()),
        _ => (big_val(&mut cx.rng, &big) + 1u64, big_val(&mut cx.rng, &big) + 1u64),
    };
    let fc = Arc::new(RnsContext::new(&from));
    let tc = Arc::new(RnsContext::new(&to));
    let sc = RnsScaler::new(&fc, &tc, ScalingFactor::new(num, den));
    for _ in 0..if cx.tiny() { 1 } else { 6 } {
        let r: Vec<u64> = from.iter().map(|q| val(&mut cx.rng, *q)).collect();
        let rests = Array1::from(r.clone());
        let mut all = Array1::<u64>::zeros(lt);
        sc.scale(rests.view(), all.view_mut(), 0);
        for s in 0..lt {
            for len in 1..=lt - s {
                let mut out = Array1::<u64>::zeros(len);
                sc.scale(rests.view(), out.view_mut(), s);
                ensure!(out.iter().eq(all.iter().skip(s).take(len)), "from={:?} to={:?} rests={:?}: window {}+{} is {:?}, of {:?}", from, to, r, s, len, out, all);
                cx.eval(true, &(&from, &to, &r, s, len));
            }
        }
        cx.event(&format!("windows {}x{}", lf, lt));
    }
    Ok(())
}

fn ring(cx: &mut Cx) -> R {
    let n = if cx.tiny() { 8 } else { 1usize << cx.rng.gen_range(3..8) };
    let l = if cx.tiny() { 2 } else { cx.rng.gen_range(1..=5) };
    let q = basis(cx, n, l);
    let ctx = Arc::new(RqContext::new(q.clone(), n, BD));
    let crt = Crt::new(&q);
    let a = crt_vals(&mut cx.rng, n, &crt);
    let b = crt_vals(&mut cx.rng, n, &crt);
    let (pa, pb) = (poly_from_big(&ctx, &a, true), poly_from_big(&ctx, &b, true));
    let mut x = &(&pa + &pb) * &(&pa - &pb);
    x += &pa;
    x -= &pb;
    x *= &pa;
    let x = &-&x * &big_val(&mut cx.rng, &crt.prod);
    canonical(&x)?;
    let mut y = x.clone();
    y.change_representation(Representation::PowerBasis);
    canonical(&y)?;
    for _ in 0..4 {
        let k = 2 * cx.rng.gen_range(0..2 * n) + 1;
        let s = Substitution::new(&ctx, k);
        canonical(&x.substitute(&s))?;
        canonical(&y.substitute(&s))?;
    }
    if l > 1 {
        let mut z = y.clone();
        z.mod_switch_down_next();
        canonical(&z)?;
    }
    let back: Vec<BigUint> = Vec::from(&y);
    ensure!(poly_from_big(&ctx, &back, false) == y, "conversion round trip");
    // fewer coefficients than the degree, in memory used before
    for _ in 0..2 {
        let len = *pick(&mut cx.rng, &[0usize, 1, n / 2, n - 1, n]);
        let v: Vec<u64> = (0..len).map(|_| cx.rng.gen()).collect();
        let i: Vec<i64> = v.iter().map(|x| *x as i64).collect();
        let b: Vec<BigUint> = v.iter().map(|x| BigUint::from(*x)).collect();
        let (u, i, b) = (Poly::try_from_vec_u64(&ctx, &v), Poly::try_from_vec_i64(&ctx, &i), Poly::try_from_bigint(&ctx, &b));
        for p in [&u, &i, &b, &Poly::zero(&ctx, Representation::PowerBasis)] {
            canonical(p)?;
            ensure!(raw(p).iter().all(|r| r[len..].iter().all(|c| *c == 0)), "a polynomial of {} coefficients has more; N={} q={:?}", len, n, q);
        }
        ensure!(u == b, "conversions differ");
        cx.event("short conversions");
    }
    let mut rng = ChaCha8Rng::seed_from_u64(cx.rng.gen());
    canonical(&Poly::random(&ctx, &mut rng, Representation::Ntt))?;
    canonical(&Poly::random_small(&ctx, Representation::PowerBasis, cx.rng.gen_range(1..=16), &mut rng))?;
    canonical(&Poly::random_from_seed(&ctx, Representation::Ntt, seed32(&mut rng)))?;
    cx.eval(true, &(n, &q, hash(&raw(&x))));
    cx.event(&format!("ring N={} moduli={}", n, l));
    Ok(())
}

fn scheme(cx: &mut Cx) -> R {
    let c = if cx.tiny() {
        Arc::new(Cfg::new(8, 97, vec![1152921504606846577, 1152921504606846097], 3))
    } else {
        cfg(cx, &MEDIUM)
    };
    let sk = secret(cx, &c);
    let m = vals(&mut cx.rng, c.n, c.t);
    let lv = if cx.tiny() { 0 } else { level(cx, &c, 1) };
    let mk = |e| Plaintext::new(&c.params, &m, lv, e);
    let x = sk.encrypt(&mk(Encoding::Poly));
    let y = sk.encrypt(&mk(Encoding::SIMD));
    let mut s = &x + &y;
    s = &s - &x;
    s = &s * &mk(Encoding::SIMD);
    for p in &s.cts {
        canonical(p)?;
    }
    let d = sk.decrypt(&x);
    if c.fresh() <= c.room(lv) {
        ensure!(d.values.to_vec() == m, "round trip");
    }
    let _ = sk.measure_noise(&y);
    if !cx.tiny() || cx.case % 2 == 0 {
        let rlk = RelinearizationKey::new(&sk, lv);
        let z = multiply_with_strategy(&x, &y, &rlk);
        for p in &z.cts {
            canonical(p)?;
        }
    }
    if c.levels() - lv >= 2 {
        let k = 2 * cx.rng.gen_range(0..c.n) + 1;
        let gk = GaliosKey::new(&sk, &Substitution::new(&c.ctx(lv), k), lv);
        for p in &gk.relinearize(&x).cts {
            canonical(p)?;
        }
    }
    let rg = RgswCt::encrypt(&sk, &mk(Encoding::Poly));
    let (a, b) = RgswCt::external_product(&rg, &x);
    canonical(&a)?;
    canonical(&b)?;
    cx.eval(true, &(c.desc(), lv, &m));
    cx.event("scheme operations");
    Ok(())
}

fn odds(cx: &mut Cx) -> R {
    let mut rng = ChaCha8Rng::seed_from_u64(cx.rng.gen());
    for _ in 0..if cx.tiny() { 2 } else { 20 } {
        let len = cx.rng.gen_range(0..40);
        let v = cx.rng.gen_range(1..=16);
        let s = sample_vec_cbd(len, v, &mut rng);
        ensure!(s.len() == len, "sampled {} of {}", s.len(), len);
        let m = Modulus::new(cx.rng.gen_range(2..1u64 << 62));
        let p = m.modulus();
        let a = vals(&mut cx.rng, 8, p);
        let mut b = vals(&mut cx.rng, 8, p);
        m.mul_vec(&mut b, &a);
        m.add_vec(&mut b, &a);
        m.sub_vec(&mut b, &a);
        let _ = m.neg_vec(&b);
        let _ = m.reduce_vec_i64(&[i64::MIN, i64::MAX, -1, 0, 1]);
        let _ = m.reduce_vec_u64(&[u64::MAX, 0, 1 << 63]);
        let sh = m.shoup_vec(&a);
        for i in 0..8 {
            let _ = m.mul_shoup(u64::MAX, a[i], sh[i]);
            let _ = m.pow(a[i], p - 1);
        }
        let _ = m.reduce_u128(u128::MAX >> 2);
        let _ = m.random_vec(len, &mut rng);
        let w = cx.rng.gen_range(1..=64);
        let x: u64 = if w == 64 { cx.rng.gen() } else { cx.rng.gen_range(0..1u64 << w) };
        let d = decompose_bits(x, w, cx.rng.gen_range(1..=w));
        let _ = bit_vector(w, x);
        cx.eval(true, &(len, v, p, x, w, d));
    }
    cx.event("scalar and sampling operations");
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        quick: 1500,
        thorough: 30000,
        rule: "case = transforms in exactly sized and padded buffers, every window of a basis change, ring, scheme and scalar operations at hostile values, under the checked build, AddressSanitizer and (smallest sizes) Miri; plus, under AddressSanitizer and MemorySanitizer, cases of every other property's workload. Non-trivial: all. Oracle: no sanitizer report, no overflow or bounds panic, no abnormal end, residues in range, memory around operands untouched.",
        kinds: vec![
            Kind { name: "transforms", weight: 2, f: transforms },
            Kind { name: "windows", weight: 2, f: windows },
            Kind { name: "ring", weight: 2, f: ring },
            Kind { name: "scheme", weight: 1, f: scheme },
            Kind { name: "odds", weight: 1, f: odds },
        ],
    }
}
