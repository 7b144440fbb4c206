//! Reference models: schoolbook integer arithmetic, independent of the code
//! under test. Polynomials of the code under test are observed in coefficient
//! form (`change_representation(PowerBasis)`) as residues and lifted here.
use crate::ensure;
use num_bigint::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use onion_pir::vp_hooks::*;

pub fn mulmod(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 * b as u128) % q as u128) as u64
}
pub fn addmod(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + b as u128) % q as u128) as u64
}
pub fn submod(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + q as u128 - (b % q) as u128) % q as u128) as u64
}
pub fn powmod(mut a: u64, mut e: u64, q: u64) -> u64 {
    let mut r = 1 % q;
    a %= q;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, q);
        }
        a = mulmod(a, a, q);
        e >>= 1;
    }
    r
}
/// extended Euclid
pub fn invmod(a: u64, q: u64) -> Option<u64> {
    let (mut r0, mut r1) = (q as i128, (a % q) as i128);
    let (mut s0, mut s1) = (0i128, 1i128);
    while r1 != 0 {
        let k = r0 / r1;
        (r0, r1) = (r1, r0 - k * r1);
        (s0, s1) = (s1, s0 - k * s1);
    }
    if r0 != 1 {
        return None;
    }
    Some(s0.rem_euclid(q as i128) as u64)
}
/// deterministic Miller-Rabin for u64
pub fn prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        if n % p == 0 {
            return n == p;
        }
    }
    let (mut d, mut s) = (n - 1, 0);
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    'w: for a in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 0..s - 1 {
            x = mulmod(x, x, n);
            if x == n - 1 {
                continue 'w;
            }
        }
        return false;
    }
    true
}

pub fn product(q: &[u64]) -> BigUint {
    q.iter().fold(BigUint::one(), |a, b| a * *b)
}

/// Mixed-radix (Garner) reconstruction.
pub struct Crt {
    pub q: Vec<u64>,
    pub prod: BigUint,
    radix: Vec<BigUint>,
    inv: Vec<u64>,
}
impl Crt {
    pub fn new(q: &[u64]) -> Crt {
        let mut radix = vec![];
        let mut inv = vec![];
        let mut acc = BigUint::one();
        for &qi in q {
            radix.push(acc.clone());
            inv.push(invmod((&acc % qi).to_u64().unwrap(), qi).unwrap_or(0));
            acc *= qi;
        }
        Crt { q: q.to_vec(), prod: acc, radix, inv }
    }
    pub fn lift(&self, r: &[u64]) -> BigUint {
        let mut x = BigUint::from(r[0]);
        for i in 1..self.q.len() {
            let qi = self.q[i];
            let cur = (&x % qi).to_u64().unwrap();
            let d = mulmod(submod(r[i] % qi, cur, qi), self.inv[i], qi);
            x += &self.radix[i] * d;
        }
        x
    }
    pub fn center(&self, x: &BigUint) -> BigInt {
        center(x, &self.prod)
    }
}

pub fn center(x: &BigUint, q: &BigUint) -> BigInt {
    if (x << 1) > *q {
        BigInt::from(x.clone()) - BigInt::from(q.clone())
    } else {
        BigInt::from(x.clone())
    }
}
pub fn modp(x: &BigInt, q: &BigUint) -> BigUint {
    let q = BigInt::from_biguint(Sign::Plus, q.clone());
    x.mod_floor(&q).to_biguint().unwrap()
}

pub fn neg_mul(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    let n = a.len();
    let mut pos = vec![0u128; n];
    let mut neg = vec![0u128; n];
    let small = q < (1 << 56);
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            let p = a[i] as u128 * b[j] as u128;
            let t = if i + j < n { &mut pos[i + j] } else { &mut neg[i + j - n] };
            *t += p;
            if !small || *t >> 126 != 0 {
                if *t >> 125 != 0 {
                    *t %= q as u128;
                }
            }
        }
    }
    (0..n)
        .map(|i| submod((pos[i] % q as u128) as u64, (neg[i] % q as u128) as u64, q))
        .collect()
}
/// a * s with a small signed s
pub fn neg_mul_small(a: &[u64], s: &[i64], q: u64) -> Vec<u64> {
    let n = a.len();
    let mut acc = vec![0i128; n];
    for j in 0..n {
        let c = s[j] as i128;
        if c == 0 {
            continue;
        }
        for i in 0..n {
            let p = a[i] as i128 * c;
            let t = &mut acc[(i + j) % n];
            *t = if i + j < n { *t + p } else { *t - p };
            if t.unsigned_abs() >> 125 != 0 {
                *t %= q as i128;
            }
        }
    }
    acc.iter().map(|x| x.rem_euclid(q as i128) as u64).collect()
}
pub fn neg_mul_big(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    let mut r = vec![BigInt::zero(); n];
    for i in 0..n {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..n {
            let p = &a[i] * &b[j];
            if i + j < n {
                r[i + j] += p;
            } else {
                r[i + j - n] -= p;
            }
        }
    }
    r
}
/// a(X^k)
pub fn subst(a: &[u64], k: usize, q: u64) -> Vec<u64> {
    let n = a.len();
    let mut r = vec![0u64; n];
    for i in 0..n {
        let e = ((i as u128 * k as u128) % (2 * n as u128)) as usize;
        if e < n {
            r[e] = addmod(r[e], a[i], q);
        } else {
            r[e - n] = submod(r[e - n], a[i], q);
        }
    }
    r
}
pub fn addv(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| addmod(*x, *y, q)).collect()
}
pub fn subv(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| submod(*x, *y, q)).collect()
}

/// Residue rows of a polynomial in coefficient form, checked to be canonical.
pub fn rows(p: &Poly) -> Result<Vec<Vec<u64>>, String> {
    canonical(p)?;
    let mut p = p.clone();
    p.change_representation(Representation::PowerBasis);
    canonical(&p)?;
    Ok(raw(&p))
}
pub fn raw(p: &Poly) -> Vec<Vec<u64>> {
    p.coefficients().outer_iter().map(|r| r.to_vec()).collect()
}
pub fn canonical(p: &Poly) -> Result<(), String> {
    let c = p.coefficients();
    ensure!(
        c.nrows() == p.context.moduli_64.len() && c.ncols() == p.context.degree,
        "polynomial holds {}x{} residues for a context of {} moduli and degree {}",
        c.nrows(),
        c.ncols(),
        p.context.moduli_64.len(),
        p.context.degree
    );
    for (row, q) in c.outer_iter().zip(p.context.moduli_64.iter()) {
        for (j, x) in row.iter().enumerate() {
            ensure!(x < q, "residue {} at {} is not reduced mod {}", x, j, q);
        }
    }
    Ok(())
}
pub fn lift_rows(r: &[Vec<u64>], crt: &Crt) -> Vec<BigUint> {
    let n = r[0].len();
    (0..n)
        .map(|j| crt.lift(&r.iter().map(|row| row[j]).collect::<Vec<_>>()))
        .collect()
}
/// Integer coefficients in [0, Q)
pub fn bigs(p: &Poly) -> Result<Vec<BigUint>, String> {
    let crt = Crt::new(&p.context.moduli_64);
    Ok(lift_rows(&rows(p)?, &crt))
}

/// c0 + c1 s + c2 s^2 + ... over the integers mod Q
pub fn phase(cts: &[Poly], s: &[i64]) -> Result<Vec<BigUint>, String> {
    let q = cts[0].context.moduli_64.clone();
    let crt = Crt::new(&q);
    let mut acc = rows(&cts[cts.len() - 1])?;
    for c in cts[..cts.len() - 1].iter().rev() {
        ensure!(c.context.moduli_64 == q, "ciphertext components have different moduli");
        let c = rows(c)?;
        for (i, qi) in q.iter().enumerate() {
            acc[i] = addv(&neg_mul_small(&acc[i], s, *qi), &c[i], *qi);
        }
    }
    Ok(lift_rows(&acc, &crt))
}

/// max_j |t*phase_j - Q*m_j| (centred mod tQ): t times the noise. Decryption
/// to `m` is determined iff this is < Q/2.
pub fn noise_num(phase: &[BigUint], m: &[u64], q: &BigUint, t: u64) -> BigUint {
    let tq = q * t;
    let mut mx = BigUint::zero();
    for (p, mi) in phase.iter().zip(m) {
        let d = BigInt::from(p * t) - BigInt::from(q * *mi);
        let d = center(&modp(&d, &tq), &tq).abs().to_biguint().unwrap();
        if d > mx {
            mx = d;
        }
    }
    mx
}
/// max_j |phase_j - want_j| centred mod Q
pub fn dist(phase: &[BigUint], want: &[BigInt], q: &BigUint) -> BigUint {
    let mut mx = BigUint::zero();
    for (p, w) in phase.iter().zip(want) {
        let d = BigInt::from(p.clone()) - w;
        let d = center(&modp(&d, q), q).abs().to_biguint().unwrap();
        if d > mx {
            mx = d;
        }
    }
    mx
}
/// nearest integer to Q*m/t
pub fn delta_m(m: u64, q: &BigUint, t: u64) -> BigUint {
    (q * m + (BigUint::from(t) >> 1)) / t
}
