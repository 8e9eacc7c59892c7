//! Independent reference arithmetic (u128 / BigUint, schoolbook), sharing no
//! code with the library under test.
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, ToPrimitive, Zero};

pub fn mulmod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 * b as u128) % m as u128) as u64
}
pub fn addmod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 + b as u128) % m as u128) as u64
}
pub fn submod(a: u64, b: u64, m: u64) -> u64 {
    ((a as u128 + m as u128 - (b % m) as u128) % m as u128) as u64
}
pub fn powmod(mut a: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    a %= m;
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a, m);
        }
        a = mulmod(a, a, m);
        e >>= 1;
    }
    r
}
/// Deterministic Miller-Rabin for u64.
pub fn prime(n: u64) -> bool {
    const B: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    if n < 2 {
        return false;
    }
    for p in B {
        if n % p == 0 {
            return n == p;
        }
    }
    let mut d = n - 1;
    let mut s = 0;
    while d % 2 == 0 {
        d /= 2;
        s += 1;
    }
    'o: for a in B {
        let mut x = powmod(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulmod(x, x, n);
            if x == n - 1 {
                continue 'o;
            }
        }
        return false;
    }
    true
}
pub fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// Inverse of a modulo m if coprime (extended Euclid on i128).
pub fn inv(a: u64, m: u64) -> Option<u64> {
    let (mut r0, mut r1) = (m as i128, (a % m) as i128);
    let (mut t0, mut t1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    if r0 != 1 {
        return None;
    }
    Some(t0.rem_euclid(m as i128) as u64)
}
/// The `i`-th largest prime strictly below `2^bits` with exactly `bits` bits
/// that is 1 modulo `two_n`.
pub fn ntt_prime(bits: usize, two_n: u64, i: usize) -> Option<u64> {
    let lo = 1u64 << (bits - 1);
    let top = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut c = top - ((top - 1) % two_n);
    let mut k = 0;
    while c >= lo && c > 1 {
        if prime(c) {
            if k == i {
                return Some(c);
            }
            k += 1;
        }
        if c < two_n {
            break;
        }
        c -= two_n;
    }
    None
}
/// The `i`-th smallest prime with exactly `bits` bits that is 1 modulo `two_n`.
pub fn ntt_prime_low(bits: usize, two_n: u64, i: usize) -> Option<u64> {
    let lo = 1u64 << (bits - 1);
    let top = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut c = (lo - 1) / two_n * two_n + 1;
    let mut k = 0;
    while c <= top {
        if c >= lo && c > 1 && prime(c) {
            if k == i {
                return Some(c);
            }
            k += 1;
        }
        c = c.checked_add(two_n)?;
    }
    None
}
/// Either end of the range of primes of that size.
pub fn ntt_prime_at(low: bool, bits: usize, two_n: u64, i: usize) -> Option<u64> {
    if low { ntt_prime_low(bits, two_n, i) } else { ntt_prime(bits, two_n, i) }
}
/// Schoolbook product in Z_m[x]/(x^n+1).
/// Product in Z[x] of two coefficient lists, by packing each into one integer
/// (Kronecker substitution) and multiplying those.
fn kronecker(a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
    let bits = |v: &[BigUint]| v.iter().map(|x| x.bits()).max().unwrap_or(0) as usize;
    let slot = (bits(a) + bits(b) + a.len().ilog2() as usize + 1).div_ceil(8) + 1;
    let pack = |v: &[BigUint]| {
        let mut w = vec![0u8; v.len() * slot];
        for (i, x) in v.iter().enumerate() {
            let d = x.to_bytes_le();
            w[i * slot..i * slot + d.len()].copy_from_slice(&d);
        }
        BigUint::from_bytes_le(&w)
    };
    let mut c = (pack(a) * pack(b)).to_bytes_le();
    c.resize(2 * a.len() * slot, 0);
    c.chunks(slot).map(BigUint::from_bytes_le).collect()
}
/// Product in Z[x]/(x^n + 1).
pub fn kron_z(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    let sign = |v: &[BigInt], s: Sign| v.iter().map(|x| if x.sign() == s { x.magnitude().clone() } else { BigUint::zero() }).collect::<Vec<_>>();
    let mut r = vec![BigInt::zero(); n];
    for (sa, sb) in [(Sign::Plus, Sign::Plus), (Sign::Plus, Sign::Minus), (Sign::Minus, Sign::Plus), (Sign::Minus, Sign::Minus)] {
        let c = kronecker(&sign(a, sa), &sign(b, sb));
        for i in 0..n {
            let x = bi(&c[i]) - bi(&c[i + n]);
            if sa == sb { r[i] += x } else { r[i] -= x }
        }
    }
    r
}
/// Product in Z_m[x]/(x^n + 1).
pub fn negacyclic(a: &[u64], b: &[u64], m: u64) -> Vec<u64> {
    let n = a.len();
    if n >= 128 && a.iter().filter(|x| **x != 0).count() > 16 {
        let f = |v: &[u64]| v.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>();
        return kron_nega(&f(a), &f(b), &BigUint::from(m)).iter().map(|x| x.to_u64().unwrap()).collect();
    }
    let mut r = vec![0u64; n];
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            let p = mulmod(a[i], b[j], m);
            let k = i + j;
            if k < n {
                r[k] = addmod(r[k], p, m);
            } else {
                r[k - n] = submod(r[k - n], p, m);
            }
        }
    }
    r
}
fn kron_nega(a: &[BigUint], b: &[BigUint], m: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    let c = kronecker(a, b);
    (0..n).map(|i| (&c[i] % m + m - &c[i + n] % m) % m).collect()
}
pub fn negacyclic_big(a: &[BigUint], b: &[BigUint], m: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    let nz = |v: &[BigUint]| v.iter().filter(|x| !x.is_zero()).count();
    if n >= 64 && nz(a) > 16 && nz(b) > 16 {
        return kron_nega(a, b, m);
    }
    let mut pos = vec![BigUint::zero(); n];
    let mut neg = vec![BigUint::zero(); n];
    for i in 0..n {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..n {
            if b[j].is_zero() {
                continue;
            }
            let p = &a[i] * &b[j];
            if i + j < n {
                pos[i + j] += p;
            } else {
                neg[i + j - n] += p;
            }
        }
    }
    pos.into_iter()
        .zip(neg)
        .map(|(p, q)| {
            let q = q % m;
            (p % m + m - q) % m
        })
        .collect()
}
pub fn crt(res: &[u64], moduli: &[u64]) -> BigUint {
    let q: BigUint = moduli.iter().map(|m| BigUint::from(*m)).product();
    let mut x = BigUint::zero();
    for (r, m) in res.iter().zip(moduli) {
        let qi = &q / *m;
        let k = inv((&qi % *m).to_u64().unwrap(), *m).unwrap();
        x += &qi * mulmod(*r, k, *m);
    }
    x % q
}
/// Precomputed CRT.
#[derive(Clone)]
pub struct Crt {
    pub q: BigUint,
    pub moduli: Vec<u64>,
    g: Vec<BigUint>,
}
impl Crt {
    pub fn new(moduli: &[u64]) -> Self {
        let q: BigUint = moduli.iter().map(|m| BigUint::from(*m)).product();
        let g = moduli
            .iter()
            .map(|m| {
                let qi = &q / *m;
                let k = inv((&qi % *m).to_u64().unwrap(), *m).unwrap();
                qi * k
            })
            .collect();
        Self { q, moduli: moduli.to_vec(), g }
    }
    pub fn lift(&self, res: impl Iterator<Item = u64>) -> BigUint {
        let mut x = BigUint::zero();
        for (r, g) in res.zip(&self.g) {
            x += g * r;
        }
        x % &self.q
    }
}
/// Centred representative in (-q/2, q/2].
pub fn centered(x: &BigUint, q: &BigUint) -> BigInt {
    if (x << 1u32) > *q {
        BigInt::from_biguint(Sign::Plus, x.clone()) - BigInt::from_biguint(Sign::Plus, q.clone())
    } else {
        BigInt::from_biguint(Sign::Plus, x.clone())
    }
}
pub fn bi(x: &BigUint) -> BigInt {
    BigInt::from_biguint(Sign::Plus, x.clone())
}
pub fn modbig(x: &BigInt, m: &BigUint) -> BigUint {
    let m = bi(m);
    let mut r = x % &m;
    if r.sign() == Sign::Minus {
        r += &m;
    }
    r.to_biguint().unwrap()
}
/// floor(a/b) for b>0.
pub fn floor_div(a: &BigInt, b: &BigUint) -> BigInt {
    let b = bi(b);
    let q = a / &b;
    let r = a % &b;
    if r.sign() == Sign::Minus { q - BigInt::one() } else { q }
}
/// round-half-up(a/b).
pub fn round_div(a: &BigInt, b: &BigUint) -> BigInt {
    let two_a: BigInt = a << 1u32;
    floor_div(&(two_a + bi(b)), &(b << 1u32))
}
pub fn log2(x: &BigUint) -> f64 {
    let b = x.bits();
    if b <= 64 {
        return (x.to_u64().unwrap() as f64).log2();
    }
    let s = b - 64;
    ((x >> s).to_u64().unwrap() as f64).log2() + s as f64
}
/// Substitution x -> x^k in Z_m[x]/(x^n+1).
pub fn automorphism(a: &[BigUint], k: usize, m: &BigUint) -> Vec<BigUint> {
    let n = a.len();
    let mut r = vec![BigUint::zero(); n];
    for (i, c) in a.iter().enumerate() {
        let e = (i * k) % (2 * n);
        if e < n {
            r[e] = (&r[e] + c) % m;
        } else {
            r[e - n] = (&r[e - n] + m - (c % m)) % m;
        }
    }
    r
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn kronecker_agrees_with_schoolbook() {
        let mut x = 12345u64;
        let mut r = |m: u64| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            if x >> 60 == 0 { m - 1 } else { (x >> 1) % m }
        };
        for (n, m) in [(8usize, 17u64), (16, (1 << 62) - 57), (32, 3), (128, 12289), (256, (1 << 61) - 1)] {
            let a: Vec<u64> = (0..n).map(|_| r(m)).collect();
            let b: Vec<u64> = (0..n).map(|_| r(m)).collect();
            let mut want = vec![0u64; n];
            for i in 0..n {
                for j in 0..n {
                    let p = mulmod(a[i], b[j], m);
                    if i + j < n { want[i + j] = addmod(want[i + j], p, m) } else { want[i + j - n] = submod(want[i + j - n], p, m) }
                }
            }
            assert_eq!(negacyclic(&a, &b, m), want);
            let f = |v: &[u64]| v.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>();
            assert_eq!(kron_nega(&f(&a), &f(&b), &BigUint::from(m)), f(&want));
            assert_eq!(negacyclic_big(&f(&a), &f(&b), &BigUint::from(m)), f(&want));
            let big = BigUint::from(m);
            let z = |v: &[u64]| v.iter().map(|x| centered(&BigUint::from(*x), &big)).collect::<Vec<_>>();
            assert_eq!(kron_z(&z(&a), &z(&b)).iter().map(|x| modbig(x, &big)).collect::<Vec<_>>(), f(&want));
        }
    }
}
