//! Reference model of the BFV scheme: parameter generator, keys, exact phases,
//! encoding, decryption and noise, all on big integers and schoolbook products.
use crate::choice::*;
use crate::num::{self, Crt};
use crate::p_poly::vt;
use fhe::bfv::{BfvParameters, BfvParametersBuilder, Ciphertext, Encoding, Plaintext, PublicKey, SecretKey};
use fhe_math::rq::{Ntt, Poly, PowerBasis, traits::TryConvertFrom};
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use ndarray::Array2;
use num_bigint::{BigInt, BigUint, Sign};
use num_traits::{One, Signed, ToPrimitive, Zero};
use prost::Message;
use std::sync::Arc;

pub type Res<T> = Result<T, String>;

/// A parameter set together with everything the model needs.
#[derive(Clone)]
pub struct Ps {
    pub par: Arc<BfvParameters>,
    pub n: usize,
    pub q: Vec<u64>,
    pub t: BigUint,
    pub tu: Option<u64>,
    pub simd: bool,
    pub var: usize,
    pub crts: Vec<Crt>,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Spec {
    pub log_n: (usize, usize),
    /// the largest degree of the few cases of large degree (0: none)
    pub top: usize,
    pub k: (usize, usize),
    /// require a slot-friendly plaintext modulus
    pub simd: bool,
    /// allow plaintext moduli beyond 64 bits
    pub big: bool,
    /// bits of Q to keep free above t, as multiples: t^a * 2^reserve < Q at the top level
    pub depth: usize,
    pub reserve: usize,
    /// minimal size of the moduli in bits
    pub qmin: usize,
}
impl Default for Spec {
    fn default() -> Self {
        Spec { log_n: (3, 5), top: 14, k: (1, 6), simd: false, big: true, depth: 0, reserve: 0, qmin: 10 }
    }
}

pub fn pow2(b: usize) -> BigUint {
    BigUint::one() << b
}

/// Draws a modulus chain.
pub fn chain(g: &mut Gen, n: usize, k: (usize, usize), qmin: usize) -> Vec<u64> {
    let k = g.range(k.0, k.1);
    let style = g.below(5);
    let same = g.range(qmin, 62);
    // the sizes say little about the product when the primes are just above a power of two
    let ends = g.weighted(&[5, 2, 1]);
    let mut v: Vec<u64> = vec![];
    let mut tries = 0;
    while v.len() < k {
        tries += 1;
        let b = if tries > 60 {
            62
        } else {
            match style {
                0 => 62,
                1 => same,
                2 => *g.pick(&[62, 61, 60, 55, 50, 40, 36, 30, 20]),
                3 => *g.pick(&[62, 62, 62, 30, 20, 10]),
                _ => g.range(qmin, 62),
            }
        }
        .max(qmin);
        let i = if tries > 60 { tries - 60 } else { g.usize_below(10) };
        let low = tries <= 60 && (ends == 1 || (ends == 2 && g.bool()));
        if let Some(p) = num::ntt_prime_at(low, b, 2 * n as u64, i) {
            if !v.contains(&p) {
                v.push(p);
            }
        }
    }
    v
}

fn coprime_all(t: &BigUint, q: &[u64]) -> bool {
    q.iter().all(|m| num::gcd((t % *m).to_u64().unwrap(), *m) == 1)
}

/// Draws a plaintext modulus below `2^max_bits` that the builder accepts.
pub fn plain_modulus(g: &mut Gen, n: usize, q: &[u64], max_bits: usize, simd: bool, big: bool) -> Option<BigUint> {
    let mb62 = max_bits.min(62);
    for _ in 0..40 {
        let class = if simd { 0 } else { g.weighted(&[5, 2, 2, 3, if big && max_bits > 64 { 4 } else { 0 }]) };
        let t = match class {
            0 => {
                let lo = (2 * n).ilog2() as usize + 1;
                if mb62 < lo {
                    if simd {
                        return None;
                    }
                    continue;
                }
                let b = match g.below(3) {
                    0 => mb62,
                    1 => g.range(lo, mb62),
                    _ => g.range(lo, mb62.min(20).max(lo)),
                };
                let i = g.usize_below(6);
                match num::ntt_prime_at(g.chance(1, 4), b, 2 * n as u64, i) {
                    Some(p) => BigUint::from(p),
                    None => continue,
                }
            }
            1 => BigUint::from(2 + g.draw(20)),
            2 => pow2(g.range(1, mb62.max(2) - 1)),
            3 => {
                let b = g.range(2, mb62.max(2));
                let top = (1u64 << b) - 1;
                BigUint::from(g.biased(top).max(2))
            }
            _ => {
                let b = g.range(65, max_bits.min(320));
                let mut r = g.rng();
                let mut x = pow2(b - 1);
                for w in 0..b.div_ceil(64) {
                    x += BigUint::from(rand::Rng::next_u64(&mut r)) << (64 * w);
                }
                let x = x % pow2(b);
                match g.below(4) {
                    // every i64 is a centred residue, and -2^63 is the tie
                    3 => pow2(64) + g.draw(2),
                    0 => pow2(b) - 1u32,
                    1 => pow2(b - 1),
                    _ => x,
                }
            }
        };
        if t.bits() as usize <= max_bits && t >= BigUint::from(2u32) && (t.bits() <= 62 || t.bits() > 64) && coprime_all(&t, q) {
            return Some(t);
        }
    }
    None
}

/// A parameter set. Building one costs up to tens of milliseconds, so most cases
/// take one of `POOL` fixed sets per specification, built once per process; the
/// others draw a new one (which is also what a failing case shrinks to).
pub fn params(g: &mut Gen, sp: &Spec) -> Res<Ps> {
    if !g.chance(9, 10) {
        return new_params(g, sp);
    }
    // now and then a large degree, where it matters that nothing was sized for small ones
    let sp = if sp.log_n.1 <= 8 && sp.top > 0 && large(g, 200) {
        let lo = g.range(9, sp.top);
        &Spec { log_n: (lo, lo), k: (sp.k.0, sp.k.1.min(sp.k.0 + 1)), ..sp.clone() }
    } else if sp.k.1 > 2 && sp.log_n.1 <= 8 && wide(g, 80) {
        // or many moduli, at a small degree
        let lo = sp.log_n.0;
        &Spec { log_n: (lo, lo), k: (9, 20), ..sp.clone() }
    } else {
        sp
    };
    let slot = g.below(if sp.log_n.0 > 8 { 4 } else if sp.k.0 > 8 { 48 } else { POOL });
    type Pool = std::collections::HashMap<(Spec, u64), Ps>;
    static CACHE: std::sync::LazyLock<std::sync::Mutex<Pool>> = std::sync::LazyLock::new(Default::default);
    let key = (sp.clone(), slot);
    if let Some(p) = CACHE.lock().unwrap().get(&key) {
        return Ok(p.clone());
    }
    let p = new_params(&mut Gen::random(0x5e75_0000 + slot), sp)?;
    CACHE.lock().unwrap().insert(key, p.clone());
    Ok(p)
}
const POOL: u64 = 384;
/// Whether a case is one of the few of large degree.
pub fn large(g: &mut Gen, one_in: u64) -> bool {
    static ALL: std::sync::LazyLock<u64> = std::sync::LazyLock::new(|| std::env::var("FV_LARGE").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
    g.chance((*ALL).min(one_in), one_in)
}
/// Whether a case is one of the few with many moduli.
pub fn wide(g: &mut Gen, one_in: u64) -> bool {
    static ALL: std::sync::LazyLock<u64> = std::sync::LazyLock::new(|| std::env::var("FV_WIDE").ok().and_then(|x| x.parse().ok()).unwrap_or(1));
    g.chance((*ALL).min(one_in), one_in)
}

fn new_params(g: &mut Gen, sp: &Spec) -> Res<Ps> {
    for _ in 0..30 {
        let log_n = if g.chance(3, 4) { sp.log_n.0 + g.usize_below((sp.log_n.1 - sp.log_n.0).min(1) + 1) } else { g.range(sp.log_n.0, sp.log_n.1) };
        let n = 1usize << log_n;
        let q = chain(g, n, sp.k, sp.qmin);
        let qq: BigUint = q.iter().map(|m| BigUint::from(*m)).product();
        let qb = qq.bits() as usize - 1;
        let var = if g.bool() { 10 } else { g.range(1, 32) };
        if qb <= sp.reserve + 2 {
            continue;
        }
        let mb = (qb - sp.reserve) / (sp.depth + 1);
        if mb < 2 {
            continue;
        }
        // also accept t close to q (no room for noise) when nothing is reserved
        let Some(t) = plain_modulus(g, n, &q, mb, sp.simd, sp.big) else { continue };
        if t >= qq {
            continue;
        }
        let mut b = BfvParametersBuilder::new();
        b.set_degree(n).set_moduli(&q).set_variance(var);
        if let Some(tu) = t.to_u64() {
            b.set_plaintext_modulus(tu);
        } else {
            b.set_plaintext_modulus_biguint(t.clone());
        }
        let par = b.build_arc().ctx("build parameters")?;
        return Ok(Ps::from_par(par, var));
    }
    Err("harness: no parameter set found".into())
}

impl Ps {
    pub fn from_par(par: Arc<BfvParameters>, var: usize) -> Ps {
        let q = par.moduli().to_vec();
        let n = par.degree();
        let t = par.plaintext_big().clone();
        let tu = t.to_u64();
        let simd = tu.is_some_and(|t| t % (2 * n as u64) == 1 && num::prime(t));
        let crts = (0..q.len()).map(|l| Crt::new(&q[..q.len() - l])).collect();
        Ps { par, n, q, t, tu, simd, var, crts }
    }
    pub fn desc(&self) -> String {
        format!("n={} t={} moduli={:?} variance={}", self.n, self.t, self.q, self.var)
    }
    pub fn levels(&self) -> usize {
        self.q.len()
    }
    pub fn ql(&self, l: usize) -> &BigUint {
        &self.crts[l].q
    }
    pub fn mods(&self, l: usize) -> &[u64] {
        &self.q[..self.q.len() - l]
    }
    /// worst coefficient of a sampled error or key
    pub fn eb(&self) -> u64 {
        2 * self.var as u64
    }
    /// Noise `nu` (which includes the encoding remainder) decrypts correctly at level l.
    pub fn ok(&self, l: usize, nu: &BigUint) -> bool {
        // 2 t nu < Q, with a margin for the 2^-50 tie tolerance
        let lhs = (&self.t * nu) << 1u32;
        lhs < *self.ql(l) && (&lhs + (&lhs >> 40u32)) < *self.ql(l)
    }
    pub fn top_usable(&self, nu: &BigUint) -> Vec<usize> {
        (0..self.levels()).filter(|l| self.ok(*l, nu)).collect()
    }
    /// noise of a fresh secret-key encryption
    pub fn nu_sk(&self) -> BigUint {
        BigUint::from(self.eb() + 1)
    }
    /// noise of a fresh public-key encryption at level l
    pub fn nu_pk(&self, l: usize, s1: u64) -> BigUint {
        // u*e_pk + e1 + e2*s, plus the rounding of switching the key down
        let n = self.n as u64;
        let u1 = n * self.eb();
        let mut e = self.eb() as u128 * u1 as u128 + self.eb() as u128 + self.eb() as u128 * s1 as u128;
        if l > 0 {
            // switched-down public key: its error becomes <= e/q + (1+s1)/2 * (1 + 1/q + ...)
            e += u1 as u128 * (1 + s1 as u128);
        }
        BigUint::from(e + 1)
    }
    pub fn enc(&self, l: usize, m: &[BigUint]) -> Vec<BigUint> {
        m.iter().map(|x| self.ql(l) * x / &self.t).collect()
    }
    /// Possible results of decrypting one coefficient (exact, or either neighbour on a tie).
    pub fn dec1(&self, l: usize, ph: &BigUint) -> (BigUint, Option<BigUint>) {
        let q = self.ql(l);
        let num2 = ((ph * &self.t) << 1u32) + q;
        let den = q << 1u32;
        let f = &num2 / &den;
        let r = &num2 % &den;
        let a = &f % &self.t;
        let tol = &den >> 45u32;
        let b = if r <= tol {
            Some((&a + &self.t - 1u32) % &self.t)
        } else if &den - &r <= tol {
            Some((&a + 1u32) % &self.t)
        } else {
            None
        };
        (a, b)
    }
    pub fn msg(&self, g: &mut Gen) -> Vec<BigUint> {
        match self.tu {
            Some(t) => bulk(g, self.n, t - 1).into_iter().map(BigUint::from).collect(),
            None => {
                let pat = g.below(4);
                let mut r = g.rng();
                (0..self.n)
                    .map(|i| {
                        let w = rand::Rng::next_u32(&mut r) % 6;
                        match (pat, w) {
                            (0, _) => BigUint::zero(),
                            (1, _) if i > 0 => BigUint::zero(),
                            (2, 0) => &self.t - 1u32,
                            (2, 1) => &self.t >> 1u32,
                            (2, 2) => BigUint::from(w),
                            _ => {
                                let mut x = BigUint::zero();
                                for _ in 0..self.t.bits().div_ceil(64) + 1 {
                                    x = (x << 64u32) + BigUint::from(rand::Rng::next_u64(&mut r));
                                }
                                x % &self.t
                            }
                        }
                    })
                    .collect()
            }
        }
    }
    pub fn msg_small(&self, g: &mut Gen, max: u64) -> Vec<BigUint> {
        let m = self.tu.map_or(max, |t| max.min(t - 1));
        bulk(g, self.n, m).into_iter().map(BigUint::from).collect()
    }
    /// Plaintext with the given coefficients.
    pub fn pt(&self, m: &[BigUint], l: usize) -> Res<Plaintext> {
        match self.tu {
            Some(_) => {
                let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap()).collect();
                Plaintext::try_encode(&v, Encoding::poly_at_level(l), &self.par).ctx("encode")
            }
            None => Plaintext::try_encode(m, Encoding::poly_at_level(l), &self.par).ctx("encode"),
        }
    }
    pub fn coeffs(&self, pt: &Plaintext, l: usize) -> Res<Vec<BigUint>> {
        Vec::<BigUint>::try_decode(pt, Encoding::poly_at_level(l)).ctx("decode")
    }
    /// Coefficients of a plaintext whatever its encoding: what it multiplies the
    /// constant ciphertext (1, 0) by.
    pub fn coeffs_any(&self, pt: &Plaintext, l: usize) -> Res<Vec<BigUint>> {
        let rows = Array2::zeros((self.mods(l).len(), self.n));
        let mut one = rows.clone();
        for (i, _) in self.mods(l).iter().enumerate() {
            one[[i, 0]] = 1;
        }
        let c = Ciphertext::new(vec![self.poly(l, &one, false)?, self.poly(l, &rows, false)?], &self.par).ctx("ciphertext")?;
        let p = &c * pt;
        Ok(self.lift(l, &self.parts(&p)[0]).into_iter().map(|x| x % &self.t).collect())
    }
    /// Ring product in the plaintext ring.
    pub fn mul_t(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        match self.tu {
            Some(t) => {
                let f = |v: &[BigUint]| v.iter().map(|x| x.to_u64().unwrap()).collect::<Vec<_>>();
                num::negacyclic(&f(a), &f(b), t).into_iter().map(BigUint::from).collect()
            }
            None => num::negacyclic_big(a, b, &self.t),
        }
    }
    pub fn add_t(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        a.iter().zip(b).map(|(x, y)| (x + y) % &self.t).collect()
    }
    pub fn sub_t(&self, a: &[BigUint], b: &[BigUint]) -> Vec<BigUint> {
        a.iter().zip(b).map(|(x, y)| (x + &self.t - y) % &self.t).collect()
    }
    pub fn neg_t(&self, a: &[BigUint]) -> Vec<BigUint> {
        a.iter().map(|x| (&self.t - x) % &self.t).collect()
    }
    // ---- ring elements modulo Q_l as residue rows
    pub fn rows(&self, l: usize, v: &[BigInt]) -> Array2<u64> {
        Array2::from_shape_fn((self.mods(l).len(), self.n), |(i, j)| {
            num::modbig(&v[j], &BigUint::from(self.q[i])).to_u64().unwrap()
        })
    }
    pub fn rows_u(&self, l: usize, v: &[BigUint]) -> Array2<u64> {
        Array2::from_shape_fn((self.mods(l).len(), self.n), |(i, j)| (&v[j] % self.q[i]).to_u64().unwrap())
    }
    pub fn lift(&self, l: usize, a: &Array2<u64>) -> Vec<BigUint> {
        (0..self.n).map(|j| self.crts[l].lift(a.column(j).iter().copied())).collect()
    }
    pub fn rmul(&self, l: usize, a: &Array2<u64>, b: &Array2<u64>) -> Array2<u64> {
        let mut r = Array2::zeros(a.raw_dim());
        for (i, q) in self.mods(l).iter().enumerate() {
            let p = num::negacyclic(a.row(i).as_slice().unwrap(), b.row(i).as_slice().unwrap(), *q);
            r.row_mut(i).assign(&ndarray::Array1::from(p));
        }
        r
    }
    pub fn radd(&self, l: usize, a: &Array2<u64>, b: &Array2<u64>) -> Array2<u64> {
        let mut r = a.clone();
        for (i, q) in self.mods(l).iter().enumerate() {
            for j in 0..self.n {
                r[(i, j)] = num::addmod(a[(i, j)], b[(i, j)], *q);
            }
        }
        r
    }
    pub fn rsub(&self, l: usize, a: &Array2<u64>, b: &Array2<u64>) -> Array2<u64> {
        let mut r = a.clone();
        for (i, q) in self.mods(l).iter().enumerate() {
            for j in 0..self.n {
                r[(i, j)] = num::submod(a[(i, j)], b[(i, j)], *q);
            }
        }
        r
    }
    pub fn sk_rows(&self, l: usize, s: &[i64]) -> Array2<u64> {
        Array2::from_shape_fn((self.mods(l).len(), self.n), |(i, j)| (s[j] as i128).rem_euclid(self.q[i] as i128) as u64)
    }
    pub fn random_rows(&self, g: &mut Gen, l: usize) -> Array2<u64> {
        let style = g.below(5);
        if style == 4 {
            // the coefficient of largest magnitude, everywhere
            let q = self.ql(l);
            let v = (q >> 1u32) - (q >> g.range(16, 90));
            let v = if g.bool() { v } else { q - v };
            return self.rows_u(l, &vec![v; self.n]);
        }
        let mut r = g.rng();
        Array2::from_shape_fn((self.mods(l).len(), self.n), |(i, _)| match style {
            0 => edge(&mut r, self.q[i] - 1),
            _ => uni(&mut r, self.q[i] - 1),
        })
    }
    pub fn poly(&self, l: usize, a: &Array2<u64>, permit: bool) -> Res<Poly<Ntt>> {
        let ctx = self.par.context_at_level(l).ctx("context")?;
        let mut p = Poly::<PowerBasis>::try_convert_from(a.clone(), ctx, false).ctx("poly")?.into_ntt();
        if permit {
            p.allow_variable_time_computations(vt());
        }
        Ok(p)
    }
    /// Residue rows of every part of a ciphertext.
    pub fn parts(&self, ct: &Ciphertext) -> Vec<Array2<u64>> {
        ct.iter().map(|p| p.clone().into_power_basis().coefficients().to_owned()).collect()
    }
    pub fn level(&self, ct: &Ciphertext) -> usize {
        self.q.len() - ct[0].ctx().moduli().len()
    }
    /// c0 + c1 s + c2 s^2 + ... modulo Q_l
    pub fn phase_rows(&self, s: &[i64], parts: &[Array2<u64>], l: usize) -> Array2<u64> {
        let sr = self.sk_rows(l, s);
        let mut acc = parts.last().unwrap().clone();
        for p in parts.iter().rev().skip(1) {
            acc = self.radd(l, &self.rmul(l, &acc, &sr), p);
        }
        acc
    }
    pub fn phase(&self, s: &[i64], ct: &Ciphertext) -> Vec<BigUint> {
        let l = self.level(ct);
        let r = self.phase_rows(s, &self.parts(ct), l);
        self.lift(l, &r)
    }
    /// Largest centred difference between two vectors modulo Q_l.
    pub fn dist(&self, l: usize, a: &[BigUint], b: &[BigUint]) -> BigUint {
        let q = self.ql(l);
        a.iter()
            .zip(b)
            .map(|(x, y)| {
                let d = (x + q - (y % q)) % q;
                num::centered(&d, q).magnitude().clone()
            })
            .max()
            .unwrap()
    }
    /// nu = |e| + 1 of a ciphertext as an encryption of m
    pub fn nu(&self, s: &[i64], ct: &Ciphertext, m: &[BigUint]) -> BigUint {
        let l = self.level(ct);
        self.dist(l, &self.phase(s, ct), &self.enc(l, m)) + 1u32
    }
    /// Bit length of the noise as measure_noise reports it.
    pub fn noise_bits(&self, l: usize, ph: &[BigUint], m: &[BigUint]) -> usize {
        self.dist(l, ph, &self.enc(l, m)).bits() as usize
    }
    /// A ciphertext with `parts` parts whose phase is exactly enc(m) + e.
    pub fn synth(&self, g: &mut Gen, sk: &Sk, l: usize, parts: usize, m: &[BigUint], e: &[BigInt]) -> Res<Ciphertext> {
        let ph: Vec<BigInt> = self.enc(l, m).iter().zip(e).map(|(x, y)| num::bi(x) + y).collect();
        self.with_phase(g, sk, l, parts, &self.rows(l, &ph))
    }
    pub fn with_phase(&self, g: &mut Gen, sk: &Sk, l: usize, parts: usize, ph: &Array2<u64>) -> Res<Ciphertext> {
        let permit = g.bool();
        let sr = self.sk_rows(l, &sk.s);
        let mut ps = vec![];
        let mut acc = Array2::zeros((self.mods(l).len(), self.n));
        let mut si = sr.clone();
        for i in 1..parts {
            let c = self.random_rows(g, l);
            acc = self.radd(l, &acc, &self.rmul(l, &c, &si));
            if i + 1 < parts {
                si = self.rmul(l, &si, &sr);
            }
            ps.push(c);
        }
        let c0 = self.rsub(l, ph, &acc);
        ps.insert(0, c0);
        let polys = ps.iter().map(|p| self.poly(l, p, permit)).collect::<Res<Vec<_>>>()?;
        Ciphertext::new(polys, &self.par).ctx("ciphertext")
    }
    /// An error vector of sup-norm at most `b`, extreme values included.
    pub fn err(&self, g: &mut Gen, b: &BigUint) -> Vec<BigInt> {
        let style = g.below(5);
        let mut r = g.rng();
        let bb = num::bi(b);
        (0..self.n)
            .map(|_| {
                let x = rand::Rng::next_u64(&mut r);
                match style {
                    0 => BigInt::zero(),
                    1 => bb.clone(),
                    2 => -bb.clone(),
                    3 => if x & 1 == 0 { bb.clone() } else { -bb.clone() },
                    _ => {
                        let mut y = BigUint::zero();
                        for _ in 0..b.bits().div_ceil(64) + 1 {
                            y = (y << 64u32) + BigUint::from(rand::Rng::next_u64(&mut r));
                        }
                        num::bi(&(y % ((b << 1u32) + 1u32))) - &bb
                    }
                }
            })
            .collect()
    }
    /// Largest nu that still decrypts at level l (0 if none).
    pub fn nu_max(&self, l: usize) -> BigUint {
        let x = self.ql(l) / (&self.t << 1u32);
        let y = &x >> 38u32;
        let mut x = x - y;
        while !x.is_zero() && !self.ok(l, &x) {
            x -= 1u32;
        }
        x
    }
    /// Checks that `ct` decrypts to `m` with noise at most `bound` (bound includes the +1).
    pub fn expect(&self, sk: &Sk, ct: &Ciphertext, m: &[BigUint], bound: &BigUint, what: &str) -> Res<()> {
        let l = self.level(ct);
        let nu = self.nu(&sk.s, ct, m);
        if nu > *bound {
            return Err(format!("{what}: noise {} bits exceeds the worst-case bound {} bits (level {l}, Q {} bits)", nu.bits(), bound.bits(), self.ql(l).bits()));
        }
        if self.ok(l, &nu) {
            let pt = sk.sk.try_decrypt(ct).ctx(what)?;
            let d = self.coeffs(&pt, l)?;
            if d != m {
                return Err(format!("{what}: decrypts to {d:?}, expected {m:?}"));
            }
        }
        Ok(())
    }
    /// Sum of s1^i for i in 0..parts
    pub fn geo(&self, s1: u64, parts: usize) -> BigUint {
        let mut r = BigUint::zero();
        let mut p = BigUint::one();
        for _ in 0..parts {
            r += &p;
            p *= s1;
        }
        r
    }
    /// Worst-case error added by one key switch from `ct_l` with a key at `key_l`
    /// (the switched polynomial is arbitrary), including switching back down.
    pub fn ks_bound(&self, ct_l: usize, key_l: usize, s1: u64) -> BigUint {
        let n = self.n as u64;
        let e = self.eb();
        let kq = self.mods(key_l);
        let mut b = if kq.len() == 1 {
            let lm = 64 - kq[0].leading_zeros() as usize;
            let lb = lm / 2;
            let digits = lm.div_ceil(lb);
            BigUint::from(digits as u64) * n * pow2(lb) * e
        } else {
            let mut b = BigUint::zero();
            for q in self.mods(ct_l) {
                b += BigUint::from(*q) * n * e;
            }
            b
        };
        for l in key_l..ct_l {
            let drop = self.mods(l).last().unwrap();
            b = b / *drop + 1u32 + BigUint::from((1 + s1).div_ceil(2));
        }
        b + 1u32
    }
    /// Bound on the noise of a product.
    pub fn mul_bound(&self, l: usize, s1: u64, p1: usize, nu1: &BigUint, p2: usize, nu2: &BigUint) -> BigUint {
        let n = BigUint::from(self.n as u64);
        // phase lifts are Q*(m/t + k) + e with |k| <= half the key norm sum + 1
        let k1: BigUint = (self.geo(s1, p1) >> 1u32) + 2u32;
        let k2: BigUint = (self.geo(s1, p2) >> 1u32) + 2u32;
        let a = &n * &self.t * (nu1 * (&k2 + 1u32) + nu2 * (&k1 + 1u32));
        let b = (&n * &self.t * nu1 * nu2) / self.ql(l) + 1u32;
        a + b + self.geo(s1, p1 + p2 - 1) + 2u32
    }
    pub fn l1(&self, m: &[BigUint]) -> BigUint {
        m.iter().sum()
    }
}

/// A secret key with its coefficients.
pub struct Sk {
    pub sk: SecretKey,
    pub s: Vec<i64>,
    pub s1: u64,
}
pub fn sk_coeffs(sk: &SecretKey) -> Vec<i64> {
    fhe::proto::bfv::SecretKey::decode(sk.to_bytes().as_slice()).unwrap().coeffs
}
pub fn sk_from(par: &Arc<BfvParameters>, s: &[i64]) -> Res<SecretKey> {
    let b = fhe::proto::bfv::SecretKey { coeffs: s.to_vec() }.encode_to_vec();
    SecretKey::from_bytes(&b, par).ctx("secret key from bytes")
}
impl Sk {
    pub fn wrap(sk: SecretKey) -> Sk {
        let s = sk_coeffs(&sk);
        let s1 = s.iter().map(|x| x.unsigned_abs()).sum();
        Sk { sk, s, s1 }
    }
    /// A generated key: sampled by the library, or with extreme coefficients.
    pub fn gen_(g: &mut Gen, ps: &Ps) -> Res<Sk> {
        let b = ps.eb() as i64;
        Ok(Sk::wrap(match g.weighted(&[6, 1, 1, 1, 1]) {
            0 => SecretKey::random(&ps.par, &mut g.rng()),
            1 => sk_from(&ps.par, &vec![b; ps.n])?,
            2 => {
                let mut r = g.rng();
                let v: Vec<i64> = (0..ps.n).map(|_| if rand::Rng::next_u32(&mut r) & 1 == 0 { b } else { -b }).collect();
                sk_from(&ps.par, &v)?
            }
            3 => {
                let mut v = vec![0; ps.n];
                let i = g.usize_below(ps.n);
                v[i] = if g.bool() { 1 } else { -1 };
                sk_from(&ps.par, &v)?
            }
            _ => {
                let mut r = g.rng();
                let v: Vec<i64> = (0..ps.n).map(|_| (rand::Rng::next_u32(&mut r) % 3) as i64 - 1).collect();
                sk_from(&ps.par, &v)?
            }
        }))
    }
}

/// A ciphertext with the message the model believes it holds.
#[derive(Clone)]
pub struct Mc {
    pub ct: Ciphertext,
    pub m: Vec<BigUint>,
    pub kind: &'static str,
}

/// Fresh (secret-key, public-key) or synthetic ciphertext at level l; None if no
/// kind leaves room for decryption.
pub fn fresh(g: &mut Gen, ps: &Ps, sk: &Sk, l: usize, m: Vec<BigUint>) -> Res<Mc> {
    let ct: Ciphertext = sk.sk.try_encrypt(&ps.pt(&m, l)?, &mut g.rng()).ctx("encrypt")?;
    Ok(Mc { ct, m, kind: "secret-key" })
}
pub fn some_ct(g: &mut Gen, ps: &Ps, sk: &Sk, l: usize, parts: Option<usize>, emax: &BigUint) -> Res<Mc> {
    let m = ps.msg(g);
    let parts = match parts {
        Some(p) => p,
        None => *g.pick(&[2, 2, 2, 3, 4]),
    };
    let kind = if parts == 2 { g.weighted(&[3, 2, 4]) } else { 2 };
    match kind {
        0 => fresh(g, ps, sk, l, m),
        1 => {
            let pk = PublicKey::new(&sk.sk, &mut g.rng());
            let ct = pk.try_encrypt(&ps.pt(&m, l)?, &mut g.rng()).ctx("encrypt")?;
            Ok(Mc { ct, m, kind: "public-key" })
        }
        _ => {
            let b = match g.below(3) {
                0 => BigUint::from(ps.eb()).min(emax.clone()),
                1 => emax.clone(),
                _ => emax >> (g.draw(emax.bits().max(1)) as u32),
            };
            let e = ps.err(g, &b);
            let ct = ps.synth(g, sk, l, parts, &m, &e)?;
            Ok(Mc { ct, m, kind: "synthetic" })
        }
    }
}

pub fn nonzero(v: &[BigUint]) -> bool {
    v.iter().any(|x| !x.is_zero())
}
pub fn abs(x: &BigInt) -> BigUint {
    x.abs().to_biguint().unwrap()
}
pub fn pos(x: u64) -> BigInt {
    BigInt::from_biguint(Sign::Plus, BigUint::from(x))
}
