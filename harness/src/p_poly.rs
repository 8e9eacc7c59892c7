//! M04 RNS scaling, M05-M09 polynomials.
use crate::choice::*;
use crate::num::{self, Crt};
use crate::p_zq::{big_below, big_uniform, coprime_moduli};
use crate::runner::*;
use fhe_math::rns::{RnsContext, RnsScaler, ScalingFactor};
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, dot_product, scaler::Scaler, switcher::Switcher};
use fhe_traits::{DeserializeWithContext, PublicData, Serialize, VariableTime};
use ndarray::{Array1, Array2, ArrayView1};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use rand::Rng;
use std::sync::Arc;
use zeroize::Zeroize;

pub fn vt() -> VariableTime {
    VariableTime::new(PublicData::assert_public())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M04",
            rule: "a case draws source and target bases (1..24 moduli, mixed sizes), a rational factor and an integer placed uniformly, at sign and rounding boundaries, or at residues that extremise the internal accumulators; non-trivial = non-zero integer and a factor other than one, or a target basis different from the source",
            subs: vec![
                sub("scale", 60_000, 1_500_000, rns_scale),
                sub("switch", 40_000, 1_000_000, rns_switch),
                sub("poly", 2_500, 60_000, poly_scale),
            ],
        },
        Prop {
            id: "M05",
            rule: "a case draws a degree 8..64, 1..6 mixed primes, operands with extreme or random residues and one operation; the oracle is schoolbook arithmetic on big integers; non-trivial = both operands non-zero",
            subs: vec![
                sub("linear", 20_000, 400_000, poly_linear),
                sub("product", 6_000, 120_000, poly_product),
                sub("scalar", 12_000, 250_000, poly_scalar),
                sub("dot", 6_000, 150_000, poly_dot),
                sub("representations", 12_000, 250_000, poly_reprs),
            ],
        },
        Prop {
            id: "M06",
            rule: "a case draws a degree, moduli, an odd exponent (also beyond 2n) or a monomial power and a polynomial; non-trivial = exponent not 1 mod 2n and non-zero polynomial",
            subs: vec![
                sub("substitute", 22_500, 450_000, substitute),
                sub("compose", 9_000, 180_000, compose),
                sub("reject", 6_000, 90_000, subst_reject),
                sub("monomial", 22_500, 450_000, monomial),
            ],
        },
        Prop {
            id: "M07",
            rule: "a case draws a context of 2..6 mixed primes and coefficients on rounding boundaries and switches it down by one or more moduli; non-trivial = at least one non-zero coefficient",
            subs: vec![
                sub("switch_down", 15_600, 390_000, switch_down),
                sub("navigate", 5_200, 78_000, navigate),
                sub("switch_basis", 5_200, 130_000, switch_basis),
            ],
        },
        Prop {
            id: "M08",
            rule: "a case draws a context, an input type, a length (valid or not) and boundary-biased values, or mutates an encoding; non-trivial = at least one value",
            subs: vec![
                sub("from_u64", 20_000, 400_000, conv_u64),
                sub("from_i64", 15_000, 300_000, conv_i64),
                sub("from_big", 12_000, 250_000, conv_big),
                sub("raw", 12_000, 250_000, conv_raw),
                sub("wire", 12_000, 250_000, wire),
                sub("wire_mutation", 15_000, 300_000, wire_mutation),
                sub("context", 6_000, 100_000, context_accept),
            ],
        },
        Prop {
            id: "M09",
            rule: "a case runs a random program over polynomials with random permissions twice (permissions as drawn, and all withheld) and tracks the permission each result may have; non-trivial = at least one operand with and one without permission",
            subs: vec![
                sub("program", 32_000, 800_000, vt_program),
                sub("sources", 24_000, 400_000, vt_sources),
            ],
        },
    ]
}

// ------------------------------------------------------------------ helpers

pub struct Pc {
    pub ctx: Arc<Context>,
    pub q: Vec<u64>,
    pub n: usize,
    pub crt: Crt,
}

pub fn primes_for(g: &mut Gen, n: usize, kmin: usize, kmax: usize) -> Vec<u64> {
    let k = g.range(kmin, kmax);
    let style = g.below(4);
    let ends = g.weighted(&[4, 1, 1]);
    let mut v: Vec<u64> = vec![];
    let mut i = 0;
    while v.len() < k && i < 60 {
        i += 1;
        let b = match style {
            0 => 62,
            1 => *g.pick(&[62, 61, 60, 50, 40, 30, 20]),
            _ => g.range(10, 62),
        };
        let i = g.usize_below(8);
        let low = ends == 1 || (ends == 2 && g.bool());
        if let Some(p) = num::ntt_prime_at(low, b, 2 * n as u64, i) {
            if !v.contains(&p) {
                v.push(p);
            }
        }
    }
    let mut i = 0;
    while v.len() < kmin {
        let p = num::ntt_prime(62, 2 * n as u64, i).unwrap();
        i += 1;
        if !v.contains(&p) {
            v.push(p);
        }
    }
    v
}

pub fn pc(g: &mut Gen, lo: usize, hi: usize, kmin: usize, kmax: usize) -> Result<Pc, String> {
    let (lo, hi, kmax) = if hi > lo && crate::model::large(g, 120) { (9, 14, kmax.min(kmin + 2)) } else { (lo, hi, kmax) };
    let (hi, kmin, kmax) = if hi <= 8 && kmax > 2 && crate::model::wide(g, 80) { (lo, 9, 20) } else { (hi, kmin, kmax) };
    let n = 1usize << g.range(lo, hi);
    let q = primes_for(g, n, kmin, kmax);
    let ctx = Context::new_arc(&q, n).ctx("context")?;
    let crt = Crt::new(&q);
    Ok(Pc { ctx, q, n, crt })
}

impl Pc {
    pub fn residues(&self, g: &mut Gen) -> Array2<u64> {
        let mut a = Array2::zeros((self.q.len(), self.n));
        for (i, q) in self.q.iter().enumerate() {
            a.row_mut(i).assign(&Array1::from(bulk(g, self.n, q - 1)));
        }
        a
    }
    pub fn lift(&self, a: &ndarray::ArrayView2<u64>) -> Vec<BigUint> {
        (0..self.n).map(|j| self.crt.lift(a.column(j).iter().copied())).collect()
    }
    pub fn project(&self, v: &[BigUint]) -> Array2<u64> {
        Array2::from_shape_fn((self.q.len(), self.n), |(i, j)| (&v[j] % self.q[i]).to_u64().unwrap())
    }
    pub fn pb(&self, a: &Array2<u64>) -> Poly<PowerBasis> {
        Poly::<PowerBasis>::try_convert_from(a.clone(), &self.ctx, false).unwrap()
    }
    /// (power-basis polynomial, its coefficients as integers)
    pub fn poly(&self, g: &mut Gen) -> (Poly<PowerBasis>, Vec<BigUint>) {
        let a = self.residues(g);
        let v = self.lift(&a.view());
        (self.pb(&a), v)
    }
    pub fn check(&self, p: &Poly<PowerBasis>, e: &[BigUint], what: &str) -> Result<(), String> {
        let c = p.coefficients();
        ensure_eq!(c.shape(), &[self.q.len(), self.n], "{what}: shape");
        for (i, q) in self.q.iter().enumerate() {
            for j in 0..self.n {
                let x = (&e[j] % *q).to_u64().unwrap();
                ensure!(c[(i, j)] == x, "{what}: coefficient {j} modulo {q} is {}, expected {x}", c[(i, j)]);
            }
        }
        Ok(())
    }
    pub fn desc(&self) -> String {
        format!("n={} moduli={:?}", self.n, self.q)
    }
}

fn nz(v: &[BigUint]) -> bool {
    v.iter().any(|x| !x.is_zero())
}

/// Integers that `round(c * num / den)` may yield under the precision of the
/// fixed-point arithmetic: within 2^-56 of a boundary (for up to 24 moduli the error is
/// below 2^-60), either centred representative and either neighbour. Exact ties are
/// rounded up: the fixed-point constants are rounded so that the computed value is
/// never below the true one.
pub fn accepted(x: &BigUint, q: &BigUint, nu: &BigUint, de: &BigUint) -> Vec<BigInt> {
    let tol = 56u32;
    let mut reps = vec![num::centered(x, q)];
    let d2 = if (x << 1u32) >= *q { (x << 1u32) - q } else { q - (x << 1u32) };
    if (&d2 << tol) < *q {
        reps = vec![num::bi(x), num::bi(x) - num::bi(q)];
    }
    let mut out = vec![];
    for c in reps {
        let y = c * num::bi(nu);
        let f = num::floor_div(&y, de);
        let rem = (&y - &f * num::bi(de)).to_biguint().unwrap();
        let r2 = &rem << 1u32;
        let dd = if r2 >= *de { &r2 - de } else { de - &r2 };
        if !dd.is_zero() && !de.is_one() && (dd << tol) < *de {
            out.push(f.clone());
            out.push(f + 1);
        } else if r2 >= *de {
            out.push(f + 1);
        } else {
            out.push(f);
        }
    }
    out
}

pub fn matches_any(got: &[u64], moduli: &[u64], acc: &[BigInt]) -> bool {
    acc.iter().any(|a| {
        got.iter()
            .zip(moduli)
            .all(|(g, m)| num::modbig(a, &BigUint::from(*m)).to_u64().unwrap() == *g)
    })
}

fn factor(g: &mut Gen, from: &BigUint, to: &BigUint) -> (BigUint, BigUint) {
    let num_ = |g: &mut Gen| match g.weighted(&[3, 3, 2, 2]) {
        0 => BigUint::from(1 + g.draw(200)),
        1 => BigUint::from(g.biased(u64::MAX).max(1)),
        2 => {
            let b = g.range(1, 200);
            (big_uniform(&mut g.rng(), &(BigUint::one() << b))).max(BigUint::one())
        }
        _ => BigUint::one(),
    };
    match g.weighted(&[2, 5, 2, 2, 2]) {
        0 => {
            let x = num_(g);
            (x.clone(), x)
        }
        1 => (num_(g), num_(g)),
        2 => (to.clone(), from.clone()),
        3 => (num_(g), from.clone()),
        _ => (to.clone(), num_(g)),
    }
}

/// An integer below q: uniform, boundary, close to a rounding tie, or with
/// residues that push the per-residue products in one direction.
fn scale_input(g: &mut Gen, crt: &Crt, nu: &BigUint, de: &BigUint) -> Vec<u64> {
    let q = &crt.q;
    let proj = |x: &BigUint| crt.moduli.iter().map(|m| (x % *m).to_u64().unwrap()).collect::<Vec<u64>>();
    match g.weighted(&[3, 3, 4, 3]) {
        0 => crt.moduli.iter().map(|m| g.biased(m - 1)).collect(),
        1 => proj(&big_below(g, q)),
        2 => {
            // close to c*nu/de = j + 1/2
            let hi = (q * nu / de).max(BigUint::one());
            let j = big_below(g, &hi);
            let c = ((j << 1u32) + 1u32) * de / (nu << 1u32);
            let d = g.draw(4);
            let neg = g.bool();
            let c = (c + d) % q;
            proj(&if neg && !c.is_zero() { q - c } else { c })
        }
        _ => {
            let dir = g.bool();
            let keep = g.chance(1, 3);
            let mut out = vec![];
            for m in &crt.moduli {
                let gar = &crt.q / *m;
                let inv = num::inv((&gar % *m).to_u64().unwrap(), *m).unwrap();
                let fr = (gar * inv * nu) % de;
                let up = (fr << 1u32) < *de;
                out.push(if up == dir { m - 1 } else { 0 });
            }
            if keep {
                let i = g.usize_below(out.len());
                out[i] = g.biased(crt.moduli[i] - 1);
            }
            out
        }
    }
}

fn bases(g: &mut Gen) -> (Vec<u64>, Vec<u64>) {
    let from = if g.chance(1, 5) {
        // many large moduli
        let k = g.range(6, 24);
        let low = g.chance(1, 3);
        (0..k).map(|i| num::ntt_prime_at(low, 62, 16, i).unwrap()).collect()
    } else {
        coprime_moduli(g, 6)
    };
    let to = match g.weighted(&[3, 3, 2]) {
        0 => coprime_moduli(g, 6),
        1 => {
            // shared prefix
            let k = g.range(1, from.len());
            let mut t = from[..k].to_vec();
            for m in coprime_moduli(g, 4) {
                if t.iter().all(|x| num::gcd(*x, m) == 1) {
                    t.push(m);
                }
            }
            t
        }
        _ => from.clone(),
    };
    (from, to)
}

fn rns_case(g: &mut Gen, from: &[u64], to: &[u64], nu: &BigUint, de: &BigUint, reps: usize) -> Result<(), String> {
    let cf = Crt::new(from);
    let fctx = Arc::new(RnsContext::new(from).ctx("source basis")?);
    let tctx = Arc::new(RnsContext::new(to).ctx("target basis")?);
    let s = RnsScaler::new(&fctx, &tctx, ScalingFactor::new(nu, de));
    for _ in 0..reps {
        let r = scale_input(g, &cf, nu, de);
        let x = cf.lift(r.iter().copied());
        if !x.is_zero() && (nu != de || from != to) {
            g.hit();
        }
        let start = g.usize_below(to.len());
        let len = g.range(1, to.len() - start);
        g.note(format!("from={from:?} to={to:?} factor={nu}/{de} rests={r:?} start={start} len={len}"));
        let acc = accepted(&x, &cf.q, nu, de);
        let mut out = vec![0u64; len];
        s.scale(ArrayView1::from(&r), (&mut out).into(), start);
        ensure!(
            matches_any(&out, &to[start..start + len], &acc),
            "scaling {x} (centred in Q={}) by {nu}/{de} into {:?}: got {out:?}, expected residues of {:?}",
            cf.q, &to[start..start + len], acc
        );
        let full = s.scale_new(ArrayView1::from(&r), to.len());
        ensure!(full[start..start + len] == out[..], "scale_new and scale differ: {full:?} {out:?}");
        ensure!(matches_any(&full, to, &acc), "scale_new of {x} by {nu}/{de}: got {full:?}, expected residues of {acc:?}");
    }
    Ok(())
}

fn rns_scale(g: &mut Gen) -> Result<(), String> {
    let (from, to) = bases(g);
    let qf: BigUint = from.iter().map(|m| BigUint::from(*m)).product();
    let qt: BigUint = to.iter().map(|m| BigUint::from(*m)).product();
    let (nu, de) = factor(g, &qf, &qt);
    g.label(format!("source moduli {}", if from.len() > 6 { ">6".into() } else { from.len().to_string() }));
    rns_case(g, &from, &to, &nu, &de, 2)
}

/// The two uses the scheme makes of scaling: t/Q over the extended basis, and basis conversion.
fn rns_switch(g: &mut Gen) -> Result<(), String> {
    let k = if g.chance(1, 4) { g.range(5, 12) } else { g.range(1, 4) };
    let bits = if g.bool() { 62 } else { g.range(20, 62) };
    let low = g.chance(1, 3);
    let all: Vec<u64> = (0..2 * k + 1).filter_map(|i| num::ntt_prime_at(low && i < k, if i < k { bits } else { 62 }, 16, i)).collect();
    let mut all2 = vec![];
    for a in all {
        if !all2.contains(&a) {
            all2.push(a)
        }
    }
    let k = k.min(all2.len() - 1);
    let (q, e) = (&all2[..k], &all2[..]);
    let qp: BigUint = q.iter().map(|m| BigUint::from(*m)).product();
    match g.below(3) {
        0 => {
            g.label("extend");
            let one = BigUint::one();
            rns_case(g, q, e, &one, &one, 2)
        }
        1 => {
            g.label("scale by t/Q");
            let t = BigUint::from(g.biased((1 << 60) - 1).max(2));
            rns_case(g, e, q, &t, &qp, 2)
        }
        _ => {
            g.label("scale by t/Q in place");
            let t = BigUint::from(g.biased((1 << 60) - 1).max(2));
            rns_case(g, q, q, &t, &qp, 2)
        }
    }
}

fn poly_scale(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 5)?;
    let q2 = primes_for(g, c.n, 1, 5);
    let to_q = if g.chance(1, 3) {
        let k = g.range(1, c.q.len());
        let mut t = c.q[..k].to_vec();
        for x in q2 {
            if !t.contains(&x) {
                t.push(x)
            }
        }
        t
    } else {
        q2
    };
    let to = Context::new_arc(&to_q, c.n).ctx("target context")?;
    let (nu, de) = factor(g, &c.crt.q, to.modulus());
    let s = Scaler::new(&c.ctx, &to, ScalingFactor::new(&nu, &de)).ctx("scaler")?;
    let mut a = Array2::zeros((c.q.len(), c.n));
    for j in 0..c.n {
        let r = if g.chance(3, 4) { scale_input(g, &c.crt, &nu, &de) } else { vec![0; c.q.len()] };
        a.column_mut(j).assign(&Array1::from(r));
    }
    let p = c.pb(&a);
    let v = c.lift(&a.view());
    g.note(format!("{} to={to_q:?} factor={nu}/{de}", c.desc()));
    if nz(&v) {
        g.hit();
    }
    let variable = g.bool();
    let mut p2 = p.clone();
    if variable {
        p2.allow_variable_time_computations(vt());
    }
    let r = p2.scale(&s).ctx("scale")?;
    ensure!(r.ctx() == &to, "context of the result");
    for j in 0..c.n {
        let acc = accepted(&v[j], &c.crt.q, &nu, &de);
        let col: Vec<u64> = r.coefficients().column(j).to_vec();
        ensure!(matches_any(&col, &to_q, &acc), "coefficient {j}: {} * {nu}/{de} gives {col:?}, expected {acc:?}", v[j]);
    }
    let rn = p2.clone().into_ntt().scale(&s).ctx("scale in NTT form")?;
    ensure!(rn.into_power_basis() == r, "scaling in the NTT representation differs");
    ensure!(p2.allows_variable_time_computations() == variable, "operand changed");
    ensure_eq!(p2, p, "operand changed");
    // a polynomial of another context is refused
    if to_q != c.q {
        let z = Poly::<PowerBasis>::zero(&to);
        ensure!(z.scale(&s).is_err(), "scaler accepts a polynomial of another context");
    }
    let other = Context::new_arc(&primes_for(g, 2 * c.n, 1, 2), 2 * c.n).ctx("context")?;
    ensure!(Scaler::new(&c.ctx, &other, ScalingFactor::one()).is_err(), "scaler between different degrees");
    Ok(())
}

// ---------------------------------------------------------------------- M05

fn addv(a: &[BigUint], b: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    a.iter().zip(b).map(|(x, y)| (x + y) % q).collect()
}
fn subv(a: &[BigUint], b: &[BigUint], q: &BigUint) -> Vec<BigUint> {
    a.iter().zip(b).map(|(x, y)| (x + q - y) % q).collect()
}

fn poly_linear(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 6, 1, 6)?;
    let q = &c.crt.q;
    let (mut a, va) = c.poly(g);
    let (mut b, vb) = c.poly(g);
    let (fa, fb) = (g.bool(), g.bool());
    if fa {
        a.allow_variable_time_computations(vt());
    }
    if fb {
        b.allow_variable_time_computations(vt());
    }
    g.note(format!("{} vt=({fa},{fb}) a0={} b0={}", c.desc(), va[0], vb[0]));
    if nz(&va) && nz(&vb) {
        g.hit();
    }
    let (a0, b0) = (a.clone(), b.clone());
    let (an, bn) = (a.clone().into_ntt(), b.clone().into_ntt());
    let s = addv(&va, &vb, q);
    let d = subv(&va, &vb, q);
    let zero = vec![BigUint::zero(); c.n];
    let neg = subv(&zero, &va, q);
    c.check(&(&a + &b), &s, "&a + &b")?;
    c.check(&(a.clone() + b.clone()), &s, "a + b")?;
    let mut r = a.clone();
    r += &b;
    c.check(&r, &s, "a += b")?;
    c.check(&(&a - &b), &d, "&a - &b")?;
    let mut r = a.clone();
    r -= &b;
    c.check(&r, &d, "a -= b")?;
    c.check(&(-&a), &neg, "-&a")?;
    c.check(&(-a.clone()), &neg, "-a")?;
    c.check(&(&an + &bn).into_power_basis(), &s, "&a + &b (NTT)")?;
    c.check(&(an.clone() + bn.clone()).into_power_basis(), &s, "a + b (NTT)")?;
    let mut r = an.clone();
    r += &bn;
    c.check(&r.into_power_basis(), &s, "a += b (NTT)")?;
    c.check(&(&an - &bn).into_power_basis(), &d, "&a - &b (NTT)")?;
    let mut r = an.clone();
    r -= &bn;
    c.check(&r.into_power_basis(), &d, "a -= b (NTT)")?;
    c.check(&(-&an).into_power_basis(), &neg, "-&a (NTT)")?;
    c.check(&(-an.clone()).into_power_basis(), &neg, "-a (NTT)")?;
    ensure!(a == a0 && b == b0, "an operand was modified");
    ensure!((&a == &b) == (va == vb), "equality disagrees with the coefficients");
    Ok(())
}

fn poly_product(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 5, 1, 5)?;
    let q = &c.crt.q;
    let (mut a, va) = c.poly(g);
    let (mut b, vb) = c.poly(g);
    let (fa, fb) = (g.bool(), g.bool());
    if fa {
        a.allow_variable_time_computations(vt());
    }
    if fb {
        b.allow_variable_time_computations(vt());
    }
    g.note(format!("{} vt=({fa},{fb}) a0={} b0={}", c.desc(), va[0], vb[0]));
    if nz(&va) && nz(&vb) {
        g.hit();
    }
    let e = num::negacyclic_big(&va, &vb, q);
    let (an, bn, bs) = (a.clone().into_ntt(), b.clone().into_ntt(), b.clone().into_ntt_shoup());
    c.check(&(&an * &bn).into_power_basis(), &e, "&a * &b")?;
    c.check(&(&bn * &an).into_power_basis(), &e, "&b * &a")?;
    let mut r = an.clone();
    r *= &bn;
    c.check(&r.into_power_basis(), &e, "a *= b")?;
    c.check(&(&an * &bs).into_power_basis(), &e, "&a * &b (Shoup)")?;
    let mut r = an.clone();
    r *= &bs;
    c.check(&r.into_power_basis(), &e, "a *= b (Shoup)")?;
    let bs2 = bn.clone().into_ntt_shoup();
    ensure!(bs2 == bs, "Shoup forms differ");
    // lazy operand
    let raw: Vec<u64> = bulk(g, c.n, u64::MAX);
    let lz = Poly::<Ntt>::create_constant_ntt_polynomial_with_lazy_coefficients_and_variable_time(&raw, &c.ctx, vt());
    let vr: Vec<BigUint> = raw.iter().map(|x| BigUint::from(*x)).collect();
    let e = num::negacyclic_big(&vr, &vb, q);
    c.check(&(&lz * &bs).into_power_basis(), &e, "lazy polynomial times Shoup polynomial")?;
    c.check(&a, &va, "operand a afterwards")?;
    Ok(())
}

fn poly_scalar(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 5, 1, 6)?;
    let q = &c.crt.q;
    let (mut a, va) = c.poly(g);
    if g.bool() {
        a.allow_variable_time_computations(vt());
    }
    let s = match g.below(4) {
        0 => BigUint::from(g.biased(u64::MAX)),
        1 => big_below(g, q),
        2 => q + big_below(g, q),
        _ => {
            let b = g.range(1, 500);
            big_below(g, &(BigUint::one() << b))
        }
    };
    g.note(format!("{} scalar={s} a0={}", c.desc(), va[0]));
    if nz(&va) && !s.is_zero() {
        g.hit();
    }
    let e: Vec<BigUint> = va.iter().map(|x| x * &s % q).collect();
    c.check(&(&a * &s), &e, "&a * s")?;
    c.check(&(&s * &a), &e, "s * &a")?;
    let mut r = a.clone();
    r *= &s;
    c.check(&r, &e, "a *= s")?;
    let an = a.into_ntt();
    c.check(&(&an * &s).into_power_basis(), &e, "&a * s (NTT)")?;
    c.check(&(&s * &an).into_power_basis(), &e, "s * &a (NTT)")?;
    let mut r = an;
    r *= &s;
    c.check(&r.into_power_basis(), &e, "a *= s (NTT)")?;
    Ok(())
}

fn poly_dot(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 4)?;
    let len = match g.weighted(&[4, 4, 1]) {
        0 => g.range(1, 20),
        1 => *g.pick(&[14, 15, 16, 17, 30, 31, 32, 33, 46, 63, 64, 65, 66, 127, 128]),
        _ => *g.pick(&[254, 255, 256, 257, 258, 511, 600]),
    };
    let same = g.chance(1, 2);
    let ext = g.chance(1, 2);
    let var = g.below(3);
    let mk = |g: &mut Gen| {
        let mut a = if ext && g.chance(3, 4) {
            Array2::from_shape_fn((c.q.len(), c.n), |(i, _)| c.q[i] - 1)
        } else {
            c.residues(g)
        };
        if !ext && g.chance(1, 20) {
            a.fill(0);
        }
        a
    };
    let base: Vec<Array2<u64>> = (0..if same { len.min(2) } else { len.min(40) }).map(|_| mk(g)).collect();
    let base2: Vec<Array2<u64>> = (0..if same { len.min(3) } else { len.min(37) }).map(|_| mk(g)).collect();
    g.note(format!("{} terms={len} extreme={ext} vt={var}", c.desc()));
    g.label(format!("terms {}", if len < 16 { "<16" } else if len <= 64 { "16..64" } else { ">64" }));
    if len > 1 {
        g.hit();
    }
    let mkp = |a: &Array2<u64>, k: usize| {
        let mut p = Poly::<Ntt>::try_convert_from(a.clone(), &c.ctx, false).unwrap();
        if var == 1 || (var == 2 && k % 2 == 0) {
            p.allow_variable_time_computations(vt());
        }
        p
    };
    let ps: Vec<Poly<Ntt>> = base.iter().enumerate().map(|(k, a)| mkp(a, k)).collect();
    let qs: Vec<Poly<Ntt>> = base2.iter().enumerate().map(|(k, a)| mkp(a, k)).collect();
    let pi: Vec<&Poly<Ntt>> = (0..len).map(|i| &ps[i % ps.len()]).collect();
    let qi: Vec<&Poly<Ntt>> = (0..len).map(|i| &qs[i % qs.len()]).collect();
    let r = dot_product(pi.iter().copied(), qi.iter().copied()).ctx("dot product")?;
    for (i, m) in c.q.iter().enumerate() {
        for j in 0..c.n {
            let mut e = 0u64;
            for k in 0..len {
                e = num::addmod(e, num::mulmod(base[k % base.len()][(i, j)], base2[k % base2.len()][(i, j)], *m), *m);
            }
            ensure!(r.coefficients()[(i, j)] == e, "dot product of {len} terms, modulus {m}, position {j}: {} expected {e}", r.coefficients()[(i, j)]);
        }
    }
    let mut s = Poly::<Ntt>::zero(&c.ctx);
    for (x, y) in pi.iter().zip(&qi) {
        s += &(*x * *y);
    }
    ensure!(s == r, "dot product differs from the sum of products");
    // rejected inputs
    ensure!(dot_product(pi.iter().copied().take(0), qi.iter().copied()).is_err(), "empty left operand accepted");
    ensure!(dot_product(pi.iter().copied(), qi.iter().copied().take(0)).is_err(), "empty right operand accepted");
    if len > 1 {
        ensure!(dot_product(pi.iter().copied(), qi.iter().copied().take(len - 1)).is_err(), "length mismatch accepted");
        ensure!(dot_product(pi.iter().copied().take(len - 1), qi.iter().copied()).is_err(), "length mismatch accepted");
        let oc = Context::new_arc(&primes_for(g, c.n, 1, 1), c.n).ctx("context")?;
        if oc != c.ctx {
            let z = Poly::<Ntt>::zero(&oc);
            let at = g.usize_below(len);
            let mut p2 = pi.clone();
            p2[at] = &z;
            ensure!(dot_product(p2.iter().copied(), qi.iter().copied()).is_err(), "context mismatch accepted at {at}");
            let mut q2 = qi.clone();
            q2[at] = &z;
            ensure!(dot_product(pi.iter().copied(), q2.iter().copied()).is_err(), "context mismatch accepted at {at}");
        }
    }
    Ok(())
}

fn poly_reprs(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 7, 1, 6)?;
    let (mut a, va) = c.poly(g);
    let v = g.bool();
    if v {
        a.allow_variable_time_computations(vt());
    }
    g.note(format!("{} vt={v}", c.desc()));
    if nz(&va) {
        g.hit();
    }
    let n0 = a.clone().into_ntt();
    let s0 = a.clone().into_ntt_shoup();
    ensure!(n0.clone().into_ntt_shoup() == s0, "NTT to Shoup");
    ensure!(s0.clone().into_ntt() == n0, "Shoup to NTT");
    c.check(&n0.clone().into_power_basis(), &va, "NTT back")?;
    c.check(&s0.clone().into_power_basis(), &va, "Shoup back")?;
    c.check(&n0.to_power_basis(), &va, "NTT to power basis (borrowed)")?;
    c.check(&s0.to_power_basis(), &va, "Shoup to power basis (borrowed)")?;
    c.check(&a.to_power_basis(), &va, "power basis (borrowed)")?;
    ensure!(Poly::<PowerBasis>::zero(&c.ctx).into_ntt() == Poly::<Ntt>::zero(&c.ctx), "zero");
    ensure!(Poly::<PowerBasis>::zero(&c.ctx).into_ntt_shoup() == Poly::<NttShoup>::zero(&c.ctx), "zero");
    for (row, q) in n0.coefficients().outer_iter().zip(&c.q) {
        ensure!(row.iter().all(|x| x < q), "NTT coefficient out of range");
    }
    ensure!(n0.allows_variable_time_computations() == v && s0.allows_variable_time_computations() == v, "permission changed by a representation change");
    let mut z = s0;
    z.zeroize();
    ensure!(z == Poly::<NttShoup>::zero(&c.ctx), "zeroize");
    let mut z = a;
    z.zeroize();
    ensure!(z == Poly::<PowerBasis>::zero(&c.ctx), "zeroize");
    Ok(())
}

// ---------------------------------------------------------------------- M06

fn exponent(g: &mut Gen, n: usize) -> usize {
    match g.weighted(&[5, 1, 1]) {
        0 => 2 * g.usize_below(n) + 1,
        1 => 2 * n - 1,
        _ => 2 * g.usize_below(8 * n) + 1,
    }
}

fn substitute(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 6, 1, 4)?;
    let k = exponent(g, c.n);
    let (mut a, va) = c.poly(g);
    let v = g.bool();
    if v {
        a.allow_variable_time_computations(vt());
    }
    g.note(format!("{} exponent={k} vt={v}", c.desc()));
    if nz(&va) && k % (2 * c.n) != 1 {
        g.hit();
    }
    let e = num::automorphism(&va, k, &c.crt.q);
    let s = SubstitutionExponent::new(&c.ctx, k).ctx("odd exponent")?;
    ensure_eq!(s.exponent, k % (2 * c.n), "stored exponent");
    let r = a.substitute(&s).ctx("substitute")?;
    c.check(&r, &e, "power basis")?;
    let an = a.clone().into_ntt();
    let rn = an.substitute(&s).ctx("substitute")?;
    ensure!(rn == r.clone().into_ntt(), "NTT residues differ");
    c.check(&rn.into_power_basis(), &e, "NTT")?;
    let rs = a.clone().into_ntt_shoup().substitute(&s).ctx("substitute")?;
    ensure!(rs == r.clone().into_ntt_shoup(), "Shoup residues differ");
    // the Shoup multipliers of the result are usable
    let (b, vb) = c.poly(g);
    if c.n <= 32 {
        c.check(&(&b.into_ntt() * &rs).into_power_basis(), &num::negacyclic_big(&vb, &e, &c.crt.q), "product with the substituted Shoup polynomial")?;
    }
    ensure!(r.allows_variable_time_computations() == v || !r.allows_variable_time_computations(), "permission");
    c.check(&a, &va, "operand")?;
    Ok(())
}

fn compose(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 6, 1, 3)?;
    let (k, l) = (exponent(g, c.n), exponent(g, c.n));
    let (a, va) = c.poly(g);
    g.note(format!("{} exponents={k},{l}", c.desc()));
    if nz(&va) && k % (2 * c.n) != 1 {
        g.hit();
    }
    let sk = SubstitutionExponent::new(&c.ctx, k).ctx("exponent")?;
    let sl = SubstitutionExponent::new(&c.ctx, l).ctx("exponent")?;
    let m = 2 * c.n;
    let skl = SubstitutionExponent::new(&c.ctx, (k % m) * (l % m)).ctx("exponent")?;
    let an = a.clone().into_ntt();
    ensure!(an.substitute(&sk).ctx("s")?.substitute(&sl).ctx("s")? == an.substitute(&skl).ctx("s")?, "composition (NTT)");
    ensure!(a.substitute(&sk).ctx("s")?.substitute(&sl).ctx("s")? == a.substitute(&skl).ctx("s")?, "composition");
    let ki = num::inv(k as u64, m as u64).unwrap() as usize;
    let si = SubstitutionExponent::new(&c.ctx, ki).ctx("exponent")?;
    ensure!(an.substitute(&sk).ctx("s")?.substitute(&si).ctx("s")? == an, "inverse (NTT)");
    ensure!(a.substitute(&sk).ctx("s")?.substitute(&si).ctx("s")? == a, "inverse");
    // ring homomorphism
    let (b, _) = c.poly(g);
    let bn = b.into_ntt();
    ensure!((&an * &bn).substitute(&sk).ctx("s")? == &an.substitute(&sk).ctx("s")? * &bn.substitute(&sk).ctx("s")?, "multiplicative");
    ensure!((&an + &bn).substitute(&sk).ctx("s")? == &an.substitute(&sk).ctx("s")? + &bn.substitute(&sk).ctx("s")?, "additive");
    Ok(())
}

fn subst_reject(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 6, 1, 2)?;
    let k = 2 * g.biased(u64::MAX / 2) as usize;
    g.note(format!("{} exponent={k}", c.desc()));
    g.hit();
    ensure!(SubstitutionExponent::new(&c.ctx, k).is_err(), "even exponent {k} accepted");
    let o = g.biased(u64::MAX) as usize | 1;
    let s = SubstitutionExponent::new(&c.ctx, o).ctx("odd exponent")?;
    ensure_eq!(s.exponent, o % (2 * c.n), "stored exponent");
    Ok(())
}

fn monomial(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 6, 1, 4)?;
    let k = match g.weighted(&[3, 2, 1]) {
        0 => g.usize_below(2 * c.n),
        1 => *g.pick(&[0, c.n - 1, c.n, c.n + 1, 2 * c.n - 1, 2 * c.n]),
        _ => g.biased(u64::MAX) as usize,
    };
    let (a, va) = c.poly(g);
    g.note(format!("{} power={k}", c.desc()));
    if nz(&va) && k % (2 * c.n) != 0 {
        g.hit();
    }
    let mut r = a.clone();
    let res = no_panic(|| r.multiply_inverse_power_of_x(k));
    match res {
        Err(p) => Err(format!("power {k} at degree {}: {p}", c.n)),
        Ok(Err(_)) if k > 2 * c.n => Ok(()),
        Ok(Err(e)) => Err(format!("power {k} refused: {e}")),
        Ok(Ok(())) => {
            let m = 2 * c.n;
            let sh = (m - k % m) % m;
            let mut e = vec![BigUint::zero(); c.n];
            for i in 0..c.n {
                let x = (i + sh) % m;
                if x < c.n {
                    e[x] = va[i].clone();
                } else {
                    e[x - c.n] = (&c.crt.q - &va[i]) % &c.crt.q;
                }
            }
            c.check(&r, &e, "x^-power times the polynomial")
        }
    }
}

// ---------------------------------------------------------------------- M07

/// exact iterated divide-and-round by the last moduli
fn down(v: &BigUint, q: &[u64], steps: usize) -> BigUint {
    let mut x = v.clone();
    for s in 0..steps {
        let last = q[q.len() - 1 - s];
        // floor((x + (last-1)/2) / last): nearest, ties cannot occur for odd moduli
        x = (x + (last - 1) / 2) / last;
        let rest: BigUint = q[..q.len() - 1 - s].iter().map(|m| BigUint::from(*m)).product();
        x %= rest;
    }
    x
}

fn boundary_coeffs(g: &mut Gen, c: &Pc) -> Vec<BigUint> {
    let q = &c.crt.q;
    let last = *c.q.last().unwrap();
    (0..c.n)
        .map(|_| match g.below(4) {
            0 => BigUint::zero(),
            1 => big_below(g, q),
            2 => {
                // near a rounding tie of the last modulus
                let hi = (q / last).max(BigUint::one());
                let k = big_below(g, &hi);
                (k * last + (last - 1) / 2 + g.below(3)) % q
            }
            _ => {
                let mut r = g.rng();
                big_uniform(&mut r, q)
            }
        })
        .collect()
}

fn switch_down(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 2, 6)?;
    let v = boundary_coeffs(g, &c);
    let variable = g.bool();
    let mut p = c.pb(&c.project(&v));
    if variable {
        p.allow_variable_time_computations(vt());
    }
    let steps = g.range(0, c.q.len() - 1);
    g.note(format!("{} steps={steps} vt={variable} v0={}", c.desc(), v[0]));
    if nz(&v) && steps > 0 {
        g.hit();
    }
    let mut one = p.clone();
    for s in 1..=steps {
        one.switch_down().ctx("switch_down")?;
        let k = c.q.len() - s;
        ensure_eq!(one.ctx().moduli(), &c.q[..k], "moduli after {s} steps");
        let sub = Pc { ctx: one.ctx().clone(), q: c.q[..k].to_vec(), n: c.n, crt: Crt::new(&c.q[..k]) };
        let e: Vec<BigUint> = v.iter().map(|x| down(x, &c.q, s)).collect();
        sub.check(&one, &e, "switch_down")?;
        ensure!(one.allows_variable_time_computations() == variable || !one.allows_variable_time_computations(), "permission appeared");
    }
    let target = c.ctx.context_at_level(steps).ctx("level")?;
    let mut many = p.clone();
    many.switch_down_to(&target).ctx("switch_down_to")?;
    ensure!(many == one, "switch_down_to differs from {steps} single steps");
    // past the end, and up
    let last = c.ctx.context_at_level(c.q.len() - 1).ctx("level")?;
    let mut bot = many.clone();
    bot.switch_down_to(&last).ctx("to the last")?;
    let before = bot.clone();
    ensure!(bot.switch_down().is_err(), "switched below the last modulus");
    ensure!(bot == before, "a refused switch changed the polynomial");
    if steps > 0 {
        let before = many.clone();
        ensure!(many.switch_down_to(&c.ctx).is_err(), "switched up");
        ensure!(many == before, "a refused switch changed the polynomial");
    }
    let foreign = Context::new_arc(&c.q[1..], c.n).ctx("context")?;
    let before = p.clone();
    ensure!(p.switch_down_to(&foreign).is_err(), "switched to an unrelated context");
    ensure!(p == before, "a refused switch changed the polynomial");
    Ok(())
}

fn navigate(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 6)?;
    let k = c.q.len();
    let (i, j) = (g.usize_below(k), g.usize_below(k));
    g.note(format!("{} levels {i} {j}", c.desc()));
    g.hit();
    let (a, b) = (c.ctx.context_at_level(i).ctx("level")?, c.ctx.context_at_level(j).ctx("level")?);
    ensure_eq!(a.moduli(), &c.q[..k - i], "moduli at level {i}");
    let q: BigUint = c.q[..k - i].iter().map(|m| BigUint::from(*m)).product();
    ensure_eq!(*a.modulus(), q, "modulus at level {i}");
    match a.niterations_to(&b) {
        Ok(s) => ensure!(j >= i && s == j - i, "{s} iterations from level {i} to {j}"),
        Err(_) => ensure!(j < i, "no path from level {i} to {j}"),
    }
    let over = k + g.biased(u64::MAX / 2) as usize;
    ensure!(c.ctx.context_at_level(over).is_err(), "level {over} of {k} exists");
    let same = Context::new_arc(&c.q, c.n).ctx("context")?;
    ensure!(same == c.ctx, "equal contexts");
    ensure_eq!(c.ctx.niterations_to(&same).ctx("same")?, 0, "iterations to an equal context");
    Ok(())
}

fn switch_basis(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 4)?;
    let to_q = match g.below(3) {
        0 => primes_for(g, c.n, 1, 4),
        1 => c.q[..g.range(1, c.q.len())].to_vec(),
        _ => {
            let mut t = c.q.clone();
            for x in primes_for(g, c.n, 1, 3) {
                if !t.contains(&x) {
                    t.push(x)
                }
            }
            t
        }
    };
    let to = Context::new_arc(&to_q, c.n).ctx("context")?;
    let s = Switcher::new(&c.ctx, &to).ctx("switcher")?;
    let v: Vec<BigUint> = (0..c.n)
        .map(|_| {
            let r = scale_input(g, &c.crt, to.modulus(), &c.crt.q);
            c.crt.lift(r.into_iter())
        })
        .collect();
    g.note(format!("{} to={to_q:?}", c.desc()));
    if nz(&v) {
        g.hit();
    }
    let p = c.pb(&c.project(&v));
    let r = p.switch(&s).ctx("switch")?;
    for j in 0..c.n {
        let acc = accepted(&v[j], &c.crt.q, to.modulus(), &c.crt.q);
        let col: Vec<u64> = r.coefficients().column(j).to_vec();
        ensure!(matches_any(&col, &to_q, &acc), "coefficient {j} = {}: got {col:?}, expected {acc:?}", v[j]);
    }
    ensure!(p.clone().into_ntt().switch(&s).ctx("switch")?.into_power_basis() == r, "NTT form differs");
    Ok(())
}

// ---------------------------------------------------------------------- M08

fn extend(mut v: Vec<BigUint>, n: usize) -> Vec<BigUint> {
    v.resize(n, BigUint::zero());
    v
}

fn some_len(g: &mut Gen, n: usize) -> usize {
    match g.weighted(&[3, 2, 1, 1, 1]) {
        0 => g.range(0, n),
        1 => n,
        2 => n - 1,
        3 => n + 1,
        _ => g.range(n + 1, 4 * n + 3),
    }
}

fn conv_u64(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 5, 1, 4)?;
    let len = some_len(g, c.n);
    let m = if g.bool() { u64::MAX } else { c.q[0] - 1 };
    let v = bulk(g, len, m);
    let flag = g.bool();
    g.note(format!("{} len={len} vt={flag} v={:?}", c.desc(), &v[..len.min(4)]));
    if len > 0 {
        g.hit();
    }
    let big = extend(v.iter().map(|x| BigUint::from(*x)).collect(), c.n);
    type P = Poly<PowerBasis>;
    let rs = [
        ("Vec<u64>", P::try_convert_from(v.clone(), &c.ctx, flag)),
        ("&[u64]", P::try_convert_from(&v[..], &c.ctx, flag)),
        ("&Vec<u64>", P::try_convert_from(&v, &c.ctx, flag)),
        ("public", P::try_convert_from_public(&v[..], &c.ctx, vt())),
    ];
    for (w, r) in rs {
        if len <= c.n {
            let r = r.ctx(w)?;
            c.check(&r, &big, w)?;
            let flag = flag || w == "public";
            ensure_eq!(r.allows_variable_time_computations(), flag, "{w}: permission");
            let back: Vec<BigUint> = (&r).into();
            let e: Vec<BigUint> = big.iter().map(|x| x % &c.crt.q).collect();
            ensure_eq!(back, e, "{w}: coefficients read back");
            let raw = Vec::<u64>::try_from(&r).ctx("residues")?;
            ensure!(raw == r.coefficients().iter().copied().collect::<Vec<_>>(), "{w}: flat residues");
        } else if len != c.n * c.q.len() {
            ensure!(r.is_err(), "{w}: {len} values accepted at degree {}", c.n);
        }
    }
    // flat vectors are residues in the transformed representations: any other length is refused
    if len != c.n * c.q.len() {
        ensure!(Poly::<Ntt>::try_convert_from(v.clone(), &c.ctx, flag).is_err(), "NTT from {len} residues");
        ensure!(Poly::<NttShoup>::try_convert_from(v.clone(), &c.ctx, flag).is_err(), "Shoup from {len} residues");
        ensure!(Poly::<Ntt>::try_convert_from(&v[..], &c.ctx, flag).is_err(), "NTT from {len} residues");
        ensure!(Poly::<NttShoup>::try_convert_from(&v[..], &c.ctx, flag).is_err(), "Shoup from {len} residues");
    }
    // fixed-size arrays
    if c.n >= 8 {
        let arr: [u64; 5] = std::array::from_fn(|i| v.get(i).copied().unwrap_or(i as u64));
        let r = P::try_convert_from(&arr, &c.ctx, flag).ctx("&[u64; 5]")?;
        c.check(&r, &extend(arr.iter().map(|x| BigUint::from(*x)).collect(), c.n), "&[u64; 5]")?;
    }
    Ok(())
}

fn conv_i64(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 5, 1, 4)?;
    let len = some_len(g, c.n);
    let m = *g.pick(&[u64::MAX, 40, c.q[0]]);
    let v: Vec<i64> = bulk(g, len, m).iter().map(|x| if m == u64::MAX { *x as i64 } else { *x as i64 - (m / 2) as i64 }).collect();
    let flag = g.bool();
    g.note(format!("{} len={len} v={:?}", c.desc(), &v[..len.min(4)]));
    if len > 0 {
        g.hit();
    }
    let big = extend(v.iter().map(|x| num::modbig(&BigInt::from(*x), &c.crt.q)).collect(), c.n);
    type P = Poly<PowerBasis>;
    for (w, r) in [
        ("&[i64]", P::try_convert_from(&v[..], &c.ctx, flag)),
        ("&Vec<i64>", P::try_convert_from(&v, &c.ctx, flag)),
        ("public", P::try_convert_from_public(&v[..], &c.ctx, vt())),
    ] {
        if len <= c.n {
            let r = r.ctx(w)?;
            c.check(&r, &big, w)?;
            ensure_eq!(r.allows_variable_time_computations(), flag || w == "public", "{w}: permission");
        } else {
            ensure!(r.is_err(), "{w}: {len} values accepted at degree {}", c.n);
        }
    }
    let arr: [i64; 3] = std::array::from_fn(|i| v.get(i).copied().unwrap_or(-(i as i64)));
    let r = P::try_convert_from(&arr, &c.ctx, flag).ctx("&[i64; 3]")?;
    c.check(&r, &extend(arr.iter().map(|x| num::modbig(&BigInt::from(*x), &c.crt.q)).collect(), c.n), "&[i64; 3]")
}

fn conv_big(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 5)?;
    let len = some_len(g, c.n);
    let top = &c.crt.q << g.range(0, 3) as u32;
    let v: Vec<BigUint> = (0..len).map(|_| if g.bool() { big_below(g, &top) } else { BigUint::from(g.draw(3)) }).collect();
    let flag = g.bool();
    g.note(format!("{} len={len}", c.desc()));
    if len > 0 {
        g.hit();
    }
    let e = extend(v.iter().map(|x| x % &c.crt.q).collect(), c.n);
    let a = Poly::<PowerBasis>::try_convert_from(&v[..], &c.ctx, flag);
    let b = Poly::<Ntt>::try_convert_from(&v[..], &c.ctx, flag);
    let s = Poly::<NttShoup>::try_convert_from(&v[..], &c.ctx, flag);
    if len <= c.n {
        let (a, b, s) = (a.ctx("power basis")?, b.ctx("ntt")?, s.ctx("shoup")?);
        c.check(&a, &e, "from big integers")?;
        ensure!(b == a.clone().into_ntt() && s == a.clone().into_ntt_shoup(), "representations differ");
        ensure!(a.allows_variable_time_computations() == flag && b.allows_variable_time_computations() == flag, "permission");
        let back: Vec<BigUint> = (&a).into();
        ensure_eq!(back, e, "big integers read back");
    } else {
        ensure!(a.is_err() && b.is_err() && s.is_err(), "{len} integers accepted at degree {}", c.n);
    }
    let arr: [BigUint; 2] = std::array::from_fn(|i| v.get(i).cloned().unwrap_or_default());
    let r = Poly::<PowerBasis>::try_convert_from(&arr, &c.ctx, flag).ctx("&[BigUint; 2]")?;
    c.check(&r, &extend(arr.to_vec(), c.n), "&[BigUint; 2]")
}

fn conv_raw(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 4)?;
    let a = c.residues(g);
    let v = c.lift(&a.view());
    let flag = g.bool();
    g.note(c.desc());
    if nz(&v) {
        g.hit();
    }
    let flat: Vec<u64> = a.iter().copied().collect();
    let p = Poly::<PowerBasis>::try_convert_from(a.clone(), &c.ctx, flag).ctx("matrix")?;
    c.check(&p, &v, "from a residue matrix")?;
    let p2 = Poly::<PowerBasis>::try_convert_from(flat.clone(), &c.ctx, flag).ctx("flat")?;
    ensure!(p2 == p, "flat residues differ from the matrix");
    let n1 = Poly::<Ntt>::try_convert_from(a.clone(), &c.ctx, flag).ctx("matrix")?;
    let n2 = Poly::<Ntt>::try_convert_from(flat.clone(), &c.ctx, flag).ctx("flat")?;
    ensure!(n1 == n2 && n1.coefficients() == a, "NTT from residues");
    let s1 = Poly::<NttShoup>::try_convert_from(a.clone(), &c.ctx, flag).ctx("matrix")?;
    let s2 = Poly::<NttShoup>::try_convert_from(&flat, &c.ctx, flag).ctx("flat")?;
    ensure!(s1 == s2 && s1 == n1.clone().into_ntt_shoup(), "Shoup from residues");
    ensure!(p.allows_variable_time_computations() == flag && n2.allows_variable_time_computations() == flag && s1.allows_variable_time_computations() == flag, "permission");
    // wrong shapes
    let (r, k) = (g.range(0, c.q.len() + 2), *g.pick(&[0, 1, c.n / 2, c.n - 1, c.n, c.n + 1, 2 * c.n]));
    if (r, k) != (c.q.len(), c.n) {
        let b = Array2::<u64>::zeros((r, k));
        ensure!(Poly::<PowerBasis>::try_convert_from(b.clone(), &c.ctx, flag).is_err(), "matrix {r}x{k} accepted");
        ensure!(Poly::<Ntt>::try_convert_from(b.clone(), &c.ctx, flag).is_err(), "matrix {r}x{k} accepted");
        ensure!(Poly::<NttShoup>::try_convert_from(b, &c.ctx, flag).is_err(), "matrix {r}x{k} accepted");
    }
    Ok(())
}

fn wire(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 6, 1, 5)?;
    let (mut a, va) = c.poly(g);
    let flag = g.bool();
    if flag {
        a.allow_variable_time_computations(vt());
    }
    g.note(format!("{} vt={flag}", c.desc()));
    if nz(&va) {
        g.hit();
    }
    let ctx2 = Context::new_arc(&c.q, c.n).ctx("context")?;
    let b0 = a.to_bytes();
    ensure!(b0 == a.clone().to_bytes(), "serialisation is not deterministic");
    let r = Poly::<PowerBasis>::from_bytes(&b0, &ctx2).ctx("power basis")?;
    c.check(&r, &va, "read back")?;
    ensure!(r == a, "read back differs");
    let n = a.clone().into_ntt();
    let bn = n.to_bytes();
    let s = a.clone().into_ntt_shoup();
    let bs = s.to_bytes();
    let rn = Poly::<Ntt>::from_bytes(&bn, &ctx2).ctx("ntt")?;
    let rs = Poly::<NttShoup>::from_bytes(&bs, &ctx2).ctx("shoup")?;
    ensure!(rn == n && rs == s, "read back differs in a transformed representation");
    ensure!(
        !r.allows_variable_time_computations() && !rn.allows_variable_time_computations() && !rs.allows_variable_time_computations(),
        "bytes granted variable-time permission"
    );
    ensure!(rn.to_bytes() == bn && rs.to_bytes() == bs && r.to_bytes() == b0, "second serialisation differs");
    // representations are not confused
    ensure!(Poly::<PowerBasis>::from_bytes(&bn, &ctx2).is_err() && Poly::<PowerBasis>::from_bytes(&bs, &ctx2).is_err(), "representation confused");
    ensure!(Poly::<Ntt>::from_bytes(&b0, &ctx2).is_err() && Poly::<Ntt>::from_bytes(&bs, &ctx2).is_err(), "representation confused");
    ensure!(Poly::<NttShoup>::from_bytes(&b0, &ctx2).is_err() && Poly::<NttShoup>::from_bytes(&bn, &ctx2).is_err(), "representation confused");
    // a context with another number of moduli or degree is refused
    if c.q.len() > 1 {
        let c3 = Context::new_arc(&c.q[1..], c.n).ctx("context")?;
        ensure!(Poly::<Ntt>::from_bytes(&bn, &c3).is_err(), "bytes of another context accepted");
    }
    let q4 = primes_for(g, 2 * c.n, 1, 4);
    let c4 = Context::new_arc(&q4, 2 * c.n).ctx("context")?;
    if let Ok(Ok(_)) = no_panic(|| Poly::<Ntt>::from_bytes(&bn, &c4)) {
        return Err(format!("bytes of degree {} over {:?} accepted at degree {} over {q4:?}", c.n, c.q, 2 * c.n));
    }
    Ok(())
}

/// minimal protobuf writer for the polynomial message
pub fn pb_varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            break;
        }
        out.push(b | 0x80);
    }
}
pub fn rq_bytes(repr: u64, degree: u64, coeffs: &[u8], vt: Option<u64>) -> Vec<u8> {
    let mut o = vec![];
    if repr != 0 {
        o.push(0x08);
        pb_varint(&mut o, repr);
    }
    if degree != 0 {
        o.push(0x10);
        pb_varint(&mut o, degree);
    }
    if !coeffs.is_empty() {
        o.push(0x1a);
        pb_varint(&mut o, coeffs.len() as u64);
        o.extend_from_slice(coeffs);
    }
    if let Some(v) = vt {
        o.push(0x20);
        pb_varint(&mut o, v);
    }
    o
}

fn pack(rows: &[Vec<u64>], q: &[u64]) -> Vec<u8> {
    let mut out = vec![];
    for (r, m) in rows.iter().zip(q) {
        let nb = 64 - (m - 1).leading_zeros() as usize;
        let mut acc: u128 = 0;
        let mut bits = 0;
        for x in r {
            acc |= ((*x & (u64::MAX >> (64 - nb))) as u128) << bits;
            bits += nb;
            while bits >= 8 {
                out.push(acc as u8);
                acc >>= 8;
                bits -= 8;
            }
        }
        if bits > 0 {
            out.push(acc as u8);
        }
    }
    out
}

fn wire_mutation(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 3)?;
    let a = c.residues(g);
    let rows: Vec<Vec<u64>> = a.outer_iter().map(|r| r.to_vec()).collect();
    let mut repr = 1 + g.below(3);
    let mut degree = c.n as u64;
    let mut flag = None;
    let kind = g.below(8);
    let mut coeffs = pack(&rows, &c.q);
    let mut valid = true;
    match kind {
        0 => {}
        1 => {
            repr = *g.pick(&[0u64, 4, 5, 127, 1 << 31, u64::MAX]);
            valid = false;
        }
        2 => {
            degree = *g.pick(&[0, 1, 4, 7, 9, c.n as u64 / 2, c.n as u64 * 2, c.n as u64 - 8, c.n as u64 + 8, 1 << 31, (1 << 32) - 8]);
            valid = degree == c.n as u64;
            if g.bool() && degree < 1024 && degree % 8 == 0 {
                // a matching amount of data
                let rows2: Vec<Vec<u64>> = c.q.iter().map(|_| vec![1; degree as usize]).collect();
                coeffs = pack(&rows2, &c.q);
            }
        }
        3 => {
            // residue at or above its modulus
            let i = g.usize_below(c.q.len());
            let j = g.usize_below(c.n);
            let nb = 64 - (c.q[i] - 1).leading_zeros() as usize;
            let top = if nb == 64 { u64::MAX } else { (1u64 << nb) - 1 };
            let x = c.q[i] + g.draw(top - c.q[i]);
            let mut r = rows.clone();
            r[i][j] = x;
            coeffs = pack(&r, &c.q);
            valid = false;
        }
        4 => {
            let cut = g.range(1, coeffs.len());
            coeffs.truncate(coeffs.len() - cut);
            valid = false;
        }
        5 => {
            let add = g.range(1, 40);
            coeffs.extend(vec![0u8; add]);
            valid = false;
        }
        6 => flag = Some(1),
        _ => {}
    }
    let mut bytes = rq_bytes(repr, degree, &coeffs, flag);
    if kind == 7 {
        // raw corruption: only the outcome class is checked
        for _ in 0..g.range(1, 4) {
            if bytes.is_empty() {
                break;
            }
            let i = g.usize_below(bytes.len());
            match g.below(3) {
                0 => bytes[i] ^= 1 << g.below(8),
                1 => {
                    bytes.remove(i);
                }
                _ => bytes.truncate(i),
            }
        }
    }
    g.note(format!("{} kind={kind} repr={repr} degree={degree} bytes={}", c.desc(), bytes.len()));
    g.label(format!("mutation {kind}"));
    g.hit();
    macro_rules! go {
        ($t:ty, $r:expr) => {{
            let r = no_panic(|| Poly::<$t>::from_bytes(&bytes, &c.ctx)).map_err(|p| format!("mutation {kind}: {p}"))?;
            if let Ok(p) = r {
                ensure!(kind == 7 || (valid && repr == $r), "mutation {kind} (representation {repr}, degree {degree}) accepted");
                ensure_eq!(p.coefficients().shape().to_vec(), vec![c.q.len(), c.n], "shape of an accepted polynomial");
                for (row, q) in p.coefficients().outer_iter().zip(&c.q) {
                    ensure!(row.iter().all(|x| x < q), "mutation {kind}: accepted a residue that is not below its modulus {q}");
                }
                ensure!(!p.allows_variable_time_computations(), "bytes granted variable-time permission");
                let again = Poly::<$t>::from_bytes(&p.to_bytes(), &c.ctx).ctx("re-read")?;
                ensure!(again == p, "an accepted polynomial does not survive a round trip");
            } else {
                ensure!(kind == 7 || !(valid && repr == $r), "mutation {kind}: a valid encoding was rejected");
            }
        }};
    }
    go!(PowerBasis, 1);
    go!(Ntt, 2);
    go!(NttShoup, 3);
    Ok(())
}

fn context_accept(g: &mut Gen) -> Result<(), String> {
    let n = match g.weighted(&[4, 1]) {
        0 => 1usize << g.range(0, 7),
        _ => g.range(0, 200),
    };
    let base = n.max(8).next_power_of_two();
    let mut q = primes_for(g, base, 1, 4);
    match g.below(6) {
        0 => {
            let i = g.usize_below(q.len());
            q[i] = g.biased(u64::MAX);
        }
        1 => {
            let x = q[g.usize_below(q.len())];
            q.push(x);
        }
        2 => q.clear(),
        3 => q.push(num::ntt_prime(g.range(5, 62), 16, g.usize_below(4)).unwrap_or(97)),
        _ => {}
    }
    g.note(format!("n={n} moduli={q:?}"));
    g.hit();
    let ok = n.is_power_of_two()
        && n >= 8
        && !q.is_empty()
        && q.iter().all(|m| *m < 1 << 62 && num::prime(*m) && m % (2 * n as u64) == 1)
        && (0..q.len()).all(|i| (0..i).all(|j| q[i] != q[j]));
    let r = no_panic(|| Context::new(&q, n)).map_err(|p| format!("Context::new({q:?}, {n}): {p}"))?;
    ensure_eq!(r.is_ok(), ok, "Context::new({q:?}, {n}).is_ok()");
    if let Ok(c) = r {
        ensure_eq!(c.moduli(), &q[..], "moduli");
    }
    Ok(())
}

// ---------------------------------------------------------------------- M09

#[derive(Clone)]
struct Slot {
    p: Poly<Ntt>,
    /// every polynomial this one was computed from granted permission
    may: bool,
}

fn vt_program(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 3)?;
    let m = g.range(2, 4);
    let mut a: Vec<Slot> = vec![];
    let mut b: Vec<Poly<Ntt>> = vec![];
    for _ in 0..m {
        let (p, _) = c.poly(g);
        let mut p = p.into_ntt();
        let may = g.bool();
        b.push(p.clone());
        if may {
            p.allow_variable_time_computations(vt());
        }
        a.push(Slot { p, may });
    }
    if a.iter().any(|s| s.may) && a.iter().any(|s| !s.may) {
        g.hit();
    }
    let steps = g.range(1, 8);
    let mut trace = vec![];
    for _ in 0..steps {
        let (i, j) = (g.usize_below(a.len()), g.usize_below(a.len()));
        let op = g.below(16);
        let (x, y) = (a[i].clone(), a[j].clone());
        let (xb, yb) = (b[i].clone(), b[j].clone());
        let both = x.may && y.may;
        let scal = BigUint::from(g.biased(u64::MAX));
        let e = SubstitutionExponent::new(&c.ctx, exponent(g, c.n)).ctx("exponent")?;
        let sw = Switcher::new(&c.ctx, &c.ctx).ctx("switcher")?;
        let m = g.range(1, 4);
        let li: Vec<usize> = (0..m).map(|_| g.usize_below(a.len())).collect();
        let ri: Vec<usize> = (0..m).map(|_| g.usize_below(a.len())).collect();
        let f = |p: &Poly<Ntt>, q: &Poly<Ntt>, l: &[&Poly<Ntt>], r: &[&Poly<Ntt>]| -> Result<(Poly<Ntt>, &'static str), String> {
            Ok(match op {
                0 => (p + q, "&x+&y"),
                1 => (p.clone() + q.clone(), "x+y"),
                2 => (p - q, "x-y"),
                3 => (p * q, "x*y"),
                4 => (p * &q.clone().into_ntt_shoup(), "x*shoup(y)"),
                5 => (-p, "-&x"),
                6 => (-p.clone(), "-x"),
                7 => (p * &scal, "x*s"),
                8 => (p.substitute(&e).ctx("s")?, "subst"),
                9 => (p.clone().into_power_basis().substitute(&e).ctx("s")?.into_ntt(), "subst pb"),
                10 => ((&p.to_power_basis() + &q.to_power_basis()).into_ntt(), "pb +"),
                11 => ((&p.to_power_basis() - &q.to_power_basis()).into_ntt(), "pb -"),
                12 => (dot_product(l.iter().copied(), r.iter().copied()).ctx("dot")?, "dot"),
                13 => (p.switch(&sw).ctx("switch")?, "switch"),
                14 => {
                    let mut t = p.to_power_basis();
                    t.multiply_inverse_power_of_x(c.n / 2 + 1).ctx("monomial")?;
                    ((-t).into_ntt(), "monomial")
                }
                _ => (p.clone().into_ntt_shoup().substitute(&e).ctx("s")?.into_ntt(), "subst shoup"),
            })
        };
        let pick_a = |v: &[usize]| v.iter().map(|i| &a[*i].p).collect::<Vec<_>>();
        let pick_b = |v: &[usize]| v.iter().map(|i| &b[*i]).collect::<Vec<_>>();
        let (r, what) = f(&x.p, &y.p, &pick_a(&li), &pick_a(&ri))?;
        let (rb, _) = f(&xb, &yb, &pick_b(&li), &pick_b(&ri))?;
        trace.push(if op == 12 { format!("{what}({li:?},{ri:?})") } else { format!("{what}({i},{j})") });
        let binary = matches!(op, 0..=4 | 10..=12);
        let may = if op == 12 { li.iter().chain(&ri).all(|i| a[*i].may) } else if binary { both } else { x.may };
        g.label(what);
        ensure!(r.coefficients() == rb.coefficients(), "{trace:?}: the result depends on the permission");
        ensure!(!rb.allows_variable_time_computations(), "{trace:?}: permission appeared from nowhere");
        ensure!(may || !r.allows_variable_time_computations(), "{trace:?}: the result may be processed in variable time although an operand did not allow it");
        ensure!(a[i].p.allows_variable_time_computations() == a[i].may || !a[i].p.allows_variable_time_computations(), "operand permission changed");
        a.push(Slot { p: r, may });
        b.push(rb);
    }
    let mut z = a[0].p.clone();
    z.disallow_variable_time_computations();
    ensure!(!z.allows_variable_time_computations(), "disallow");
    ensure!(z == a[0].p, "permission is part of equality");
    g.note(format!("{} {:?}", c.desc(), trace));
    Ok(())
}

fn vt_sources(g: &mut Gen) -> Result<(), String> {
    let c = pc(g, 3, 4, 1, 3)?;
    g.note(c.desc());
    g.hit();
    let mut r = g.rng();
    let mut seed = [0u8; 32];
    r.fill_bytes(&mut seed);
    let v: Vec<u64> = bulk(g, c.n, c.q[0] - 1);
    let off = |w: &str, b: bool| -> Result<(), String> {
        ensure!(!b, "{w} is marked for variable time although nobody allowed it");
        Ok(())
    };
    off("zero", Poly::<Ntt>::zero(&c.ctx).allows_variable_time_computations())?;
    off("zero", Poly::<NttShoup>::zero(&c.ctx).allows_variable_time_computations())?;
    off("random", Poly::<Ntt>::random(&c.ctx, &mut r).allows_variable_time_computations())?;
    off("random", Poly::<PowerBasis>::random(&c.ctx, &mut r).allows_variable_time_computations())?;
    off("seeded", Poly::<Ntt>::random_from_seed(&c.ctx, seed).allows_variable_time_computations())?;
    off("small", Poly::<NttShoup>::small(&c.ctx, 10, &mut r).ctx("small")?.allows_variable_time_computations())?;
    off("u64", Poly::<PowerBasis>::try_convert_from(&v[..], &c.ctx, false).ctx("c")?.allows_variable_time_computations())?;
    off("switched", {
        let mut p = Poly::<PowerBasis>::random(&c.ctx, &mut r);
        let _ = p.switch_down();
        p.allows_variable_time_computations()
    })?;
    let mut p = Poly::<Ntt>::random(&c.ctx, &mut r);
    p.allow_variable_time_computations(vt());
    ensure!(p.allows_variable_time_computations(), "allow has no effect");
    off("from bytes", Poly::<Ntt>::from_bytes(&p.to_bytes(), &c.ctx).ctx("bytes")?.allows_variable_time_computations())?;
    Ok(())
}
