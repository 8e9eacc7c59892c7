//! B06-B13: multiplication, relinearisation, modulus switching, rotations,
//! expansion, external products, dot products and histories.
use crate::choice::*;
use crate::model::*;
use crate::num;
use crate::p_poly::{accepted, matches_any};
use crate::runner::*;
use fhe::bfv::{Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey, dot_product_scalar};
use fhe::bfv::BfvParametersBuilder;
use fhe_math::rns::ScalingFactor;
use fhe_traits::{DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use ndarray::Array2;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use prost::Message;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "B06",
            rule: "a case draws parameters, a key, a level and two ciphertexts of 2..4 parts (fresh, public-key, synthetic with noise up to the limit, or the same one twice) and multiplies them; non-trivial = both messages non-zero",
            subs: vec![sub("product", 2_500, 80_000, b06_product), sub("decrypts", 2_500, 80_000, b06_decrypts), sub("large", 24, 600, b06_large), sub("extreme", 200, 8_000, b06_extreme)],
        },
        Prop {
            id: "B07",
            rule: "a case draws parameters, a ciphertext level and a key level, and a three-part ciphertext or a multiplication strategy (default, auxiliary-modulus or custom factors and basis); non-trivial = non-zero phase",
            subs: vec![sub("relinearise", 3_600, 120_000, b07_relin), sub("strategies", 1_800, 60_000, b07_strategy), sub("default", 1_440, 48_000, b07_default), sub("extreme", 200, 8_000, b07_extreme)],
        },
        Prop {
            id: "B08",
            rule: "a case draws a ciphertext of 2..4 parts with an arbitrary or in-budget phase and a sequence of level switches, valid and invalid; non-trivial = at least one modulus dropped",
            subs: vec![sub("phase", 9_000, 300_000, b08_phase), sub("message", 7_500, 225_000, b08_message)],
        },
        Prop {
            id: "B09",
            rule: "a case draws slot parameters, a level pair, a set of enabled operations and a slot vector, and applies every operation the key has or lacks; non-trivial = slots not all equal",
            subs: vec![sub("rotations", 4_500, 150_000, b09_rot), sub("inner_sum", 2_700, 75_000, b09_inner), sub("support", 2_100, 45_000, b09_support), sub("large", 240, 6_000, b09_large)],
        },
        Prop {
            id: "B10",
            rule: "a case draws parameters, a level pair, an expansion depth, a ciphertext and a size; non-trivial = at least two outputs",
            subs: vec![sub("expand", 4_000, 120_000, b10), sub("large", 200, 5_000, b10_large)],
        },
        Prop {
            id: "B11",
            rule: "a case draws parameters, a level, a gadget plaintext (small, monomial, arbitrary, slot-encoded) and a two-part ciphertext; non-trivial = both messages non-zero",
            subs: vec![sub("external", 9_000, 300_000, b11)],
        },
        Prop {
            id: "B12",
            rule: "a case draws a list of ciphertexts and plaintexts of one level (lengths 1..40, or beyond the 128-bit accumulator's capacity for 62-bit moduli) or a mismatched list; non-trivial = at least two terms",
            subs: vec![sub("dot_product", 4_500, 150_000, b12), sub("long", 90, 2_250, b12_long), sub("reject", 2_250, 45_000, b12_reject)],
        },
        Prop {
            id: "B13",
            rule: "a case draws parameters, keys and up to 14 operations over a pool of ciphertexts; every ciphertext carries the model's message and worst-case noise; non-trivial = at least three operations applied",
            subs: vec![sub("history", 3_600, 120_000, b13)],
        },
    ]
}

// ------------------------------------------------------------------ helpers

/// Levels whose modulus leaves room for the plaintext space.
pub fn fit_levels(ps: &Ps) -> Vec<usize> {
    (0..ps.levels()).filter(|l| (&ps.t << 3u32) < *ps.ql(*l)).collect()
}
/// Centred integer coefficients of a row representation.
pub fn clift(ps: &Ps, l: usize, a: &Array2<u64>) -> Vec<BigInt> {
    ps.lift(l, a).iter().map(|x| num::centered(x, ps.ql(l))).collect()
}
/// Product in Z[x]/(x^n+1).
pub fn zmul(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let n = a.len();
    if n >= 64 {
        return num::kron_z(a, b);
    }
    let mut r = vec![BigInt::zero(); n];
    for i in 0..n {
        if a[i].is_zero() {
            continue;
        }
        for j in 0..n {
            let p = &a[i] * &b[j];
            if i + j < n { r[i + j] += p } else { r[i + j - n] -= p }
        }
    }
    r
}
/// Structural invariants of a result: level consistent with its polynomials, and
/// meaning the same after travelling.
pub fn sane(ps: &Ps, ct: &Ciphertext, l: usize, parts: usize, what: &str) -> Res<()> {
    ensure_eq!(ct.len(), parts, "{what}: number of parts");
    let ctx = ps.par.context_at_level(l).ctx("context")?;
    ensure!(ct.iter().all(|p| p.ctx() == ctx), "{what}: a part is not at level {l}");
    let b = ct.to_bytes();
    let p = fhe::proto::bfv::Ciphertext::decode(b.as_slice()).ctx("decode")?;
    ensure_eq!(p.level as usize, l, "{what}: announced level");
    let back = Ciphertext::from_bytes(&b, &ps.par).ctx("from_bytes")?;
    ensure!(ps.parts(&back) == ps.parts(ct), "{what}: changes when serialised");
    Ok(())
}
/// Exact tensor product with the scalings of a multiplication strategy, as the
/// list of admissible results of every output coefficient (None when an input lies
/// within the documented precision of a rounding tie).
pub struct Strategy {
    fl: (BigUint, BigUint),
    fr: (BigUint, BigUint),
    ext: BigUint,
    post: (BigUint, BigUint),
}
fn tensor(ps: &Ps, l: usize, a: &[Array2<u64>], b: &[Array2<u64>], st: &Strategy) -> Option<Vec<Vec<Vec<BigInt>>>> {
    let q = ps.ql(l);
    let scale = |v: &[Array2<u64>], f: &(BigUint, BigUint)| -> Option<Vec<Vec<BigInt>>> {
        v.iter()
            .map(|p| {
                ps.lift(l, p)
                    .iter()
                    .map(|x| {
                        let acc = accepted(x, q, &f.0, &f.1);
                        if acc.len() == 1 { acc.into_iter().next() } else { None }
                    })
                    .collect()
            })
            .collect()
    };
    let (sa, sb) = (scale(a, &st.fl)?, scale(b, &st.fr)?);
    let mut out = vec![vec![BigInt::zero(); ps.n]; a.len() + b.len() - 1];
    for (i, x) in sa.iter().enumerate() {
        for (j, y) in sb.iter().enumerate() {
            for (o, p) in out[i + j].iter_mut().zip(zmul(x, y)) {
                *o += p;
            }
        }
    }
    Some(out.into_iter().map(|p| p.into_iter().map(|x| accepted(&num::modbig(&x, &st.ext), &st.ext, &st.post.0, &st.post.1)).collect()).collect())
}
fn match_tensor(ps: &Ps, l: usize, got: &Ciphertext, exp: &[Vec<Vec<BigInt>>], what: &str) -> Res<()> {
    for (i, (p, e)) in ps.parts(got).iter().zip(exp).enumerate() {
        for (j, acc) in e.iter().enumerate() {
            let col: Vec<u64> = p.column(j).to_vec();
            ensure!(matches_any(&col, ps.mods(l), acc), "{what}: part {i} coefficient {j} is {col:?}, expected the residues of {acc:?} modulo {:?}", ps.mods(l));
        }
    }
    Ok(())
}
/// The strategy of the product operator. The basis only has to be large enough, so
/// the oracle works over the integers (a modulus beyond every tensor coefficient).
fn plain_strategy(ps: &Ps, l: usize) -> Strategy {
    Strategy {
        fl: (BigUint::one(), BigUint::one()),
        fr: (BigUint::one(), BigUint::one()),
        ext: BigUint::one() << (2 * ps.ql(l).bits() + 64),
        post: (ps.t.clone(), ps.ql(l).clone()),
    }
}
fn mul_params(g: &mut Gen) -> Res<Ps> {
    match g.below(3) {
        0 => params(g, &Spec { reserve: 4, ..Default::default() }),
        1 => params(g, &Spec { depth: 1, reserve: 30, k: (2, 6), qmin: 16, ..Default::default() }),
        _ => params(g, &Spec { depth: 3, reserve: 40, k: (3, 8), qmin: 30, ..Default::default() }),
    }
}
/// Parameters with room for a key switch to be measured.
fn ks_params(g: &mut Gen, simd: bool, top: usize) -> Res<Ps> {
    if g.chance(1, 3) {
        params(g, &Spec { reserve: 8, simd, top, k: (1, 5), qmin: 12, ..Default::default() })
    } else {
        params(g, &Spec { reserve: 50, simd, top, k: (2, 5), qmin: 30, ..Default::default() })
    }
}

// ------------------------------------------------------------------ B06

fn operands(g: &mut Gen, ps: &Ps, sk: &Sk, l: usize, emax: &BigUint) -> Res<(Mc, Mc, bool)> {
    let pa = *g.pick(&[2, 2, 2, 3, 4]);
    let a = some_ct(g, ps, sk, l, Some(pa), emax)?;
    if g.chance(1, 4) {
        return Ok((a.clone(), a, true));
    }
    let pb = *g.pick(&[2, 2, 2, 3]);
    let b = some_ct(g, ps, sk, l, Some(pb), emax)?;
    Ok((a, b, false))
}
fn b06_product(g: &mut Gen) -> Res<()> {
    let ps = mul_params(g)?;
    let sk = Sk::gen_(g, &ps)?;
    let l = *g.pick(&fit_levels(&ps));
    let lim = ps.nu_max(l);
    let (a, b, sq) = operands(g, &ps, &sk, l, &(&lim >> 1u32))?;
    g.note(format!("{} level={l} parts={}x{} square={sq} {}/{}", ps.desc(), a.ct.len(), b.ct.len(), a.kind, b.kind));
    if nonzero(&a.m) && nonzero(&b.m) {
        g.hit();
    }
    let (a0, b0) = (a.ct.clone(), b.ct.clone());
    let r = &a.ct * &b.ct;
    ensure!(a.ct == a0 && b.ct == b0, "an operand changed");
    sane(&ps, &r, l, a.ct.len() + b.ct.len() - 1, "product")?;
    if let Some(e) = tensor(&ps, l, &ps.parts(&a.ct), &ps.parts(&b.ct), &plain_strategy(&ps, l)) {
        match_tensor(&ps, l, &r, &e, "product")?;
    } else {
        g.label("tie in the operands");
    }
    Ok(())
}
fn product_check(g: &mut Gen, ps: &Ps, sk: &Sk, l: usize, a: &Mc, b: &Mc) -> Res<()> {
    let (na, nb) = (ps.nu(&sk.s, &a.ct, &a.m), ps.nu(&sk.s, &b.ct, &b.m));
    let bound = ps.mul_bound(l, sk.s1, a.ct.len(), &na, b.ct.len(), &nb);
    let m = ps.mul_t(&a.m, &b.m);
    if ps.ok(l, &bound) {
        g.label("decrypts");
    } else {
        g.label("beyond the budget");
    }
    for (x, y, w) in [(&a.ct, &b.ct, "a * b"), (&b.ct, &a.ct, "b * a")] {
        ps.expect(sk, &(x * y), &m, &bound, w)?;
    }
    Ok(())
}
fn b06_decrypts(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { depth: 1, reserve: 36, k: (2, 7), qmin: 24, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let f: Vec<usize> = (0..ps.levels()).filter(|l| (&ps.t << 30u32) < *ps.ql(*l)).collect();
    let l = *g.pick(&f);
    let em = BigUint::one() << g.range(0, 24);
    let (a, b, sq) = operands(g, &ps, &sk, l, &em.min(ps.nu_max(l) >> 1u32))?;
    g.note(format!("{} level={l} parts={}x{} square={sq} {}/{}", ps.desc(), a.ct.len(), b.ct.len(), a.kind, b.kind));
    if nonzero(&a.m) && nonzero(&b.m) {
        g.hit();
    }
    product_check(g, &ps, &sk, l, &a, &b)
}
fn b06_large(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (8, 11), depth: 1, reserve: 50, k: (2, 4), qmin: 45, big: false, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let a = some_ct(g, &ps, &sk, 0, Some(2), &BigUint::from(ps.eb()))?;
    let b = some_ct(g, &ps, &sk, 0, Some(2), &BigUint::from(ps.eb()))?;
    g.note(format!("{} {}/{}", ps.desc(), a.kind, b.kind));
    if nonzero(&a.m) && nonzero(&b.m) {
        g.hit();
    }
    product_check(g, &ps, &sk, 0, &a, &b)
}

/// Parameters of any supported degree, one or two moduli.
fn wide_params(g: &mut Gen, kmin: usize) -> Res<Ps> {
    let n = 1usize << if g.bool() { *g.pick(&[14usize, 15, 16, 16]) } else { g.range(9, 13) };
    let mut q = chain(g, n, (kmin, 2), 20);
    if g.chance(2, 3) {
        // just below a multiple of the auxiliary primes' size, where too small a margin shows
        let total = 62 * g.range(kmin.max(1), 2) - g.range(0, 17);
        let sizes = if total > 62 || (kmin == 2 && total > 60) { vec![total / 2, total - total / 2] } else { vec![total] };
        if sizes.len() >= kmin {
            let found: Vec<u64> = sizes.iter().enumerate().filter_map(|(i, b)| num::ntt_prime_at(g.bool(), *b, 2 * n as u64, i)).collect();
            if found.len() == sizes.len() && (found.len() == 1 || found[0] != found[1]) {
                q = found;
            }
        }
    }
    let t = *g.pick(&[2u64, 3, 17, 1 << 10]);
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_moduli(&q).set_plaintext_modulus(t).set_variance(1);
    Ok(Ps::from_par(b.build_arc().ctx("build parameters")?, 1))
}
/// A two-part ciphertext whose parts are constant vectors, mostly of largest magnitude.
fn flat(g: &mut Gen, ps: &Ps, l: usize) -> Res<(Ciphertext, Vec<BigInt>)> {
    let q = ps.ql(l);
    let mut v = vec![];
    let mut p = vec![];
    for _ in 0..2 {
        let x = match g.weighted(&[4, 4, 1]) {
            // clear of the tie, where either centred representative may be extended
            0 => (q >> 1u32) - (q >> 40u32),
            1 => q - (q >> 1u32) + (q >> 40u32),
            _ => BigUint::from(g.u64()) % q,
        };
        v.push(num::centered(&x, q));
        p.push(ps.poly(l, &ps.rows_u(l, &vec![x; ps.n]), g.bool())?);
    }
    Ok((Ciphertext::new(p, &ps.par).ctx("ciphertext")?, v))
}
/// Coefficients of the tensor of two flat ciphertexts:
/// `a*sum(x^i) * b*sum(x^i) = sum(ab (2(j+1) - n) x^j)`.
fn flat_tensor(ps: &Ps, a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let _ = ps;
    vec![&a[0] * &b[0], &a[0] * &b[1] + &a[1] * &b[0], &a[1] * &b[1]]
}
fn b06_extreme(g: &mut Gen) -> Res<()> {
    let ps = wide_params(g, 1)?;
    let l = g.usize_below(ps.levels());
    let (ca, a) = flat(g, &ps, l)?;
    let (cb, b) = if g.chance(1, 4) { (ca.clone(), a.clone()) } else { flat(g, &ps, l)? };
    g.note(format!("{} level={l} constant parts {a:?} {b:?}", ps.desc()));
    g.label(format!("n=2^{}", ps.n.ilog2()));
    g.hit();
    let r = &ca * &cb;
    sane(&ps, &r, l, 3, "product")?;
    let ext = BigUint::one() << (2 * ps.ql(l).bits() + 64);
    for (i, (p, c)) in ps.parts(&r).iter().zip(flat_tensor(&ps, &a, &b)).enumerate() {
        for j in 0..ps.n {
            let x = &c * (2 * (j as i64 + 1) - ps.n as i64);
            let acc = accepted(&num::modbig(&x, &ext), &ext, &ps.t, ps.ql(l));
            let col: Vec<u64> = p.column(j).to_vec();
            ensure!(matches_any(&col, ps.mods(l), &acc), "part {i} coefficient {j} is {col:?}, expected the residues of {acc:?} modulo {:?}", ps.mods(l));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ B07

/// The default strategy on operands of largest magnitude, under the secret key +-1
/// (whose phases are sums of parts).
fn b07_extreme(g: &mut Gen) -> Res<()> {
    let ps = wide_params(g, 2)?;
    let cl = g.usize_below(ps.levels());
    let one = if g.bool() { 1i64 } else { -1 };
    let mut s = vec![0; ps.n];
    s[0] = one;
    let sk = sk_from(&ps.par, &s)?;
    let rk = RelinearizationKey::new_leveled(&sk, cl, 0, &mut g.rng()).ctx("relinearisation key")?;
    let mu = Multiplicator::default(&rk).ctx("default multiplicator")?;
    let (ca, a) = flat(g, &ps, cl)?;
    let (cb, b) = flat(g, &ps, cl)?;
    g.note(format!("{} level={cl} constant parts {a:?} {b:?}", ps.desc()));
    g.label(format!("n=2^{}", ps.n.ilog2()));
    g.hit();
    let r = mu.multiply(&ca, &cb).ctx("multiply")?;
    sane(&ps, &r, cl, 2, "default strategy")?;
    let ks = ps.ks_bound(cl, 0, 1) + 4u32;
    let q = ps.ql(cl);
    let parts = ps.parts(&r);
    let t = flat_tensor(&ps, &a, &b);
    let c = &t[0] + &t[1] * one + &t[2];
    for j in 0..ps.n {
        let x = &c * (2 * (j as i64 + 1) - ps.n as i64);
        let e = num::modbig(&num::round_div(&(x * num::bi(&ps.t)), q), q);
        let p0 = ps.crts[cl].lift(parts[0].column(j).iter().copied());
        let p1 = ps.crts[cl].lift(parts[1].column(j).iter().copied());
        let ph = if one == 1 { p0 + p1 } else { p0 + q - p1 };
        let d = num::centered(&((ph + q - e) % q), q);
        ensure!(*d.magnitude() <= ks, "coefficient {j} of the phase is off by {} bits, more than the worst case of {} bits", d.bits(), ks.bits());
    }
    Ok(())
}


/// A (ciphertext level, key level) pair a relinearisation key exists for.
pub fn rk_levels(g: &mut Gen, ps: &Ps) -> Option<(usize, usize)> {
    if ps.levels() < 2 {
        return None;
    }
    let kl = g.usize_below(ps.levels() - 1);
    let cl = if g.chance(1, 3) { kl } else { g.range(kl, ps.levels() - 1) };
    Some((cl, kl))
}
fn b07_relin(g: &mut Gen) -> Res<()> {
    let ps = ks_params(g, false, 14)?;
    let Some((cl, kl)) = rk_levels(g, &ps) else {
        let sk = Sk::gen_(g, &ps)?;
        ensure!(RelinearizationKey::new(&sk.sk, &mut g.rng()).is_err(), "relinearisation key over a single modulus");
        return Ok(());
    };
    let sk = Sk::gen_(g, &ps)?;
    let mut rng = g.rng();
    let rk = if cl == 0 && kl == 0 && g.bool() { RelinearizationKey::new(&sk.sk, &mut rng) } else { RelinearizationKey::new_leveled(&sk.sk, cl, kl, &mut rng) }.ctx("relinearisation key")?;
    let rk = if g.chance(1, 4) { RelinearizationKey::from_bytes(&rk.to_bytes(), &ps.par).ctx("relinearisation key from bytes")? } else { rk };
    let ks = ps.ks_bound(cl, kl, sk.s1);
    for _ in 0..2 {
        g.note(format!("{} ciphertext level={cl} key level={kl}", ps.desc()));
        // an arbitrary three-part ciphertext, or one that encrypts something
        let m = ps.msg(g);
        let ct = if g.bool() {
            let e = ps.err(g, &(ps.nu_max(cl) >> 2u32));
            ps.synth(g, &sk, cl, 3, &m, &e)?
        } else {
            let rows: Vec<_> = (0..3).map(|_| ps.random_rows(g, cl)).collect();
            let permit = g.bool();
            Ciphertext::new(rows.iter().map(|r| ps.poly(cl, r, permit)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")?
        };
        let pin = ps.phase(&sk.s, &ct);
        if nonzero(&pin) {
            g.hit();
        }
        let mut out = ct.clone();
        rk.relinearizes(&mut out).ctx("relinearize")?;
        sane(&ps, &out, cl, 2, "relinearised ciphertext")?;
        let d = ps.dist(cl, &ps.phase(&sk.s, &out), &pin);
        ensure!(d <= ks, "relinearisation changes the phase by {} bits, more than the worst case of {} bits", d.bits(), ks.bits());
        let nu = ps.nu(&sk.s, &ct, &m) + &ks;
        if ps.ok(cl, &nu) {
            g.label("decrypts");
            ps.expect(&sk, &out, &m, &nu, "relinearised ciphertext")?;
        }
        // the same key is refused elsewhere
        let mut two = ct.clone();
        rk.relinearizes(&mut two).ctx("relinearize")?;
        let before = two.clone();
        ensure!(rk.relinearizes(&mut two).is_err() && two == before, "a two-part ciphertext was relinearised");
        if ps.levels() > 1 {
            let o = (cl + 1) % ps.levels();
            let rows: Vec<_> = (0..3).map(|_| ps.random_rows(g, o)).collect();
            let mut other = Ciphertext::new(rows.iter().map(|r| ps.poly(o, r, true)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")?;
            let before = other.clone();
            ensure!(rk.relinearizes(&mut other).is_err() && other == before, "a ciphertext of another level was relinearised");
        }
    }
    Ok(())
}
/// 62-bit primes outside the chain, enough for `bits` bits.
fn aux_primes(g: &mut Gen, ps: &Ps, bits: u64) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut have = 0u64;
    let style = g.below(3);
    let mut i = g.usize_below(6);
    while have < bits {
        let b = if v.len() > 6 { 62 } else { match style { 0 => 62, 1 => 50, _ => *[62, 40, 55].get(v.len() % 3).unwrap() } };
        if let Some(p) = num::ntt_prime_at(g.chance(1, 4), b, 2 * ps.n as u64, i) {
            if !ps.q.contains(&p) && !v.contains(&p) {
                v.push(p);
                have += b as u64 - 1;
            }
        }
        i += 1;
    }
    v
}
fn b07_strategy(g: &mut Gen) -> Res<()> {
    let ps = mul_params(g)?;
    let sk = Sk::gen_(g, &ps)?;
    let l = *g.pick(&fit_levels(&ps));
    let q = ps.ql(l).clone();
    let one = || (BigUint::one(), BigUint::one());
    let logn = ps.n.ilog2() as u64 + 2;
    let style = g.below(4);
    let (ext, st): (Vec<u64>, Strategy) = match style {
        0 => {
            // extend both sides to q's and auxiliary primes
            let aux = aux_primes(g, &ps, q.bits() + logn);
            let mut e = ps.mods(l).to_vec();
            e.extend(&aux);
            let m = e.iter().map(|x| BigUint::from(*x)).product();
            (e, Strategy { fl: one(), fr: one(), ext: m, post: (ps.t.clone(), q.clone()) })
        }
        1 | 2 => {
            // one side scaled to an auxiliary modulus P, result scaled by t/P
            let aux = aux_primes(g, &ps, q.bits() + logn);
            let p: BigUint = aux.iter().map(|x| BigUint::from(*x)).product();
            let mut e = ps.mods(l).to_vec();
            e.extend(&aux);
            if g.bool() {
                e.rotate_left(aux.len());
            }
            let m = e.iter().map(|x| BigUint::from(*x)).product();
            let f = (p.clone(), q.clone());
            let (fl, fr) = if style == 1 { (one(), f) } else { (f, one()) };
            (e, Strategy { fl, fr, ext: m, post: (ps.t.clone(), p) })
        }
        _ => {
            // anything at all
            let bits = 62 + g.draw(2 * q.bits());
            let e = aux_primes(g, &ps, bits);
            let m = e.iter().map(|x| BigUint::from(*x)).product();
            let f = |g: &mut Gen| (BigUint::from(1 + g.draw(1 << 40)), BigUint::from(1 + g.draw(1 << 40)));
            (e, Strategy { fl: f(g), fr: f(g), ext: m, post: f(g) })
        }
    };
    let sf = |f: &(BigUint, BigUint)| ScalingFactor::new(&f.0, &f.1);
    let mut mu = if l == 0 && g.bool() {
        Multiplicator::new(sf(&st.fl), sf(&st.fr), &ext, sf(&st.post), &ps.par)
    } else {
        Multiplicator::new_leveled(sf(&st.fl), sf(&st.fr), &ext, sf(&st.post), l, &ps.par)
    }
    .ctx("multiplicator")?;
    let lim = ps.nu_max(l);
    let emax = if g.bool() { BigUint::from(ps.eb()).min(lim.clone()) } else { &lim >> 1u32 };
    let a = some_ct(g, &ps, &sk, l, Some(2), &emax)?;
    let b = if g.chance(1, 4) { a.clone() } else { some_ct(g, &ps, &sk, l, Some(2), &emax)? };
    g.note(format!("{} level={l} style={style} basis={ext:?}", ps.desc()));
    if nonzero(&a.m) && nonzero(&b.m) {
        g.hit();
    }
    let (a0, b0) = (a.ct.clone(), b.ct.clone());
    let r3 = mu.multiply(&a.ct, &b.ct).ctx("multiply")?;
    ensure!(a.ct == a0 && b.ct == b0, "an operand changed");
    sane(&ps, &r3, l, 3, "product")?;
    if let Some(e) = tensor(&ps, l, &ps.parts(&a.ct), &ps.parts(&b.ct), &st) {
        match_tensor(&ps, l, &r3, &e, "product")?;
    }
    let m = ps.mul_t(&a.m, &b.m);
    if style == 0 {
        let bound = ps.mul_bound(l, sk.s1, 2, &ps.nu(&sk.s, &a.ct, &a.m), 2, &ps.nu(&sk.s, &b.ct, &b.m));
        ps.expect(&sk, &r3, &m, &bound, "product")?;
    } else if style < 3 {
        // the rounding of the scaled operand adds the equivalent of
        // (1+s1)/2 * Q/P to its noise
        let extra = BigUint::from(1 + sk.s1) * 2u32;
        let bound = ps.mul_bound(l, sk.s1, 2, &(ps.nu(&sk.s, &a.ct, &a.m) + &extra), 2, &(ps.nu(&sk.s, &b.ct, &b.m) + &extra));
        ps.expect(&sk, &r3, &m, &bound, "product with an auxiliary modulus")?;
    }
    options(g, &ps, &sk, l, &mut mu, None, &a.ct, &b.ct, &r3)?;
    // operands of the wrong shape
    let three = some_ct(g, &ps, &sk, l, Some(3), &emax)?.ct;
    ensure!(mu.multiply(&three, &b.ct).is_err() && mu.multiply(&a.ct, &three).is_err(), "a three-part operand was accepted");
    if ps.levels() > 1 {
        let o = (l + 1) % ps.levels();
        let rows: Vec<_> = (0..2).map(|_| ps.random_rows(g, o)).collect();
        let other = Ciphertext::new(rows.iter().map(|r| ps.poly(o, r, true)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")?;
        ensure!(mu.multiply(&other, &b.ct).is_err() && mu.multiply(&a.ct, &other).is_err(), "an operand of another level was accepted");
    }
    Ok(())
}
/// Relinearisation and modulus switching on top of the plain product `r3`.
#[allow(clippy::too_many_arguments)]
fn options(g: &mut Gen, ps: &Ps, sk: &Sk, l: usize, mu: &mut Multiplicator, rk: Option<usize>, a: &Ciphertext, b: &Ciphertext, r3: &Ciphertext) -> Res<()> {
    let pin = ps.phase(&sk.s, r3);
    let mut ks = BigUint::zero();
    let mut parts = 3;
    if let Some(kl) = rk {
        ks = ps.ks_bound(l, kl, sk.s1);
        parts = 2;
    } else if ps.levels() >= 2 && g.bool() {
        let kl = g.range(0, l.min(ps.levels() - 2));
        let key = RelinearizationKey::new_leveled(&sk.sk, l, kl, &mut g.rng()).ctx("relinearisation key")?;
        mu.enable_relinearization(&key).ctx("enable_relinearization")?;
        ks = ps.ks_bound(l, kl, sk.s1);
        parts = 2;
    }
    let other = (l + 1) % ps.levels();
    if other != l && other + 1 < ps.levels() {
        let key = RelinearizationKey::new_leveled(&sk.sk, other, other, &mut g.rng()).ctx("relinearisation key")?;
        ensure!(mu.enable_relinearization(&key).is_err(), "a relinearisation key of another level was accepted");
    }
    let r2 = mu.multiply(a, b).ctx("multiply")?;
    sane(ps, &r2, l, parts, "product")?;
    let p2 = ps.phase(&sk.s, &r2);
    let d = ps.dist(l, &p2, &pin);
    ensure!(d <= ks, "the strategy with relinearisation changes the phase of the product by {} bits, more than {} bits", d.bits(), ks.bits());
    let last = l + 1 == ps.levels();
    ensure_eq!(mu.enable_mod_switching().is_err(), last, "modulus switching refused at level {l} of {}", ps.levels());
    if !last {
        let r = mu.multiply(a, b).ctx("multiply and switch")?;
        sane(ps, &r, l + 1, parts, "switched product")?;
        switched(ps, sk, l, &p2, &r, "switched product")?;
    } else {
        let r = mu.multiply(a, b).ctx("multiply")?;
        ensure!(r == r2, "refusing modulus switching changed the strategy");
    }
    Ok(())
}
/// Checks that `r` (at l+1) has the phase `p` (at l) divided by the dropped modulus.
fn switched(ps: &Ps, sk: &Sk, l: usize, p: &[BigUint], r: &Ciphertext, what: &str) -> Res<()> {
    let q = BigUint::from(ps.q[ps.q.len() - 1 - l]);
    let pr = ps.phase(&sk.s, r);
    let up: Vec<BigUint> = pr.iter().map(|x| (x * &q) % ps.ql(l)).collect();
    let d = ps.dist(l, &up, p);
    let bound = ((&q + 1u32) >> 1u32) * ps.geo(sk.s1, r.len());
    ensure!(d <= bound, "{what}: the phase is off by {d}, more than half the dropped modulus times the key norm ({bound})");
    Ok(())
}
fn b07_default(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { depth: 1, reserve: 40, k: (2, 6), qmin: 24, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let f: Vec<usize> = (0..ps.levels()).filter(|l| (&ps.t << 20u32) < *ps.ql(*l)).collect();
    let cl = *g.pick(&f);
    let kl = g.range(0, cl.min(ps.levels() - 2));
    let rk = RelinearizationKey::new_leveled(&sk.sk, cl, kl, &mut g.rng()).ctx("relinearisation key")?;
    let mut mu = Multiplicator::default(&rk).ctx("default multiplicator")?;
    let a = some_ct(g, &ps, &sk, cl, Some(2), &BigUint::from(ps.eb()))?;
    let b = if g.chance(1, 4) { a.clone() } else { some_ct(g, &ps, &sk, cl, Some(2), &BigUint::from(ps.eb()))? };
    g.note(format!("{} ciphertext level={cl} key level={kl} {}/{}", ps.desc(), a.kind, b.kind));
    if nonzero(&a.m) && nonzero(&b.m) {
        g.hit();
    }
    let r3 = &a.ct * &b.ct;
    let m = ps.mul_t(&a.m, &b.m);
    let bound = ps.mul_bound(cl, sk.s1, 2, &ps.nu(&sk.s, &a.ct, &a.m), 2, &ps.nu(&sk.s, &b.ct, &b.m));
    ps.expect(&sk, &r3, &m, &bound, "product")?;
    let r2 = mu.multiply(&a.ct, &b.ct).ctx("multiply")?;
    let bound2 = &bound + ps.ks_bound(cl, kl, sk.s1);
    ps.expect(&sk, &r2, &m, &bound2, "default strategy")?;
    if ps.ok(cl, &bound2) {
        g.label("decrypts");
    }
    options(g, &ps, &sk, cl, &mut mu, Some(kl), &a.ct, &b.ct, &r3)
}

// ------------------------------------------------------------------ B08

fn b08_phase(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { k: (2, 6), reserve: 2, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let l = g.usize_below(ps.levels());
    let parts = *g.pick(&[2, 2, 3, 4]);
    let rows: Vec<_> = (0..parts).map(|_| ps.random_rows(g, l)).collect();
    let permit = g.bool();
    let ct = Ciphertext::new(rows.iter().map(|r| ps.poly(l, r, permit)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")?;
    let last = ps.levels() - 1;
    g.note(format!("{} level={l} parts={parts}", ps.desc()));
    ensure_eq!(ct.max_switchable_level(), last, "deepest level");
    // step by step
    let mut cur = ct.clone();
    let mut by_level = vec![ct.clone()];
    for lv in l..last {
        g.hit();
        let p = ps.phase(&sk.s, &cur);
        let before = ps.parts(&cur);
        cur.switch_down().ctx("switch_down")?;
        sane(&ps, &cur, lv + 1, parts, "switched ciphertext")?;
        switched(&ps, &sk, lv, &p, &cur, "switch_down")?;
        // every part is the exact rounded quotient
        let q = BigUint::from(ps.q[ps.q.len() - 1 - lv]);
        for (x, y) in before.iter().zip(ps.parts(&cur)) {
            for (j, v) in ps.lift(lv, x).iter().enumerate() {
                let e = num::modbig(&num::round_div(&num::bi(v), &q), ps.ql(lv + 1));
                let gq = ps.crts[lv + 1].lift(y.column(j).iter().copied());
                ensure!(gq == e, "coefficient {v} divided by {q} gives {gq}, expected {e}");
            }
        }
        by_level.push(cur.clone());
    }
    let before = cur.clone();
    ensure!(cur.switch_down().is_err() && cur == before, "switched below the last level");
    // at once
    for target in 0..=last + 2 {
        let mut c = ct.clone();
        let r = c.switch_to_level(target);
        if target < l || target > last {
            ensure!(r.is_err() && c == ct, "switching from level {l} to {target} was accepted or changed the ciphertext");
        } else {
            r.ctx("switch_to_level")?;
            ensure!(c == by_level[target - l], "switching to level {target} at once differs from switching step by step");
        }
    }
    let mut c = ct.clone();
    ensure!(c.switch_to_level(usize::MAX).is_err() && c == ct, "switching to level 2^64-1 accepted");
    Ok(())
}
fn b08_message(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { k: (2, 6), reserve: 20, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let l = *g.pick(&fit_levels(&ps));
    let a = some_ct(g, &ps, &sk, l, None, &(ps.nu_max(l) >> 1u32))?;
    let mut nu = ps.nu(&sk.s, &a.ct, &a.m);
    let target = g.range(l, ps.levels() - 1);
    g.note(format!("{} level={l} to {target} parts={} {}", ps.desc(), a.ct.len(), a.kind));
    let mut c = a.ct.clone();
    for lv in l..target {
        g.hit();
        let q = BigUint::from(ps.q[ps.q.len() - 1 - lv]);
        // floor(Q m/t) moves by less than one; rounding adds half per power of s
        nu = &nu / &q + (ps.geo(sk.s1, a.ct.len()) >> 1u32) + 4u32;
        c.switch_down().ctx("switch_down")?;
        ps.expect(&sk, &c, &a.m, &nu, "switched ciphertext")?;
    }
    if ps.ok(target, &nu) {
        g.label("decrypts");
    }
    let c2 = Ciphertext::from_bytes(&c.to_bytes(), &ps.par).ctx("from_bytes")?;
    ps.expect(&sk, &c2, &a.m, &nu, "switched ciphertext after serialisation")?;
    Ok(())
}

// ------------------------------------------------------------------ B09

pub fn ek_levels(g: &mut Gen, ps: &Ps) -> (usize, usize) {
    let cl = g.usize_below(ps.levels());
    let kl = if g.chance(1, 3) { cl } else { g.range(0, cl) };
    (cl, kl)
}
fn rotated(v: &[u64], i: usize) -> Vec<u64> {
    let h = v.len() / 2;
    let mut r = v[..h].to_vec();
    r.rotate_left(i % h);
    let mut s = v[h..].to_vec();
    s.rotate_left(i % h);
    r.extend(s);
    r
}
fn swapped(v: &[u64]) -> Vec<u64> {
    let h = v.len() / 2;
    let mut r = v[h..].to_vec();
    r.extend(&v[..h]);
    r
}
fn slot_ct(g: &mut Gen, ps: &Ps, sk: &Sk, l: usize, emax: &BigUint) -> Res<(Vec<u64>, Vec<BigUint>, Ciphertext)> {
    let v = bulk(g, ps.n, ps.tu.unwrap() - 1);
    let pt = Plaintext::try_encode(&v, Encoding::simd_at_level(l), &ps.par).ctx("encode")?;
    let fresh: Ciphertext = sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
    // the coefficients of the slot encoding, by the scheme definition
    let m = slot_poly(ps, &v)?;
    let ct = match g.below(3) {
        0 => fresh,
        1 => PublicKey::new(&sk.sk, &mut g.rng()).try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?,
        _ => {
            let e = ps.err(g, emax);
            ps.synth(g, sk, l, 2, &m, &e)?
        }
    };
    Ok((v, m, ct))
}
/// Coefficients of the plaintext polynomial holding `v` in its slots, obtained at the
/// top level through a noiseless ciphertext.
fn slot_poly(ps: &Ps, v: &[u64]) -> Res<Vec<BigUint>> {
    let pt = Plaintext::try_encode(v, Encoding::simd_at_level(0), &ps.par).ctx("encode")?;
    let z = Array2::zeros((ps.q.len(), ps.n));
    let zero = Ciphertext::new(vec![ps.poly(0, &z, false)?, ps.poly(0, &z, false)?], &ps.par).ctx("ciphertext")?;
    let sk = sk_from(&ps.par, &vec![0; ps.n])?;
    let d = sk.try_decrypt(&(&zero + &pt)).ctx("decrypt")?;
    ps.coeffs(&d, 0)
}
fn slots_back(ps: &Ps, sk: &Sk, ct: &Ciphertext) -> Res<Vec<u64>> {
    let l = ps.level(ct);
    let d = sk.sk.try_decrypt(ct).ctx("decrypt")?;
    Vec::<u64>::try_decode(&d, Encoding::simd_at_level(l)).ctx("decode slots")
}
/// One rotation: phase against the automorphism, slots against the permutation.
#[allow(clippy::too_many_arguments)]
fn check_rotation(ps: &Ps, sk: &Sk, l: usize, ks: &BigUint, ct: &Ciphertext, nu: &BigUint, out: &Ciphertext, k: usize, want: &[u64], what: &str) -> Res<()> {
    sane(ps, out, l, 2, what)?;
    let e = num::automorphism(&ps.phase(&sk.s, ct), k, ps.ql(l));
    let d = ps.dist(l, &ps.phase(&sk.s, out), &e);
    ensure!(d <= *ks, "{what}: the phase is {} bits away from its image under x -> x^{k}, more than the worst case of {} bits", d.bits(), ks.bits());
    if ps.ok(l, &(nu + ks + 1u32)) {
        ensure_eq!(slots_back(ps, sk, out)?, want, "{what}: slots");
    }
    Ok(())
}
fn b09_rot(g: &mut Gen) -> Res<()> {
    let ps = ks_params(g, true, 14)?;
    let sk = Sk::gen_(g, &ps)?;
    let (cl, kl) = ek_levels(g, &ps);
    let half = ps.n / 2;
    let mut b = if cl == 0 && g.bool() { EvaluationKeyBuilder::new(&sk.sk) } else { EvaluationKeyBuilder::new_leveled(&sk.sk, cl, kl) }.ctx("builder")?;
    let mut steps = vec![];
    for _ in 0..g.range(1, 3) {
        let i = g.range(1, half - 1);
        b.enable_column_rotation(i).ctx("enable_column_rotation")?;
        steps.push(i);
    }
    let row = g.bool();
    if row {
        b.enable_row_rotation().ctx("enable_row_rotation")?;
    }
    let ek = b.build(&mut g.rng()).ctx("build")?;
    let ek = if g.chance(1, 4) { EvaluationKey::from_bytes(&ek.to_bytes(), &ps.par).ctx("evaluation key from bytes")? } else { ek };
    // EvaluationKeyBuilder::new works at level 0 for both
    let ks = ps.ks_bound(cl, kl, sk.s1);
    let (v, m, ct) = slot_ct(g, &ps, &sk, cl, &(ps.nu_max(cl) >> 2u32))?;
    g.note(format!("{} ciphertext level={cl} key level={kl} steps={steps:?} rows={row}", ps.desc()));
    if v.iter().any(|x| *x != v[0]) {
        g.hit();
    }
    let nu = ps.nu(&sk.s, &ct, &m);
    if ps.ok(cl, &(&nu + &ks + 1u32)) {
        g.label("decrypts");
    }
    let before = ct.clone();
    for i in 0..half + 2 {
        ensure_eq!(ek.supports_column_rotation_by(i), steps.contains(&i), "support of rotation by {i}");
        let r = ek.rotates_columns_by(&ct, i);
        if !steps.contains(&i) {
            ensure!(r.is_err(), "rotation by {i} without a key");
            continue;
        }
        let k = num::powmod(3, i as u64, 2 * ps.n as u64) as usize;
        check_rotation(&ps, &sk, cl, &ks, &ct, &nu, &r.ctx("rotates_columns_by")?, k, &rotated(&v, i), "column rotation")?;
    }
    ensure_eq!(ek.supports_row_rotation(), row, "support of row rotation");
    let r = ek.rotates_rows(&ct);
    if row {
        check_rotation(&ps, &sk, cl, &ks, &ct, &nu, &r.ctx("rotates_rows")?, 2 * ps.n - 1, &swapped(&v), "row rotation")?;
    } else {
        ensure!(r.is_err(), "row rotation without a key");
    }
    ensure!(ct == before, "the operand changed");
    wrong_operands(g, &ps, cl, |c| {
        [ek.rotates_columns_by(c, steps[0]).is_err(), ek.rotates_rows(c).is_err(), ek.computes_inner_sum(c).is_err(), ek.expands(c, 1).is_err()].iter().all(|x| *x)
    })
}
/// Ciphertexts of the wrong level or number of parts are refused.
fn wrong_operands(g: &mut Gen, ps: &Ps, l: usize, refused: impl Fn(&Ciphertext) -> bool) -> Res<()> {
    let mk = |g: &mut Gen, l: usize, parts: usize| -> Res<Ciphertext> {
        let rows: Vec<_> = (0..parts).map(|_| ps.random_rows(g, l)).collect();
        Ciphertext::new(rows.iter().map(|r| ps.poly(l, r, true)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")
    };
    ensure!(refused(&mk(g, l, 3)?), "a three-part ciphertext was accepted");
    ensure!(refused(&Ciphertext::zero(&ps.par)), "an empty ciphertext was accepted");
    if ps.levels() > 1 {
        ensure!(refused(&mk(g, (l + 1) % ps.levels(), 2)?), "a ciphertext of another level was accepted");
    }
    Ok(())
}
fn b09_inner(g: &mut Gen) -> Res<()> {
    let ps = ks_params(g, true, 10)?;
    let sk = Sk::gen_(g, &ps)?;
    let (cl, kl) = ek_levels(g, &ps);
    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, cl, kl).ctx("builder")?;
    b.enable_inner_sum().ctx("enable_inner_sum")?;
    let ek = b.build(&mut g.rng()).ctx("build")?;
    ensure!(ek.supports_inner_sum() && ek.supports_row_rotation(), "support of the inner sum");
    let (v, m, ct) = slot_ct(g, &ps, &sk, cl, &(ps.nu_max(cl) >> 10u32))?;
    g.note(format!("{} ciphertext level={cl} key level={kl}", ps.desc()));
    if v.iter().any(|x| *x != v[0]) {
        g.hit();
    }
    let before = ct.clone();
    let out = ek.computes_inner_sum(&ct).ctx("inner sum")?;
    ensure!(ct == before, "the operand changed");
    sane(&ps, &out, cl, 2, "inner sum")?;
    // the sum over all automorphisms
    let p = ps.phase(&sk.s, &ct);
    let mut e = vec![BigUint::zero(); ps.n];
    for k in (1..2 * ps.n).step_by(2) {
        for (x, y) in e.iter_mut().zip(num::automorphism(&p, k, ps.ql(cl))) {
            *x = (&*x + y) % ps.ql(cl);
        }
    }
    let ks = ps.ks_bound(cl, kl, sk.s1) * (ps.n as u32);
    let d = ps.dist(cl, &ps.phase(&sk.s, &out), &e);
    ensure!(d <= ks, "inner sum: the phase is {} bits away from the sum over all automorphisms, more than {} bits", d.bits(), ks.bits());
    let nu = ps.nu(&sk.s, &ct, &m) * (ps.n as u32) + &ks + 1u32;
    if ps.ok(cl, &nu) {
        g.label("decrypts");
        let t = ps.tu.unwrap();
        let s = v.iter().fold(0u64, |a, b| num::addmod(a, *b % t, t));
        ensure_eq!(slots_back(&ps, &sk, &out)?, vec![s; ps.n], "inner sum: slots");
    }
    // the key also rotates by powers of two
    let i = 1usize << g.usize_below((ps.n / 2).ilog2() as usize);
    let ks1 = ps.ks_bound(cl, kl, sk.s1);
    let k = num::powmod(3, i as u64, 2 * ps.n as u64) as usize;
    let nu = ps.nu(&sk.s, &ct, &m);
    check_rotation(&ps, &sk, cl, &ks1, &ct, &nu, &ek.rotates_columns_by(&ct, i).ctx("rotate")?, k, &rotated(&v, i), "column rotation")?;
    check_rotation(&ps, &sk, cl, &ks1, &ct, &nu, &ek.rotates_rows(&ct).ctx("rotate")?, 2 * ps.n - 1, &swapped(&v), "row rotation")
}
/// Parameters with slots and room for key switching at practical dimensions.
fn large_params(g: &mut Gen) -> Res<Ps> {
    loop {
        let n = 1usize << g.weighted(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 4, 6, 3, 1]);
        let k = g.range(2, 3);
        let q: Vec<u64> = chain(g, n, (k, k), 50);
        let Some(t) = plain_modulus(g, n, &q, 24, true, false) else { continue };
        let var = g.range(1, 16);
        let mut b = BfvParametersBuilder::new();
        b.set_degree(n).set_moduli(&q).set_plaintext_modulus_biguint(t).set_variance(var);
        let par = b.build_arc().ctx("build parameters")?;
        return Ok(Ps::from_par(par, var));
    }
}
fn b09_large(g: &mut Gen) -> Res<()> {
    let ps = large_params(g)?;
    let sk = Sk::wrap(SecretKey::random(&ps.par, &mut g.rng()));
    let l = g.usize_below(2);
    let half = ps.n / 2;
    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, l, g.range(0, l)).ctx("builder")?;
    let mut steps = vec![];
    for _ in 0..g.range(1, 2) {
        let i = match g.below(3) {
            0 => half - 1 - g.usize_below(4),
            1 => g.range(half / 2, half - 1),
            _ => g.range(1, half - 1),
        };
        b.enable_column_rotation(i).ctx("enable_column_rotation")?;
        steps.push(i);
    }
    let row = g.bool();
    if row {
        b.enable_row_rotation().ctx("enable_row_rotation")?;
    }
    let sum = g.bool();
    if sum {
        b.enable_inner_sum().ctx("enable_inner_sum")?;
    }
    let ek = b.build(&mut g.rng()).ctx("build")?;
    let v = bulk(g, ps.n, ps.tu.unwrap() - 1);
    let pt = Plaintext::try_encode(&v, Encoding::simd_at_level(l), &ps.par).ctx("encode")?;
    let ct: Ciphertext = sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
    g.note(format!("{} level={l} steps={steps:?} rows={row} sum={sum}", ps.desc()));
    if v.iter().any(|x| *x != v[0]) {
        g.hit();
    }
    // the worst case over both key levels
    let ks = ps.ks_bound(l, 0, sk.s1).max(ps.ks_bound(l, l, sk.s1));
    if !ps.ok(l, &(ps.nu_sk() + &ks + 1u32)) {
        return Ok(());
    }
    g.label("decrypts");
    for i in steps {
        let r = ek.rotates_columns_by(&ct, i).ctx("rotates_columns_by")?;
        ensure!(slots_back(&ps, &sk, &r)? == rotated(&v, i), "column rotation by {i}: wrong slots");
    }
    if row || sum {
        let r = ek.rotates_rows(&ct).ctx("rotates_rows")?;
        ensure!(slots_back(&ps, &sk, &r)? == swapped(&v), "row rotation: wrong slots");
    }
    if sum && ps.ok(l, &((ps.nu_sk() + &ks) * (ps.n as u32) + 1u32)) {
        g.label("sum decrypts");
        let t = ps.tu.unwrap();
        let s = v.iter().fold(0u64, |a, b| num::addmod(a, *b % t, t));
        let r = ek.computes_inner_sum(&ct).ctx("inner sum")?;
        ensure!(slots_back(&ps, &sk, &r)? == vec![s; ps.n], "inner sum: wrong slots");
    }
    Ok(())
}
/// A key supports exactly what its builder enabled (and what that implies).
fn b09_support(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { k: (1, 3), reserve: 8, top: 10, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let (cl, kl) = ek_levels(g, &ps);
    let logn = ps.n.ilog2() as usize;
    g.note(format!("{} ciphertext level={cl} key level={kl}", ps.desc()));
    g.hit();
    ensure!(EvaluationKeyBuilder::new_leveled(&sk.sk, ps.levels() + g.usize_below(3), kl).is_err(), "builder beyond the last level");
    if cl + 1 < ps.levels() {
        ensure!(EvaluationKeyBuilder::new_leveled(&sk.sk, cl, cl + 1).is_err(), "builder with a key below the ciphertext");
    }
    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, cl, kl).ctx("builder")?;
    let mut elements = std::collections::HashSet::new();
    let two_n = 2 * ps.n as u64;
    let (row, inner) = (g.chance(1, 3), g.chance(1, 3));
    let depth = g.usize_below(logn + 1);
    let cols: Vec<usize> = (0..g.usize_below(3)).map(|_| g.range(1, ps.n / 2 - 1)).collect();
    if row {
        b.enable_row_rotation().ctx("row")?;
        elements.insert(two_n - 1);
    }
    if inner {
        b.enable_inner_sum().ctx("inner")?;
        elements.insert(two_n - 1);
        let mut i = 1;
        while i < ps.n / 2 {
            elements.insert(num::powmod(3, i as u64, two_n));
            i *= 2;
        }
    }
    if depth > 0 || g.bool() {
        b.enable_expansion(depth).ctx("expansion")?;
        elements.extend((0..depth).map(|l| (ps.n as u64 >> l) + 1));
    }
    for c in &cols {
        b.enable_column_rotation(*c).ctx("column")?;
        elements.insert(num::powmod(3, *c as u64, two_n));
    }
    for bad in [0, ps.n / 2, ps.n / 2 + 1, ps.n, usize::MAX] {
        ensure!(b.enable_column_rotation(bad).is_err(), "column rotation by {bad} accepted");
    }
    for bad in [logn + 1, logn + 2, 63, 64, usize::MAX] {
        ensure!(b.enable_expansion(bad).is_err(), "expansion to depth {bad} accepted");
    }
    let ek = b.build(&mut g.rng()).ctx("build")?;
    let back = EvaluationKey::from_bytes(&ek.to_bytes(), &ps.par).ctx("from_bytes")?;
    ensure!(back == ek, "evaluation key changes when serialised");
    let rows: Vec<_> = (0..2).map(|_| ps.random_rows(g, cl)).collect();
    let ct = Ciphertext::new(rows.iter().map(|r| ps.poly(cl, r, true)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")?;
    for (ek, w) in [(&ek, "built"), (&back, "read back")] {
        let has = |e: u64| elements.contains(&e);
        let inner_ok = has(two_n - 1) && (0..logn - 1).all(|i| has(num::powmod(3, 1 << i, two_n)));
        ensure_eq!(ek.supports_row_rotation(), has(two_n - 1), "{w}: row rotation");
        ensure_eq!(ek.rotates_rows(&ct).is_ok(), has(two_n - 1), "{w}: rotating rows");
        ensure_eq!(ek.supports_inner_sum(), inner_ok, "{w}: inner sum");
        ensure_eq!(ek.computes_inner_sum(&ct).is_ok(), inner_ok, "{w}: computing the inner sum");
        for i in 0..ps.n / 2 + 2 {
            let e = i >= 1 && i < ps.n / 2 && has(num::powmod(3, i as u64, two_n));
            ensure_eq!(ek.supports_column_rotation_by(i), e, "{w}: column rotation by {i}");
            ensure_eq!(ek.rotates_columns_by(&ct, i).is_ok(), e, "{w}: rotating columns by {i}");
        }
        ensure!(!ek.supports_column_rotation_by(usize::MAX) && ek.rotates_columns_by(&ct, usize::MAX).is_err(), "{w}: rotation by 2^64-1");
        for d in (0..=logn + 1).chain([62, 63, 64, 65, 1 << 20]) {
            let e = d <= logn && (0..d).all(|l| has((ps.n as u64 >> l) + 1));
            ensure_eq!(no_panic(|| ek.supports_expansion(d))?, e, "{w}: expansion to depth {d}");
            if d <= logn + 1 {
                let r = ek.expands(&ct, 1 << d);
                ensure_eq!(r.is_ok(), e, "{w}: expanding to {} outputs", 1 << d);
            }
        }
        ensure!(ek.expands(&ct, 0).is_err() && ek.expands(&ct, usize::MAX).is_err(), "{w}: impossible expansion size");
    }
    Ok(())
}

// ------------------------------------------------------------------ B10

fn b10(g: &mut Gen) -> Res<()> {
    let ps = ks_params(g, false, 10)?;
    let sk = Sk::gen_(g, &ps)?;
    let (cl, kl) = ek_levels(g, &ps);
    let logn = ps.n.ilog2() as usize;
    let depth = g.range(0, logn);
    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, cl, kl).ctx("builder")?;
    b.enable_expansion(depth).ctx("enable_expansion")?;
    if g.chance(1, 4) {
        b.enable_inner_sum().ctx("enable_inner_sum")?;
    }
    let ek = b.build(&mut g.rng()).ctx("build")?;
    let size = g.range(1, 1 << depth);
    let lv = (size as u64).next_power_of_two().ilog2();
    // a message in the first coefficients only, or anywhere
    let mut m = ps.msg(g);
    if g.bool() {
        for x in m.iter_mut().skip(1 << lv) {
            *x = BigUint::zero();
        }
    }
    let emax = ps.nu_max(cl) >> (2 * lv + 2);
    let e = ps.err(g, &emax);
    let ct = if g.bool() { fresh(g, &ps, &sk, cl, m.clone())?.ct } else { ps.synth(g, &sk, cl, 2, &m, &e)? };
    g.note(format!("{} ciphertext level={cl} key level={kl} depth={depth} size={size}", ps.desc()));
    if size > 1 {
        g.hit();
    }
    let before = ct.clone();
    let outs = ek.expands(&ct, size).ctx("expands")?;
    ensure!(ct == before, "the operand changed");
    ensure_eq!(outs.len(), size, "number of outputs");
    let q = ps.ql(cl);
    let ks = (BigUint::one() << lv) * ps.ks_bound(cl, kl, sk.s1);
    let p = ps.phase(&sk.s, &ct);
    let nu = (ps.nu(&sk.s, &ct, &m) << lv) + &ks + 1u32;
    for (i, o) in outs.iter().enumerate() {
        sane(&ps, o, cl, 2, "expanded ciphertext")?;
        // output i keeps the coefficients congruent to i, moved down by i, times 2^lv
        let pick = |v: &[BigUint], q: &BigUint| -> Vec<BigUint> {
            let mut r = vec![BigUint::zero(); ps.n];
            for j in (i..ps.n).step_by(1 << lv) {
                r[j - i] = (&v[j] << lv) % q;
            }
            r
        };
        let d = ps.dist(cl, &ps.phase(&sk.s, o), &pick(&p, q));
        ensure!(d <= ks, "output {i} of {size}: the phase is {} bits away from the extracted coefficients, more than {} bits", d.bits(), ks.bits());
        if ps.ok(cl, &nu) {
            g.label("decrypts");
            ps.expect(&sk, o, &pick(&m, &ps.t), &nu, "expanded ciphertext")?;
        }
    }
    for bad in [0, (1 << depth) + 1, ps.n + 1, 2 * ps.n] {
        let ok = bad != 0 && bad <= ps.n && ek.supports_expansion((bad as u64).next_power_of_two().ilog2() as usize);
        ensure_eq!(ek.expands(&ct, bad).is_ok(), ok, "expansion to {bad} outputs with depth {depth}");
    }
    wrong_operands(g, &ps, cl, |c| ek.expands(c, size).is_err())
}

/// Expansion at practical dimensions, mostly to more outputs than the small cases have.
fn b10_large(g: &mut Gen) -> Res<()> {
    let ps = large_params(g)?;
    let sk = Sk::wrap(SecretKey::random(&ps.par, &mut g.rng()));
    let l = g.usize_below(2);
    let logn = ps.n.ilog2() as usize;
    let depth = g.range(1, logn.min(10));
    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, l, g.range(0, l)).ctx("builder")?;
    b.enable_expansion(depth).ctx("enable_expansion")?;
    let ek = b.build(&mut g.rng()).ctx("build")?;
    let size = g.range(1, (1 << depth).min((1 << 20) / ps.n));
    let lv = size.next_power_of_two().ilog2();
    let t = ps.tu.unwrap();
    let v = bulk(g, ps.n, t - 1);
    let pt = Plaintext::try_encode(&v, Encoding::poly_at_level(l), &ps.par).ctx("encode")?;
    let ct: Ciphertext = sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
    g.note(format!("{} level={l} depth={depth} size={size}", ps.desc()));
    if size > 1 {
        g.hit();
    }
    let outs = ek.expands(&ct, size).ctx("expands")?;
    ensure_eq!(outs.len(), size, "number of outputs");
    let ks = ps.ks_bound(l, 0, sk.s1).max(ps.ks_bound(l, l, sk.s1));
    if !ps.ok(l, &(((ps.nu_sk() + ks) << lv) + 1u32)) {
        return Ok(());
    }
    g.label("decrypts");
    let mut which: Vec<usize> = (0..4).map(|_| g.usize_below(size)).collect();
    which.extend([0, size - 1]);
    for i in which {
        let d = sk.sk.try_decrypt(&outs[i]).ctx("decrypt")?;
        let got = Vec::<u64>::try_decode(&d, Encoding::poly_at_level(l)).ctx("decode")?;
        let mut want = vec![0u64; ps.n];
        for j in (i..ps.n).step_by(1 << lv) {
            want[j - i] = num::mulmod(v[j] % t, (1u64 << lv) % t, t);
        }
        ensure!(got == want, "output {i} of {size}: wrong coefficients");
    }
    Ok(())
}

// ------------------------------------------------------------------ B11

fn b11(g: &mut Gen) -> Res<()> {
    let ps = ks_params(g, false, 14)?;
    let sk = Sk::gen_(g, &ps)?;
    let l = *g.pick(&fit_levels(&ps));
    let m = match g.below(4) {
        0 => ps.msg_small(g, 1),
        1 => {
            let mut v = vec![BigUint::zero(); ps.n];
            let i = g.usize_below(ps.n);
            v[i] = if g.bool() { BigUint::one() } else { &ps.t - 1u32 };
            v
        }
        _ => ps.msg(g),
    };
    let pt = ps.pt(&m, l)?;
    let rg: RGSWCiphertext = sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
    let rg = if g.chance(1, 4) { RGSWCiphertext::from_bytes(&rg.to_bytes(), &ps.par).ctx("gadget ciphertext from bytes")? } else { rg };
    let a = some_ct(g, &ps, &sk, l, Some(2), &(ps.nu_max(l) >> 1u32))?;
    g.note(format!("{} level={l} {}", ps.desc(), a.kind));
    if nonzero(&m) && nonzero(&a.m) {
        g.hit();
    }
    let before = a.ct.clone();
    let out = if g.bool() { &a.ct * &rg } else { &rg * &a.ct };
    ensure!(a.ct == before, "the operand changed");
    sane(&ps, &out, l, 2, "external product")?;
    let ks = ps.ks_bound(l, l, sk.s1) * 2u32;
    let p = ps.phase(&sk.s, &a.ct);
    let e = ps.lift(l, &ps.rmul(l, &ps.rows_u(l, &p), &ps.rows_u(l, &m)));
    let d = ps.dist(l, &ps.phase(&sk.s, &out), &e);
    ensure!(d <= ks, "external product: the phase is {} bits away from the product, more than {} bits", d.bits(), ks.bits());
    let nu = ps.nu(&sk.s, &a.ct, &a.m) * ps.l1(&m) + &ks + 1u32;
    if ps.ok(l, &nu) {
        g.label("decrypts");
        ps.expect(&sk, &out, &ps.mul_t(&a.m, &m), &nu, "external product")?;
    }
    let (x, y) = (&a.ct * &rg, &rg * &a.ct);
    ensure!(x == y, "the operand orders disagree");
    for bad in [Ciphertext::zero(&ps.par), some_ct(g, &ps, &sk, l, Some(3), &BigUint::zero())?.ct] {
        ensure!(no_panic(|| &bad * &rg).is_err() && no_panic(|| &rg * &bad).is_err(), "a ciphertext of {} parts was accepted", bad.len());
    }
    if ps.levels() > 1 {
        let o = (l + 1) % ps.levels();
        let rows: Vec<_> = (0..2).map(|_| ps.random_rows(g, o)).collect();
        let bad = Ciphertext::new(rows.iter().map(|r| ps.poly(o, r, true)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")?;
        ensure!(no_panic(|| &bad * &rg).is_err() && no_panic(|| &rg * &bad).is_err(), "a ciphertext of another level was accepted");
    }
    Ok(())
}

// ------------------------------------------------------------------ B12

pub fn rand_ct(g: &mut Gen, ps: &Ps, l: usize, parts: usize) -> Res<Ciphertext> {
    let rows: Vec<_> = (0..parts).map(|_| ps.random_rows(g, l)).collect();
    let permit = g.bool();
    Ciphertext::new(rows.iter().map(|r| ps.poly(l, r, permit)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")
}
pub fn rand_pt(g: &mut Gen, ps: &Ps, l: usize) -> Res<Plaintext> {
    let m = ps.msg(g);
    if let (Some(_), true) = (ps.tu, g.chance(1, 3)) {
        let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap()).collect();
        return fhe_traits::FheEncoderVariableTime::try_encode_vt(v.as_slice(), Encoding::poly_at_level(l), &ps.par, crate::p_poly::vt()).ctx("encode");
    }
    ps.pt(&m, l)
}
/// The sum of the products, in exact arithmetic, as residue rows per part.
fn dot_model(ps: &Ps, l: usize, cts: &[Ciphertext], ms: &[Array2<u64>]) -> Vec<Array2<u64>> {
    let parts = cts[0].len();
    let mut acc = vec![Array2::zeros((ps.mods(l).len(), ps.n)); parts];
    for (c, m) in cts.iter().zip(ms) {
        for (a, p) in acc.iter_mut().zip(ps.parts(c)) {
            *a = ps.radd(l, a, &ps.rmul(l, &p, m));
        }
    }
    acc
}
fn b12(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { reserve: 3, ..Default::default() })?;
    let l = g.usize_below(ps.levels());
    let parts = *g.pick(&[2, 2, 3, 4]);
    let count = if g.chance(1, 4) { g.range(1, 40) } else { g.range(1, 8) };
    let mut cts = vec![];
    let mut pts = vec![];
    let mut ms = vec![];
    for _ in 0..count {
        cts.push(rand_ct(g, &ps, l, parts)?);
        let m = ps.msg(g);
        pts.push(ps.pt(&m, l)?);
        ms.push(ps.rows_u(l, &m));
    }
    if g.chance(1, 4) && count > 1 {
        // the same ciphertext several times
        let c = cts[0].clone();
        cts[count - 1] = c;
    }
    g.note(format!("{} level={l} parts={parts} terms={count}", ps.desc()));
    if count > 1 {
        g.hit();
    }
    let (c0, p0) = (cts.clone(), pts.clone());
    let r = dot_product_scalar(cts.iter(), pts.iter()).ctx("dot product")?;
    ensure!(cts == c0 && pts == p0, "an input changed");
    sane(&ps, &r, l, parts, "dot product")?;
    ensure!(ps.parts(&r) == dot_model(&ps, l, &cts, &ms), "dot product differs from the exact sum of products");
    let mut s = &cts[0] * &pts[0];
    for i in 1..count {
        s += &(&cts[i] * &pts[i]);
    }
    ensure!(s == r, "dot product differs from adding up the products");
    Ok(())
}
fn b12_long(g: &mut Gen) -> Res<()> {
    // beyond 2^(2*(64-62)) = 16 terms per 62-bit modulus the accumulator would overflow
    let ps = params(g, &Spec { log_n: (3, 4), k: (1, 2), qmin: 61, reserve: 3, ..Default::default() })?;
    let l = g.usize_below(ps.levels());
    let base = *g.pick(&[15, 16, 17, 18, 31, 63, 64, 65, 66, 100, 255, 256, 257, 300]);
    let count = base;
    let parts = *g.pick(&[2, 2, 3]);
    // all-maximal coefficients make the accumulator as large as it can be
    let maximal = g.bool();
    let mut cts: Vec<Ciphertext> = vec![];
    for i in 0..count {
        if maximal && i > 0 {
            cts.push(cts[0].clone());
        } else if maximal {
            let polys = (0..parts)
                .map(|_| {
                    // NTT rows of q-1: a polynomial built directly in that representation
                    let ctx = ps.par.context_at_level(l).unwrap();
                    let a = Array2::from_shape_fn((ps.mods(l).len(), ps.n), |(r, _)| ps.q[r] - 1);
                    let mut p = <fhe_math::rq::Poly<fhe_math::rq::Ntt> as fhe_math::rq::traits::TryConvertFrom<Array2<u64>>>::try_convert_from(a, ctx, false).ctx("poly")?;
                    p.allow_variable_time_computations(crate::p_poly::vt());
                    Ok(p)
                })
                .collect::<Res<Vec<_>>>()?;
            cts.push(Ciphertext::new(polys, &ps.par).ctx("ciphertext")?);
        } else {
            cts.push(rand_ct(g, &ps, l, parts)?);
        }
    }
    // plaintext -1 has q-1 ... as its NTT rows only when t-1 is reduced; use the largest constant
    let (pts, ms): (Vec<Plaintext>, Vec<Array2<u64>>) = (0..count)
        .map(|i| {
            let m = if i % 3 == 0 { vec![&ps.t - 1u32; ps.n] } else { ps.msg(g) };
            Ok((ps.pt(&m, l)?, ps.rows_u(l, &m)))
        })
        .collect::<Res<Vec<_>>>()?
        .into_iter()
        .unzip();
    g.note(format!("{} level={l} parts={parts} terms={count} maximal={maximal}", ps.desc()));
    g.hit();
    let r = dot_product_scalar(cts.iter(), pts.iter()).ctx("dot product")?;
    sane(&ps, &r, l, parts, "dot product")?;
    ensure!(ps.parts(&r) == dot_model(&ps, l, &cts, &ms), "dot product of {count} terms differs from the exact sum of products");
    Ok(())
}
fn b12_reject(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { reserve: 3, k: (2, 4), ..Default::default() })?;
    let l = g.usize_below(ps.levels());
    let o = (l + 1) % ps.levels();
    let count = g.range(1, 5);
    let parts = *g.pick(&[2, 3]);
    let cts: Vec<Ciphertext> = (0..count).map(|_| rand_ct(g, &ps, l, parts)).collect::<Res<_>>()?;
    let pts: Vec<Plaintext> = (0..count).map(|_| rand_pt(g, &ps, l)).collect::<Res<_>>()?;
    g.hit();
    g.note(format!("{} level={l} terms={count}", ps.desc()));
    let dot = |c: &[Ciphertext], p: &[Plaintext], w: &str| -> Res<()> {
        match no_panic(|| dot_product_scalar(c.iter(), p.iter())) {
            Ok(Err(_)) => Ok(()),
            Ok(Ok(_)) => Err(format!("{w} accepted")),
            Err(e) => Err(format!("{w}: {e}")),
        }
    };
    ensure!(dot_product_scalar(cts.iter(), pts.iter()).is_ok(), "a well-formed dot product was refused");
    dot(&[], &[], "an empty dot product")?;
    dot(&cts, &[], "a dot product without plaintexts")?;
    dot(&[], &pts, "a dot product without ciphertexts")?;
    let mut c2 = cts.clone();
    c2.push(rand_ct(g, &ps, l, parts)?);
    dot(&c2, &pts, "one ciphertext too many")?;
    let mut p2 = pts.clone();
    p2.push(rand_pt(g, &ps, l)?);
    dot(&cts, &p2, "one plaintext too many")?;
    let at = g.usize_below(count);
    let mut p2 = pts.clone();
    p2[at] = rand_pt(g, &ps, o)?;
    dot(&cts, &p2, "a plaintext of another level")?;
    let mut c2 = cts.clone();
    c2[at] = rand_ct(g, &ps, o, parts)?;
    dot(&c2, &pts, "a ciphertext of another level")?;
    let mut c2 = cts.clone();
    c2[at] = Ciphertext::zero(&ps.par);
    dot(&c2, &pts, "an empty ciphertext")?;
    if count > 1 {
        let mut c2 = cts.clone();
        c2[at] = rand_ct(g, &ps, l, parts + 1)?;
        dot(&c2, &pts, "a ciphertext with one more part")?;
    }
    // equal parameters that are another object, and different parameters
    let other = params(g, &Spec { reserve: 3, k: (2, 4), log_n: (ps.n.ilog2() as usize, ps.n.ilog2() as usize), ..Default::default() })?;
    if !std::sync::Arc::ptr_eq(&other.par, &ps.par) {
        let ol = g.usize_below(other.levels());
        let mut c2 = cts.clone();
        c2[at] = rand_ct(g, &other, ol, parts)?;
        if count > 1 {
            dot(&c2, &pts, "a ciphertext of other parameters")?;
        }
        let mut p2 = pts.clone();
        p2[at] = rand_pt(g, &other, ol)?;
        dot(&cts, &p2, "a plaintext of other parameters")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ B13

struct Live {
    ct: Ciphertext,
    m: Vec<BigUint>,
    /// worst-case noise by the model's own propagation
    nu: BigUint,
    l: usize,
}

fn b13(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { depth: 2, reserve: 60, k: (3, 7), qmin: 40, simd: true, big: false, log_n: (3, 4), top: 12 })?;
    let sk = Sk::gen_(g, &ps)?;
    let pk = PublicKey::new(&sk.sk, &mut g.rng());
    let mut rks: std::collections::HashMap<usize, (RelinearizationKey, usize)> = Default::default();
    let mut eks: std::collections::HashMap<usize, (EvaluationKey, usize)> = Default::default();
    g.note(ps.desc());
    let mut pool: Vec<Live> = vec![];
    let mut applied = 0;
    let steps = g.range(3, 14);
    let half = ps.n / 2;
    let t = ps.tu.unwrap();
    for step in 0..steps {
        let op = if pool.is_empty() { 0 } else { g.below(14) };
        let i = g.usize_below(pool.len().max(1));
        let mut into = if pool.len() >= 5 { Some(g.usize_below(pool.len())) } else { None };
        let snapshot: Vec<Ciphertext> = pool.iter().map(|x| x.ct.clone()).collect();
        // result, or None when the model says it would not fit
        let mut inplace = false;
        let r: Option<Live> = match op {
            0 => {
                let l = g.usize_below(2.min(ps.levels()));
                let m = ps.msg(g);
                let public = g.bool();
                let nu = if public { ps.nu_pk(l, sk.s1) } else { ps.nu_sk() };
                if !ps.ok(l, &nu) {
                    None
                } else {
                    let pt = ps.pt(&m, l)?;
                    let ct = if public { pk.try_encrypt(&pt, &mut g.rng()) } else { sk.sk.try_encrypt(&pt, &mut g.rng()) }.ctx("encrypt")?;
                    Some(Live { ct, m, nu, l })
                }
            }
            1 | 2 => {
                let a = &pool[i];
                let js: Vec<usize> = (0..pool.len()).filter(|j| pool[*j].l == a.l && pool[*j].ct.len() == a.ct.len()).collect();
                let b = &pool[*g.pick(&js)];
                let (m, ct) = if op == 1 { (ps.add_t(&a.m, &b.m), &a.ct + &b.ct) } else { (ps.sub_t(&a.m, &b.m), &a.ct - &b.ct) };
                Some(Live { m, ct, nu: &a.nu + &b.nu + 1u32, l: a.l })
            }
            3 | 4 | 5 => {
                let a = &pool[i];
                let m = if g.bool() { ps.msg(g) } else { ps.msg_small(g, 3) };
                let pt = ps.pt(&m, a.l)?;
                Some(match op {
                    3 => Live { ct: &a.ct + &pt, m: ps.add_t(&a.m, &m), nu: &a.nu + 1u32, l: a.l },
                    4 => Live { ct: &pt - &a.ct, m: ps.sub_t(&m, &a.m), nu: &a.nu + 2u32, l: a.l },
                    _ => Live { ct: &a.ct * &pt, m: ps.mul_t(&a.m, &m), nu: &a.nu * ps.l1(&m) + 1u32, l: a.l },
                })
            }
            6 | 7 => {
                let a = &pool[i];
                let js: Vec<usize> = (0..pool.len()).filter(|j| pool[*j].l == a.l && pool[*j].ct.len() + a.ct.len() <= 5).collect();
                if js.is_empty() {
                    None
                } else {
                    let b = &pool[*g.pick(&js)];
                    Some(Live { ct: &a.ct * &b.ct, m: ps.mul_t(&a.m, &b.m), nu: ps.mul_bound(a.l, sk.s1, a.ct.len(), &a.nu, b.ct.len(), &b.nu), l: a.l })
                }
            }
            8 | 9 => {
                // relinearise in place
                inplace = true;
                into = Some(i);
                let l = pool[i].l;
                if pool[i].ct.len() != 3 || l + 1 >= ps.levels() && ps.levels() < 2 {
                    None
                } else {
                    if !rks.contains_key(&l) {
                        let kl = g.range(0, l.min(ps.levels() - 2));
                        rks.insert(l, (RelinearizationKey::new_leveled(&sk.sk, l, kl, &mut g.rng()).ctx("relinearisation key")?, kl));
                    }
                    let (rk, kl) = &rks[&l];
                    let mut ct = pool[i].ct.clone();
                    rk.relinearizes(&mut ct).ctx("relinearize")?;
                    Some(Live { ct, m: pool[i].m.clone(), nu: &pool[i].nu + ps.ks_bound(l, *kl, sk.s1), l })
                }
            }
            10 => {
                inplace = true;
                into = Some(i);
                let a = &pool[i];
                if a.l + 1 >= ps.levels() {
                    None
                } else {
                    let q = BigUint::from(ps.q[ps.q.len() - 1 - a.l]);
                    let nu = &a.nu / &q + (ps.geo(sk.s1, a.ct.len()) >> 1u32) + 4u32;
                    let mut ct = a.ct.clone();
                    if g.bool() { ct.switch_down() } else { ct.switch_to_level(a.l + 1) }.ctx("switch down")?;
                    Some(Live { ct, m: a.m.clone(), nu, l: a.l + 1 })
                }
            }
            11 | 12 => {
                let l = pool[i].l;
                if pool[i].ct.len() != 2 {
                    None
                } else {
                    if !eks.contains_key(&l) {
                        let kl = g.range(0, l);
                        let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, l, kl).ctx("builder")?;
                        b.enable_inner_sum().ctx("inner")?;
                        b.enable_expansion(1).ctx("expansion")?;
                        eks.insert(l, (b.build(&mut g.rng()).ctx("build")?, kl));
                    }
                    let (ek, kl) = &eks[&l];
                    let ks = ps.ks_bound(l, *kl, sk.s1);
                    let a = &pool[i];
                    let auto = |k: usize| num::automorphism(&a.m, k, &ps.t);
                    match g.below(4) {
                        0 => Some(Live { ct: ek.rotates_rows(&a.ct).ctx("rotate rows")?, m: auto(2 * ps.n - 1), nu: &a.nu + &ks + 1u32, l }),
                        1 => {
                            let s = 1usize << g.usize_below(half.ilog2() as usize);
                            let k = num::powmod(3, s as u64, 2 * ps.n as u64) as usize;
                            Some(Live { ct: ek.rotates_columns_by(&a.ct, s).ctx("rotate columns")?, m: auto(k), nu: &a.nu + &ks + 1u32, l })
                        }
                        2 => {
                            let mut m = vec![BigUint::zero(); ps.n];
                            for k in (1..2 * ps.n).step_by(2) {
                                m = ps.add_t(&m, &auto(k));
                            }
                            Some(Live { ct: ek.computes_inner_sum(&a.ct).ctx("inner sum")?, m, nu: (&a.nu + &ks + 1u32) * (ps.n as u32), l })
                        }
                        _ => {
                            let mut o = ek.expands(&a.ct, 2).ctx("expand")?;
                            let odd = g.bool() as usize;
                            let mut m = vec![BigUint::zero(); ps.n];
                            for j in (odd..ps.n).step_by(2) {
                                m[j - odd] = (&a.m[j] << 1u32) % &ps.t;
                            }
                            Some(Live { ct: o.swap_remove(odd), m, nu: (&a.nu + &ks + 1u32) * 2u32, l })
                        }
                    }
                }
            }
            _ => {
                // travel, or refresh with an encryption of zero
                inplace = true;
                into = Some(i);
                let a = &pool[i];
                if g.bool() || a.ct.len() != 2 || !ps.ok(a.l, &ps.nu_pk(a.l, sk.s1)) {
                    let ct = Ciphertext::from_bytes(&a.ct.to_bytes(), &ps.par).ctx("from_bytes")?;
                    ensure!(ct == a.ct, "a ciphertext changes when serialised");
                    Some(Live { ct, m: a.m.clone(), nu: a.nu.clone(), l: a.l })
                } else {
                    let z = ps.pt(&vec![BigUint::zero(); ps.n], a.l)?;
                    let c: Ciphertext = pk.try_encrypt(&z, &mut g.rng()).ctx("encrypt")?;
                    Some(Live { ct: &a.ct + &c, m: a.m.clone(), nu: &a.nu + ps.nu_pk(a.l, sk.s1), l: a.l })
                }
            }
        };
        let Some(r) = r else { continue };
        // everything else in the pool is untouched, bit for bit
        for (x, s) in pool.iter().zip(&snapshot) {
            ensure!(x.ct == *s, "step {step} (operation {op}) changed another ciphertext");
        }
        if !ps.ok(r.l, &r.nu) {
            continue;
        }
        applied += 1;
        g.label(format!("operation {op}"));
        let parts = r.ct.len();
        sane(&ps, &r.ct, r.l, parts, "history")?;
        let nu = ps.nu(&sk.s, &r.ct, &r.m);
        ensure!(nu <= r.nu, "step {step} (operation {op}): noise of {} bits exceeds the propagated worst case of {} bits", nu.bits(), r.nu.bits());
        let d = sk.sk.try_decrypt(&r.ct).ctx("decrypt")?;
        ensure_eq!(ps.coeffs(&d, r.l)?, r.m, "step {step} (operation {op}): decryption");
        ensure!(t > 1, "harness");
        // occasionally continue from the measured noise, so that histories get deep
        let r = if g.bool() { Live { nu, ..r } } else { r };
        match into {
            Some(j) if inplace => pool[j] = r,
            Some(j) => pool[j] = r,
            None => pool.push(r),
        }
    }
    if applied >= 3 {
        g.hit();
    }
    // everything still alive decrypts at the end
    for x in &pool {
        let d = sk.sk.try_decrypt(&x.ct).ctx("decrypt")?;
        ensure_eq!(ps.coeffs(&d, x.l)?, x.m, "at the end of the history");
    }
    Ok(())
}
