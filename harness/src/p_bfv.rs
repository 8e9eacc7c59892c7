//! B01-B05: encryption, decryption, noise, encoding, linear operations.
use crate::choice::*;
use crate::model::*;
use crate::num;
use crate::p_poly::vt;
use crate::p_zq::{check_cbd, check_uniform};
use crate::runner::*;
use fhe::bfv::{BfvParameters, Ciphertext, Encoding, EvaluationKeyBuilder, Plaintext, PlaintextVec, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe_math::rq::{Poly, PowerBasis, traits::TryConvertFrom};
use fhe_traits::{DeserializeParametrized, DeserializeWithContext, FheDecoder, FheDecrypter, FheEncoder, FheEncoderVariableTime, FheEncrypter, Serialize};
use num_bigint::{BigInt, BigUint};
use num_traits::{One, ToPrimitive, Zero};
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "B01",
            rule: "a case draws a parameter set (degree 8..4096, 1..6 moduli of 10..62 bits, plaintext modulus up to 300 bits), a key, a level with room for fresh noise, an encoding and a message; non-trivial = non-zero message",
            subs: vec![sub("secret", 7_800, 260_000, b01_secret), sub("public", 6_500, 195_000, b01_public), sub("large", 78, 1_950, b01_large)],
        },
        Prop {
            id: "B02",
            rule: "a case builds ciphertexts of 2..5 parts with arbitrary parts and a phase placed at random, at rounding boundaries or at chosen noise around a message, and compares with exact integer decryption; non-trivial = phase not zero",
            subs: vec![sub("decrypt", 12_000, 400_000, b02)],
        },
        Prop {
            id: "B03",
            rule: "a case extracts every sampled vector (errors, masks, keys, key-switching errors) from generated objects and applies range, 9-sigma moment and distinctness tests; non-trivial = always",
            subs: vec![sub("secret_key_noise", 480, 12_000, b03_sk), sub("public_key_noise", 480, 12_000, b03_pk), sub("key_noise", 2_000, 40_000, b03_keys), sub("leveled_key_noise", 1_500, 30_000, b03_leveled), sub("share_noise", 500, 12_000, crate::p_mp::b03_shares)],
        },
        Prop {
            id: "B04",
            rule: "a case draws parameters, an encoding and a vector with lengths and values inside and outside the plaintext range; non-trivial = at least one non-zero value",
            subs: vec![
                sub("unsigned", 9_600, 300_000, b04_unsigned),
                sub("signed", 7_200, 240_000, b04_signed),
                sub("signed_half", 2_400, 48_000, b04_half),
                sub("slots", 6_000, 180_000, b04_slots),
                sub("reject", 7_200, 180_000, b04_reject),
                sub("chunks", 3_600, 72_000, b04_chunks),
            ],
        },
        Prop {
            id: "B05",
            rule: "a case draws ciphertexts of 2..4 parts at one level (fresh and synthetic, noise up to the decryption limit), plaintexts, and one linear operation in all its forms; non-trivial = non-zero messages",
            subs: vec![sub("ciphertexts", 7_500, 225_000, b05_ct), sub("plaintexts", 7_500, 225_000, b05_pt), sub("chains", 3_750, 90_000, b05_chain)],
        },
    ]
}

/// A level of `ps` at which noise `nu` decrypts; None if there is none.
pub fn level_for(g: &mut Gen, ps: &Ps, nu: impl Fn(usize) -> BigUint) -> Option<usize> {
    let v: Vec<usize> = (0..ps.levels()).filter(|l| ps.ok(*l, &nu(*l))).collect();
    if v.is_empty() { None } else { Some(*g.pick(&v)) }
}

enum Msg {
    U(Vec<u64>),
    I(Vec<i64>),
    B(Vec<BigUint>),
}
fn message(g: &mut Gen, ps: &Ps, simd: bool) -> Msg {
    let len = if g.chance(1, 3) { g.range(0, ps.n) } else { ps.n };
    let max = ps.tu.map_or(u64::MAX, |t| t - 1);
    match g.below(3) {
        0 => Msg::U(bulk(g, len, max)),
        1 => {
            // (t-1)/2 of an odd modulus is a recorded finding of its own
            let h = max.min(i64::MAX as u64) / 2 - if max % 2 == 0 && max < u64::MAX { 1 } else { 0 };
            let v = bulk(g, len, h);
            let mut r = g.rng();
            Msg::I(v.into_iter().map(|x| if rand::Rng::next_u32(&mut r) & 1 == 0 { x as i64 } else { -(x as i64) }).collect())
        }
        _ => {
            if ps.tu.is_some() || simd {
                Msg::B(bulk(g, len, max).into_iter().map(BigUint::from).collect())
            } else {
                let mut m = ps.msg(g);
                m.truncate(len);
                Msg::B(m)
            }
        }
    }
}
impl Msg {
    fn encode(&self, e: Encoding, ps: &Ps, g: &mut Gen) -> Res<Plaintext> {
        match self {
            Msg::U(v) if g.chance(1, 3) => Plaintext::try_encode_vt(v.as_slice(), e, &ps.par, vt()).ctx("encode_vt"),
            Msg::U(v) => Plaintext::try_encode(v, e, &ps.par).ctx("encode"),
            Msg::I(v) => Plaintext::try_encode(v, e, &ps.par).ctx("encode"),
            Msg::B(v) => Plaintext::try_encode(v, e, &ps.par).ctx("encode"),
        }
    }
    fn check(&self, pt: &Plaintext, e: Encoding, n: usize, what: &str) -> Res<()> {
        match self {
            Msg::U(v) => {
                let mut x = v.clone();
                x.resize(n, 0);
                ensure_eq!(Vec::<u64>::try_decode(pt, e).ctx(what)?, x, "{what}");
            }
            Msg::I(v) => {
                let mut x = v.clone();
                x.resize(n, 0);
                ensure_eq!(Vec::<i64>::try_decode(pt, e).ctx(what)?, x, "{what}");
            }
            Msg::B(v) => {
                let mut x = v.clone();
                x.resize(n, BigUint::zero());
                ensure_eq!(Vec::<BigUint>::try_decode(pt, e).ctx(what)?, x, "{what}");
            }
        }
        Ok(())
    }
    fn nz(&self) -> bool {
        match self {
            Msg::U(v) => v.iter().any(|x| *x != 0),
            Msg::I(v) => v.iter().any(|x| *x != 0),
            Msg::B(v) => nonzero(v),
        }
    }
}

fn b01_case(g: &mut Gen, ps: &Ps, public: bool) -> Res<()> {
    let sk = Sk::gen_(g, ps)?;
    let Some(l) = level_for(g, ps, |l| if public { ps.nu_pk(l, sk.s1) } else { ps.nu_sk() }) else {
        g.discarded = true;
        return Ok(());
    };
    let pk = if public { Some(PublicKey::new(&sk.sk, &mut g.rng())) } else { None };
    for _ in 0..2 {
        let simd = ps.simd && g.bool();
        let e = if simd { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) };
        let m = message(g, ps, simd);
        if m.nz() {
            g.hit();
        }
        g.note(format!("{} level={l} simd={simd} public={public}", ps.desc()));
        let pt = m.encode(e.clone(), ps, g)?;
        ensure_eq!(pt.level(), l, "level of the plaintext");
        let before = pt.clone();
        let skb = sk.sk.clone();
        let mut rng = g.rng();
        let ct: Ciphertext = match &pk {
            Some(pk) => {
                let pkb = pk.clone();
                let c = pk.try_encrypt(&pt, &mut rng).ctx("public-key encryption")?;
                ensure!(*pk == pkb, "the public key changed");
                c
            }
            None => sk.sk.try_encrypt(&pt, &mut rng).ctx("secret-key encryption")?,
        };
        ensure!(pt == before && sk.sk == skb, "encryption changed its inputs");
        ensure_eq!(ct.len(), 2, "number of parts of a fresh ciphertext");
        ensure!(ct.iter().all(|p| p.ctx() == ps.par.context_at_level(l).unwrap()), "the ciphertext is not at level {l}");
        let ctb = ct.clone();
        let d = sk.sk.try_decrypt(&ct).ctx("decryption")?;
        ensure!(ct == ctb, "decryption changed the ciphertext");
        ensure_eq!(d.level(), l, "level of the decryption");
        m.check(&d, e.clone(), ps.n, "decrypt(encrypt(m))")?;
        ensure!(d == pt, "decrypted plaintext differs from the encoded one");
        // a ciphertext that was sent elsewhere means the same
        if g.chance(1, 3) {
            let c2 = Ciphertext::from_bytes(&ct.to_bytes(), &ps.par).ctx("ciphertext from bytes")?;
            let d2 = sk.sk.try_decrypt(&c2).ctx("decryption")?;
            m.check(&d2, e, ps.n, "decrypt(from_bytes(to_bytes(encrypt(m))))")?;
        }
    }
    Ok(())
}
fn b01_secret(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { reserve: 8, ..Default::default() })?;
    b01_case(g, &ps, false)
}
fn b01_public(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { reserve: 18, ..Default::default() })?;
    b01_case(g, &ps, true)
}
fn b01_large(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (8, 12), reserve: 30, k: (1, 4), qmin: 40, ..Default::default() })?;
    let p = g.bool();
    b01_case(g, &ps, p)
}

// ------------------------------------------------------------------ B02

/// A plaintext modulus between a quarter of the ciphertext modulus and all of it.
pub fn tight_params(g: &mut Gen) -> Res<Ps> {
    for _ in 0..40 {
        let n = 1usize << g.range(3, 5);
        let q = chain(g, n, (1, 3), 10);
        let qq: BigUint = q.iter().map(|x| BigUint::from(*x)).product();
        let t = match g.below(3) {
            0 => &qq - 1u32 - g.draw(8),
            1 => &qq - (&qq >> g.range(2, 40)),
            _ => (&qq >> 2u32) + (BigUint::from(g.u64()) * &qq * 3u32 >> 66u32),
        };
        // closer to Q, the precision of the scaling cannot tell Q/2 from -Q/2
        let t = t.min(&qq - (&qq >> 50u32) - 1u32);
        // the builder takes no plaintext modulus of 63 or 64 bits
        if t < BigUint::from(2u32) || t >= qq || matches!(t.bits(), 63 | 64) || q.iter().any(|m| num::gcd((&t % *m).to_u64().unwrap(), *m) != 1) {
            continue;
        }
        let var = g.range(1, 32);
        let mut b = fhe::bfv::BfvParametersBuilder::new();
        b.set_degree(n).set_moduli(&q).set_variance(var);
        match t.to_u64() {
            Some(t) => b.set_plaintext_modulus(t),
            None => b.set_plaintext_modulus_biguint(t.clone()),
        };
        return Ok(Ps::from_par(b.build_arc().ctx("build parameters")?, var));
    }
    Err("harness: no tight parameters".into())
}
fn b02(g: &mut Gen) -> Res<()> {
    let ps = if g.chance(1, 10) { tight_params(g)? } else { params(g, &Spec { reserve: 3, ..Default::default() })? };
    let sk = Sk::gen_(g, &ps)?;
    // levels at which the plaintext ring fits at all
    let lv: Vec<usize> = (0..ps.levels()).filter(|l| ps.t < *ps.ql(*l)).collect();
    for _ in 0..3 {
        let l = *g.pick(&lv);
        let parts = *g.pick(&[2, 2, 3, 4, 5]);
        let q = ps.ql(l).clone();
        let style = g.below(4);
        let mut r = g.rng();
        let m = ps.msg(g);
        let big = |r: &mut rand_chacha::ChaCha8Rng, m: &BigUint| {
            let mut x = BigUint::zero();
            for _ in 0..m.bits().div_ceil(64) + 1 {
                x = (x << 64u32) + BigUint::from(rand::Rng::next_u64(r));
            }
            x % m
        };
        let ph: Vec<BigUint> = match style {
            // anything at all
            0 => (0..ps.n).map(|_| big(&mut r, &q)).collect(),
            // next to a rounding boundary
            1 => m
                .iter()
                .map(|x| {
                    let b = (&q * ((x << 1u32) + 1u32)) / (&ps.t << 1u32);
                    let sh = rand::Rng::next_u32(&mut r) as u64 % q.bits();
                    let d = big(&mut r, &(BigUint::one() << sh)) % &q;
                    if rand::Rng::next_u32(&mut r) & 1 == 0 { (b + d) % &q } else { (b + &q - d) % &q }
                })
                .collect(),
            // an encryption with a chosen noise level, up to the limit
            2 => {
                let lim = ps.nu_max(l);
                let lim = if lim.is_zero() { lim } else { lim - 1u32 };
                let b = if g.bool() { lim } else { lim >> g.draw(40) as u32 };
                let e = ps.err(g, &b);
                ps.enc(l, &m).iter().zip(&e).map(|(x, y)| num::modbig(&(num::bi(x) + y), &q)).collect()
            }
            _ => {
                let c = num::bi(&q) >> 1u32;
                (0..ps.n).map(|i| num::modbig(&(&c + (i as i64 - ps.n as i64 / 2)), &q)).collect()
            }
        };
        g.note(format!("{} level={l} parts={parts} phase style {style}", ps.desc()));
        if nonzero(&ph) {
            g.hit();
        }
        let ct = ps.with_phase(g, &sk, l, parts, &ps.rows_u(l, &ph))?;
        ensure_eq!(ps.phase(&sk.s, &ct), ph, "harness: phase of the built ciphertext");
        let pt = sk.sk.try_decrypt(&ct).ctx("decryption")?;
        ensure_eq!(pt.level(), l, "level of the decryption");
        let d = ps.coeffs(&pt, l)?;
        for j in 0..ps.n {
            let (a, b) = ps.dec1(l, &ph[j]);
            ensure!(d[j] == a || b.as_ref() == Some(&d[j]), "coefficient {j} decrypts to {}, expected {a} (or {b:?}); phase {}", d[j], ph[j]);
        }
        if style == 2 && !ps.nu_max(l).is_zero() {
            ensure_eq!(d, m, "decryption of an in-budget encryption");
        }
        let e = ps.noise_bits(l, &ph, &d);
        let got = unsafe { sk.sk.measure_noise(&ct) }.ctx("measure_noise")?;
        ensure_eq!(got, e, "reported noise");
    }
    Ok(())
}

// ------------------------------------------------------------------ B03

fn small_centered(ps: &Ps, l: usize, v: &[BigUint]) -> Vec<BigInt> {
    v.iter().map(|x| num::centered(x, ps.ql(l))).collect()
}
fn to_small(v: &[BigInt], bound: u64, what: &str) -> Res<Vec<i64>> {
    v.iter()
        .map(|x| match x.to_i64() {
            Some(y) if y.unsigned_abs() <= bound => Ok(y),
            _ => Err(format!("{what}: coefficient {x} exceeds {bound}")),
        })
        .collect()
}
fn rows_flat(p: &ndarray::Array2<u64>) -> Vec<u64> {
    p.iter().copied().collect()
}

fn stat_params(g: &mut Gen) -> Res<Ps> {
    let log_n = if g.chance(1, 24) { (10, 11) } else { (7, 8) };
    params(g, &Spec { log_n, k: (1, 5), reserve: 32, qmin: 40, big: false, ..Default::default() })
}

fn b03_sk(g: &mut Gen) -> Res<()> {
    let ps = stat_params(g)?;
    g.hit();
    g.note(ps.desc());
    let mut rng = g.rng();
    let keys: Vec<Sk> = (0..12).map(|_| Sk::wrap(SecretKey::random(&ps.par, &mut rng))).collect();
    let mut all = vec![];
    let mut seen = HashSet::new();
    for k in &keys {
        ensure!(k.s.iter().all(|x| x.unsigned_abs() <= ps.eb()), "secret key coefficient out of range");
        ensure!(seen.insert(k.s.clone()), "two secret keys are equal");
        all.extend(k.s.iter().copied());
    }
    check_cbd(&all, ps.var, 1).map_err(|e| format!("secret keys: {e}"))?;
    let sk = &keys[0];
    let l = g.usize_below(ps.levels());
    if !ps.ok(l, &ps.nu_sk()) {
        g.discarded = true;
        return Ok(());
    }
    let m = ps.msg(g);
    let pt = ps.pt(&m, l)?;
    let enc = ps.enc(l, &m);
    let (mut errs, mut masks) = (vec![], HashSet::new());
    let mut errset = HashSet::new();
    let mut flat: Vec<Vec<u64>> = vec![vec![]; ps.mods(l).len()];
    let reuse = g.seed();
    for i in 0..14 {
        // the last encryptions reuse the caller's randomness: masks must still differ
        let ct: Ciphertext = if i < 12 {
            sk.sk.try_encrypt(&pt, &mut rng)
        } else {
            sk.sk.try_encrypt(&pt, &mut <rand_chacha::ChaCha8Rng as rand::SeedableRng>::seed_from_u64(reuse))
        }
        .ctx("encrypt")?;
        let parts = ps.parts(&ct);
        let ph = ps.phase(&sk.s, &ct);
        let q = ps.ql(l);
        let e: Vec<BigUint> = ph.iter().zip(&enc).map(|(a, b)| (a + q - b) % q).collect();
        let e = to_small(&small_centered(&ps, l, &e), ps.eb(), "encryption error")?;
        ensure!(e.iter().any(|x| *x != 0), "an encryption has no noise");
        if i < 12 {
            ensure!(errset.insert(e.clone()), "two encryptions share their error");
            errs.extend(e);
        }
        ensure!(masks.insert(rows_flat(&parts[1])), "two encryptions share their mask");
        for (r, row) in parts[1].outer_iter().enumerate() {
            flat[r].extend(row.iter());
        }
        // the message does not show in any part
        let c0 = ps.lift(l, &parts[0]);
        let far = (q >> 1u32) / &ps.t;
        ensure!(ps.dist(l, &c0, &enc) > (&far >> 8u32).max(BigUint::from(4 * ps.eb())), "the first part is the message in the clear");
        ensure!(nonzero(&ps.lift(l, &parts[1])), "the mask is zero");
    }
    check_cbd(&errs, ps.var, 1).map_err(|e| format!("encryption errors: {e}"))?;
    let ss: Vec<i64> = sk.s.iter().copied().cycle().take(errs.len()).collect();
    uncorrelated(&ss, &errs, (ps.var as f64 * ss.iter().map(|x| x * x).sum::<i64>() as f64 / ss.len() as f64).sqrt(), "the secret key and the encryption errors")?;
    for (v, q) in flat.iter().zip(ps.mods(l)) {
        check_uniform(v, *q).map_err(|e| format!("encryption masks: {e}"))?;
    }
    Ok(())
}

/// Residues at level 0 of a constant that becomes `c` when switched down to level `l`.
pub fn constant_for_level(ps: &Ps, l: usize, c: u64) -> ndarray::Array2<u64> {
    let v = ps.ql(0) / ps.ql(l) * c;
    let mut rows = ndarray::Array2::zeros((ps.q.len(), ps.n));
    for (i, q) in ps.q.iter().enumerate() {
        rows[(i, 0)] = (&v % q).to_u64().unwrap();
    }
    rows
}
/// Independent samples: the mean of their products is zero.
pub fn uncorrelated(a: &[i64], b: &[i64], dev: f64, what: &str) -> Res<()> {
    if a.len() < 512 {
        return Ok(());
    }
    let n = a.len() as f64;
    let c = a.iter().zip(b).map(|(x, y)| (x * y) as f64).sum::<f64>() / n;
    ensure!(c.abs() < 9.0 * dev / n.sqrt(), "{what} are correlated: {c} over {n} pairs (deviation {dev})");
    Ok(())
}
/// Sum of the products of distinct vectors, coefficient by coefficient, and the number of products.
pub fn cross_products(vs: &[&[i64]]) -> (f64, f64) {
    let m = vs.len();
    if m < 2 {
        return (0.0, 0.0);
    }
    let n = vs[0].len();
    let mut t = 0.0;
    for j in 0..n {
        let a: i64 = vs.iter().map(|v| v[j]).sum();
        let b: i64 = vs.iter().map(|v| v[j] * v[j]).sum();
        t += (a * a - b) as f64 / 2.0;
    }
    (t, (n * m * (m - 1) / 2) as f64)
}
/// A public key that exposes what encryption samples at level `l`: pk = (B, B).
fn transparent_pk(ps: &Ps, l: usize, b: u64) -> Res<PublicKey> {
    let rows = constant_for_level(ps, l, b);
    let p = ps.poly(0, &rows, true)?;
    let ct = Ciphertext::new(vec![p.clone(), p], &ps.par).ctx("ciphertext")?;
    let c = fhe::proto::bfv::Ciphertext::from(&ct);
    let b = prost::Message::encode_to_vec(&fhe::proto::bfv::PublicKey { c: Some(c) });
    PublicKey::from_bytes(&b, &ps.par).ctx("public key from bytes")
}

fn b03_pk(g: &mut Gen) -> Res<()> {
    let ps = stat_params(g)?;
    g.hit();
    g.note(ps.desc());
    let mut rng = g.rng();
    let sk = Sk::wrap(SecretKey::random(&ps.par, &mut rng));
    // key generation: error and mask
    let (mut errs, mut masks) = (vec![], HashSet::new());
    for _ in 0..10 {
        let pk = PublicKey::new(&sk.sk, &mut rng);
        let c = <fhe::proto::bfv::PublicKey as prost::Message>::decode(pk.to_bytes().as_slice()).unwrap().c.unwrap();
        let ct = Ciphertext::from_bytes(&prost::Message::encode_to_vec(&c), &ps.par).ctx("public key ciphertext")?;
        ensure!(masks.insert(rows_flat(&ps.parts(&ct)[1])), "two public keys share their mask");
        let e = to_small(&small_centered(&ps, 0, &ps.phase(&sk.s, &ct)), ps.eb(), "public key error")?;
        ensure!(e.iter().any(|x| *x != 0), "a public key has no noise");
        errs.extend(e);
    }
    check_cbd(&errs, ps.var, 1).map_err(|e| format!("public key errors: {e}"))?;
    // encryption: u, e1, e2 read off under a transparent key
    let b = 1024u64;
    let l = *g.pick(&fits(&ps));
    let pk = transparent_pk(&ps, l, b)?;
    let m = ps.msg(g);
    let pt = ps.pt(&m, l)?;
    let enc = ps.enc(l, &m);
    let (mut us, mut e1s, mut e2s) = (vec![], vec![], vec![]);
    let mut seen = HashSet::new();
    let q = ps.ql(l).clone();
    let split = |v: &[BigUint], what: &str| -> Res<(Vec<i64>, Vec<i64>)> {
        let v = to_small(&small_centered(&ps, l, v), b * ps.eb() + ps.eb(), what)?;
        Ok(v.iter()
            .map(|x| {
                let hi = (x + b as i64 / 2).div_euclid(b as i64);
                (hi, x - hi * b as i64)
            })
            .unzip())
    };
    for _ in 0..10 {
        let ct: Ciphertext = pk.try_encrypt(&pt, &mut rng).ctx("encrypt")?;
        let parts = ps.parts(&ct);
        let c0: Vec<BigUint> = ps.lift(l, &parts[0]).iter().zip(&enc).map(|(a, b)| (a + &q - b) % &q).collect();
        let (u, e1) = split(&c0, "first part under a transparent key")?;
        let (u2, e2) = split(&ps.lift(l, &parts[1]), "second part under a transparent key")?;
        ensure_eq!(u, u2, "the two parts use different randomisers");
        for v in [&u, &e1, &e2] {
            ensure!(v.iter().any(|x| *x != 0), "a sampled vector is zero");
            ensure!(seen.insert(v.clone()), "a sampled vector repeats");
        }
        us.extend(u);
        e1s.extend(e1);
        e2s.extend(e2);
    }
    check_cbd(&us, ps.var, 1).map_err(|e| format!("randomisers: {e}"))?;
    check_cbd(&e1s, ps.var, 1).map_err(|e| format!("first errors: {e}"))?;
    check_cbd(&e2s, ps.var, 1).map_err(|e| format!("second errors: {e}"))?;
    let var = ps.var as f64;
    uncorrelated(&us, &e1s, var, "the randomiser and the first error")?;
    uncorrelated(&us, &e2s, var, "the randomiser and the second error")?;
    uncorrelated(&e1s, &e2s, var, "the two errors")?;
    // and the bound under a real key, at every usable level
    for l in 0..ps.levels() {
        if ps.ok(l, &ps.nu_pk(l, sk.s1)) {
            let pk = PublicKey::new(&sk.sk, &mut rng);
            let ct: Ciphertext = pk.try_encrypt(&ps.pt(&m, l)?, &mut rng).ctx("encrypt")?;
            let nu = ps.nu(&sk.s, &ct, &m);
            ensure!(nu <= ps.nu_pk(l, sk.s1), "public-key noise {nu} beyond the worst case {}", ps.nu_pk(l, sk.s1));
            ensure!(nu > BigUint::from(ps.eb()), "public-key noise {nu} is no more than one error");
        }
    }
    Ok(())
}

/// Residue rows that are 1 (constant coefficient) modulo the i-th modulus only.
pub fn unit_rows(ps: &Ps, l: usize, i: usize) -> ndarray::Array2<u64> {
    let mut a = ndarray::Array2::zeros((ps.mods(l).len(), ps.n));
    a[(i, 0)] = 1;
    a
}

/// Key-switching components read through the public operations: a ciphertext
/// whose switched part is the i-th unit returns the i-th component unchanged.
fn b03_keys(g: &mut Gen) -> Res<()> {
    let log_n = if g.chance(1, 60) { (10, 11) } else { (3, 6) };
    let ps = params(g, &Spec { log_n, k: (1, 4), reserve: 10, qmin: 24, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let l = g.usize_below(ps.levels());
    let k = ps.mods(l).len();
    g.hit();
    g.note(format!("{} level={l}", ps.desc()));
    let mut rng = g.rng();
    let zero = ndarray::Array2::zeros((k, ps.n));
    let q = ps.ql(l).clone();
    let s = ps.sk_rows(l, &sk.s);
    let garner = |i: usize| -> BigUint { ps.crts[l].lift((0..k).map(|j| (i == j) as u64)) };
    let mut masks = HashSet::new();
    let mut errs: Vec<i64> = vec![];
    let mut vecs: Vec<(String, Vec<i64>)> = vec![];
    let mut look = |parts: Vec<ndarray::Array2<u64>>, target: &ndarray::Array2<u64>, f: &BigUint, what: &str| -> Res<()> {
        let fr = ndarray::Array2::from_shape_fn((k, ps.n), |(r, c)| num::mulmod(target[(r, c)], (f % ps.q[r]).to_u64().unwrap(), ps.q[r]));
        let ph = ps.rsub(l, &ps.phase_rows(&sk.s, &parts, l), &fr);
        let e = to_small(&small_centered(&ps, l, &ps.lift(l, &ph)), ps.eb(), what)?;
        ensure!(masks.insert(rows_flat(&parts[1])), "{what}: two components share their mask");
        ensure!(parts[1].iter().any(|x| *x != 0), "{what}: zero mask");
        errs.extend(&e);
        vecs.push((what.to_string(), e));
        Ok(())
    };
    // gadget ciphertexts
    let m = ps.msg(g);
    let mr = ps.rows_u(l, &m);
    let ms = ps.rmul(l, &mr, &s);
    let rg: RGSWCiphertext = sk.sk.try_encrypt(&ps.pt(&m, l)?, &mut rng).ctx("gadget encryption")?;
    let one = BigUint::one();
    let digits: Vec<(ndarray::Array2<u64>, BigUint)> = if k == 1 {
        // base decomposition: the digits of powers of the base
        let lm = 64 - ps.mods(l)[0].leading_zeros() as usize;
        let lb = lm / 2;
        (0..lm.div_ceil(lb))
            .filter_map(|i| {
                let p = one.clone() << (i * lb);
                if p < q {
                    let mut a = zero.clone();
                    a[(0, 0)] = p.to_u64().unwrap();
                    Some((a, p))
                } else {
                    None
                }
            })
            .collect()
    } else {
        (0..k).map(|i| (unit_rows(&ps, l, i), garner(i))).collect()
    };
    for (unit, f) in &digits {
        let ct = Ciphertext::new(vec![ps.poly(l, unit, true)?, ps.poly(l, &zero, true)?], &ps.par).ctx("ciphertext")?;
        look(ps.parts(&(&ct * &rg)), &mr, f, "gadget component for c0")?;
        let ct = Ciphertext::new(vec![ps.poly(l, &zero, true)?, ps.poly(l, unit, true)?], &ps.par).ctx("ciphertext")?;
        look(ps.parts(&(&ct * &rg)), &ms, f, "gadget component for c1")?;
    }
    if k > 1 {
        let rk = RelinearizationKey::new_leveled(&sk.sk, l, l, &mut rng).ctx("relinearization key")?;
        let s2 = ps.rmul(l, &s, &s);
        for (unit, f) in &digits {
            let z = ps.poly(l, &zero, true)?;
            let mut ct = Ciphertext::new(vec![z.clone(), z, ps.poly(l, unit, true)?], &ps.par).ctx("ciphertext")?;
            rk.relinearizes(&mut ct).ctx("relinearize")?;
            look(ps.parts(&ct), &s2, f, "relinearization key component")?;
        }
    }
    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, l, l).ctx("builder")?;
    let ek = b.enable_row_rotation().ctx("row rotation")?.build(&mut rng).ctx("evaluation key")?;
    let sb: Vec<BigUint> = ps.lift(l, &s);
    let sc = ps.rows_u(l, &num::automorphism(&sb, 2 * ps.n - 1, &q));
    for (unit, f) in &digits {
        let ct = Ciphertext::new(vec![ps.poly(l, &zero, true)?, ps.poly(l, unit, true)?], &ps.par).ctx("ciphertext")?;
        look(ps.parts(&ek.rotates_rows(&ct).ctx("rotate")?), &sc, f, "rotation key component")?;
    }
    // pooled: never all zero, roughly centred
    ensure!(errs.iter().any(|x| *x != 0), "no key-switching component has noise");
    if errs.len() >= 512 {
        check_cbd(&errs, ps.var, 1).map_err(|e| format!("key-switching errors: {e}"))?;
    }
    if ps.n >= 32 {
        for group in ["gadget component for c0", "gadget component for c1", "relinearization key component", "rotation key component", ""] {
            let v: Vec<&[i64]> = vecs.iter().filter(|x| x.0.starts_with(group)).map(|x| x.1.as_slice()).collect();
            let (t, n) = cross_products(&v);
            let tol = 12.0 * ps.var as f64 * n.sqrt();
            ensure!(n < 256.0 || t.abs() < tol, "the errors of different components are correlated ({group}): {t} over {n} products (tolerance {tol})");
        }
    }
    Ok(())
}

/// Key-switching keys of every level under the zero secret key, whose first halves are
/// the errors themselves.
fn b03_leveled(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 8), k: (1, 5), reserve: 10, qmin: 24, ..Default::default() })?;
    let sk = sk_from(&ps.par, &vec![0; ps.n])?;
    let cl = g.usize_below(ps.levels());
    let kl = g.range(0, cl);
    g.hit();
    g.note(format!("{} ciphertext level={cl} key level={kl}", ps.desc()));
    let mut rng = g.rng();
    let ctx = ps.par.context_at_level(kl).ctx("context")?;
    let mut vecs: Vec<Vec<i64>> = vec![];
    let mut seeds = HashSet::new();
    let mut keys = vec![];
    for _ in 0..2 {
        if ps.mods(kl).len() > 1 {
            let rk = RelinearizationKey::new_leveled(&sk, cl, kl, &mut rng).ctx("relinearization key")?;
            keys.push(("relinearisation key", <fhe::proto::bfv::RelinearizationKey as prost::Message>::decode(rk.to_bytes().as_slice()).ctx("decode")?.ksk));
        }
        let mut b = EvaluationKeyBuilder::new_leveled(&sk, cl, kl).ctx("builder")?;
        b.enable_row_rotation().ctx("row rotation")?;
        b.enable_column_rotation(1).ctx("column rotation")?;
        if g.bool() {
            b.enable_expansion(g.range(1, ps.n.ilog2() as usize)).ctx("expansion")?;
        }
        let ek = b.build(&mut rng).ctx("evaluation key")?;
        for k in <fhe::proto::bfv::EvaluationKey as prost::Message>::decode(ek.to_bytes().as_slice()).ctx("decode")?.gk {
            keys.push(("rotation key", k.ksk));
        }
    }
    for (what, k) in keys {
        let k = k.ok_or("no key")?;
        ensure!(k.seed.is_empty() || seeds.insert(k.seed.clone()), "two keys share the seed of their masks");
        for c in &k.c0 {
            let e = Poly::<fhe_math::rq::NttShoup>::from_bytes(c, ctx).ctx("component")?.into_power_basis().coefficients().to_owned();
            vecs.push(to_small(&small_centered(&ps, kl, &ps.lift(kl, &e)), ps.eb(), what)?);
        }
    }
    let errs: Vec<i64> = vecs.iter().flatten().copied().collect();
    ensure!(errs.iter().any(|x| *x != 0), "no key has noise");
    if errs.len() >= 512 {
        check_cbd(&errs, ps.var, 1).map_err(|e| format!("key errors: {e}"))?;
    }
    let (t, n) = cross_products(&vecs.iter().map(|v| v.as_slice()).collect::<Vec<_>>());
    let tol = 12.0 * ps.var as f64 * n.sqrt();
    ensure!(ps.n < 32 || n < 256.0 || t.abs() < tol, "the errors of different components are correlated: {t} over {n} products (tolerance {tol})");
    Ok(())
}

// ------------------------------------------------------------------ B04

fn b04_params(g: &mut Gen, simd: bool) -> Res<Ps> {
    params(g, &Spec { reserve: 1, simd, ..Default::default() })
}
/// levels at which the plaintext ring fits
fn fits(ps: &Ps) -> Vec<usize> {
    (0..ps.levels()).filter(|l| ps.t < *ps.ql(*l)).collect()
}

fn b04_unsigned(g: &mut Gen) -> Res<()> {
    let ps = b04_params(g, false)?;
    let l = *g.pick(&fits(&ps));
    let len = if g.bool() { ps.n } else { g.range(0, ps.n) };
    let simd = ps.simd && g.bool();
    let e = if simd { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) };
    g.note(format!("{} level={l} length={len} simd={simd}", ps.desc()));
    let max = if g.bool() { u64::MAX } else { ps.tu.map_or(u64::MAX, |t| t - 1) };
    let v = bulk(g, len, max);
    let bigs: Vec<BigUint> = if simd || g.bool() {
        v.iter().map(|x| BigUint::from(*x)).collect()
    } else {
        // integers beyond the machine word
        let mut x = ps.msg(g);
        x.truncate(len);
        x.iter().enumerate().map(|(i, y)| y + &ps.t * (i as u64 % 3)).collect()
    };
    if v.iter().any(|x| *x != 0) {
        g.hit();
    }
    let red = |v: Vec<BigUint>| -> Vec<BigUint> {
        let mut o: Vec<BigUint> = v.into_iter().map(|x| x % &ps.t).collect();
        o.resize(ps.n, BigUint::zero());
        o
    };
    let ev = red(v.iter().map(|x| BigUint::from(*x)).collect());
    let eb = red(bigs.clone());
    let forms: Vec<(&str, Plaintext, &Vec<BigUint>)> = vec![
        ("&[u64]", Plaintext::try_encode(v.as_slice(), e.clone(), &ps.par).ctx("encode &[u64]")?, &ev),
        ("&Vec<u64>", Plaintext::try_encode(&v, e.clone(), &ps.par).ctx("encode &Vec<u64>")?, &ev),
        ("variable time", Plaintext::try_encode_vt(v.as_slice(), e.clone(), &ps.par, vt()).ctx("encode_vt")?, &ev),
        ("&[BigUint]", Plaintext::try_encode(bigs.as_slice(), e.clone(), &ps.par).ctx("encode &[BigUint]")?, &eb),
    ];
    for (w, pt, exp) in &forms {
        ensure_eq!(pt.level(), l, "{w}: level");
        let enc = if g.bool() { Some(e.clone()) } else { None };
        let got = Vec::<BigUint>::try_decode(pt, enc.clone()).ctx(w)?;
        ensure_eq!(got, **exp, "{w}: decoded integers");
        match Vec::<u64>::try_decode(pt, enc) {
            Ok(x) => ensure_eq!(x.into_iter().map(BigUint::from).collect::<Vec<_>>(), **exp, "{w}: decoded words"),
            Err(er) => ensure!(exp.iter().any(|x| x.bits() > 64), "{w}: decoding words failed with {er:?}"),
        }
        if !simd {
            // coefficient i sits at power i
            let ctx = ps.par.context_at_level(l).unwrap();
            let p = Poly::<PowerBasis>::try_convert_from(pt, ctx, g.bool()).ctx("polynomial of a plaintext")?;
            let c = p.coefficients();
            for (i, q) in ps.mods(l).iter().enumerate() {
                for j in 0..ps.n {
                    ensure!(BigUint::from(c[(i, j)]) == &exp[j] % *q, "{w}: coefficient {j} of the polynomial is {} modulo {q}, expected {}", c[(i, j)], exp[j]);
                }
            }
        }
    }
    ensure!(forms[0].1 == forms[1].1 && forms[0].1 == forms[2].1, "equal vectors encode to different plaintexts");
    let arr: [u64; 5] = [3, 0, 1, 2, 1];
    let a = Plaintext::try_encode(&arr, e.clone(), &ps.par).ctx("encode array")?;
    let b = Plaintext::try_encode(&arr[..], e, &ps.par).ctx("encode slice")?;
    ensure!(a == b, "an array and a slice encode differently");
    Ok(())
}

fn b04_signed(g: &mut Gen) -> Res<()> {
    let ps = b04_params(g, false)?;
    let l = *g.pick(&fits(&ps));
    let len = if g.bool() { ps.n } else { g.range(0, ps.n) };
    let simd = ps.simd && g.bool();
    let e = if simd { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) };
    g.note(format!("{} level={l} length={len} simd={simd}", ps.desc()));
    let v: Vec<i64> = if g.bool() {
        let mut v: Vec<i64> = bulk(g, len, u64::MAX).into_iter().map(|x| x as i64).collect();
        if len > 0 && g.chance(1, 3) {
            let i = g.usize_below(len);
            v[i] = *g.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, -1]);
        }
        v
    } else {
        let m = ps.tu.map_or(i64::MAX as u64, |t| t);
        let off = (m / 2) as i64;
        bulk(g, len, m).into_iter().map(|x| x as i64 - off).collect()
    };
    if v.iter().any(|x| *x != 0) {
        g.hit();
    }
    let ti = num::bi(&ps.t);
    // the unique representative in [-t/2, t/2)
    let mut exp: Vec<BigInt> = v
        .iter()
        .map(|x| {
            let r = num::bi(&num::modbig(&BigInt::from(*x), &ps.t));
            if (&r << 1u32) >= ti { r - &ti } else { r }
        })
        .collect();
    exp.resize(ps.n, BigInt::zero());
    let pt = Plaintext::try_encode(&v, e.clone(), &ps.par).ctx("encode")?;
    let pt2 = Plaintext::try_encode(v.as_slice(), e.clone(), &ps.par).ctx("encode")?;
    ensure!(pt == pt2, "Vec and slice encode differently");
    let got = Vec::<i64>::try_decode(&pt, e.clone()).ctx("decode")?;
    let half = (&ps.t - 1u32) >> 1u32;
    let odd = ps.t.bit(0);
    for j in 0..ps.n {
        // (t-1)/2 for odd t: see the generator `signed_half`
        if odd && exp[j] == num::bi(&half) {
            continue;
        }
        ensure!(BigInt::from(got[j]) == exp[j], "value {j}: got {}, expected {}", got[j], exp[j]);
    }
    let u = Vec::<BigUint>::try_decode(&pt, e).ctx("decode")?;
    for j in 0..ps.n {
        ensure!(u[j] == num::modbig(&exp[j], &ps.t), "value {j}: unsigned decoding {} of {}", u[j], exp[j]);
    }
    Ok(())
}

/// (t-1)/2 for odd t.
fn b04_half(g: &mut Gen) -> Res<()> {
    let ps = b04_params(g, false)?;
    if !ps.t.bit(0) || ps.tu.is_none() {
        g.discarded = true;
        return Ok(());
    }
    g.note(ps.desc());
    g.hit();
    let h = ((ps.tu.unwrap() - 1) / 2) as i64;
    let pt = Plaintext::try_encode(&[h, 0, -h], Encoding::poly(), &ps.par).ctx("encode")?;
    let d = Vec::<i64>::try_decode(&pt, Encoding::poly()).ctx("decode")?;
    ensure!(d[1] == 0 && d[2] == -h, "decoded {:?}", &d[..3]);
    ensure!(d[0] == h, "signed decoding of (t-1)/2 for odd t leaves [-t/2, t/2): {} for {h}", d[0]);
    Ok(())
}

fn b04_slots(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { reserve: 4, simd: true, qmin: 16, ..Default::default() })?;
    let t = ps.tu.unwrap();
    // slots of ring elements are read by decrypting a noiseless ciphertext
    let f: Vec<usize> = (0..ps.levels()).filter(|l| (&ps.t << 3u32) < *ps.ql(*l)).collect();
    let l = *g.pick(&f);
    let e = Encoding::simd_at_level(l);
    let pe = Encoding::poly_at_level(l);
    g.note(format!("{} level={l}", ps.desc()));
    let dec = |pt: &Plaintext| Vec::<u64>::try_decode(pt, e.clone()).ctx("decode slots");
    // evaluation points, read off the polynomial x
    let x = Plaintext::try_encode(&[0u64, 1], pe.clone(), &ps.par).ctx("encode x")?;
    let xc = Vec::<u64>::try_decode(&x, pe.clone()).ctx("decode x")?;
    // decrypted plaintexts carry no encoding: go through an encryption-free path
    let strip = |c: &[u64]| -> Res<Vec<u64>> { slots_of(&ps, l, c) };
    let pts = strip(&xc)?;
    let set: HashSet<u64> = pts.iter().copied().collect();
    ensure_eq!(set.len(), ps.n, "number of distinct evaluation points");
    for p in &pts {
        ensure!(num::powmod(*p, ps.n as u64, t) == t - 1, "{p} is not a root of x^n+1 modulo {t}");
    }
    let a = bulk(g, ps.n, t - 1);
    let b = bulk(g, ps.n, t - 1);
    if a.iter().any(|x| *x != 0) && b.iter().any(|x| *x != 0) {
        g.hit();
    }
    let coef = |v: &[u64]| -> Res<Vec<u64>> {
        let pt = Plaintext::try_encode(v, e.clone(), &ps.par).ctx("encode slots")?;
        let p = Poly::<PowerBasis>::try_convert_from(&pt, ps.par.context_at_level(l).unwrap(), false).ctx("polynomial")?;
        let rows = p.coefficients().to_owned();
        Ok(ps.lift(l, &rows).iter().map(|x| (x % t).to_u64().unwrap()).collect())
    };
    let (ca, cb) = (coef(&a)?, coef(&b)?);
    for (i, p) in pts.iter().enumerate() {
        let v = ca.iter().rev().fold(0, |acc, c| num::addmod(num::mulmod(acc, *p, t), *c, t));
        ensure!(v == a[i], "the encoding takes value {v} at the point of slot {i}, expected {}", a[i]);
    }
    ensure_eq!(dec(&Plaintext::try_encode(&a, e.clone(), &ps.par).ctx("encode")?)?, a, "slots after a round trip");
    // ring operations act slot-wise
    let sum: Vec<u64> = ca.iter().zip(&cb).map(|(x, y)| num::addmod(*x, *y, t)).collect();
    let prod = num::negacyclic(&ca, &cb, t);
    let es: Vec<u64> = a.iter().zip(&b).map(|(x, y)| num::addmod(*x, *y, t)).collect();
    let ep: Vec<u64> = a.iter().zip(&b).map(|(x, y)| num::mulmod(*x, *y, t)).collect();
    ensure_eq!(strip(&sum)?, es, "slots of the ring sum");
    ensure_eq!(strip(&prod)?, ep, "slots of the ring product");
    Ok(())
}

/// Slots of the plaintext polynomial with coefficients c (through a noiseless ciphertext).
pub fn slots_of(ps: &Ps, l: usize, c: &[u64]) -> Res<Vec<u64>> {
    let pt = Plaintext::try_encode(c, Encoding::poly_at_level(l), &ps.par).ctx("encode")?;
    // a trivial ciphertext decrypts to the same polynomial without an encoding tag
    let m: Vec<BigUint> = c.iter().map(|x| BigUint::from(*x)).collect();
    let _ = pt;
    let rows = ps.rows_u(l, &ps.enc(l, &m));
    let z = ndarray::Array2::zeros(rows.raw_dim());
    let ct = Ciphertext::new(vec![ps.poly(l, &rows, false)?, ps.poly(l, &z, false)?], &ps.par).ctx("ciphertext")?;
    let sk = sk_from(&ps.par, &vec![0; ps.n])?;
    let d = sk.try_decrypt(&ct).ctx("decrypt")?;
    Vec::<u64>::try_decode(&d, Encoding::simd_at_level(l)).ctx("decode slots")
}

fn b04_reject(g: &mut Gen) -> Res<()> {
    let ps = b04_params(g, false)?;
    let f = fits(&ps);
    let l = *g.pick(&f);
    g.note(format!("{} level={l}", ps.desc()));
    g.hit();
    let n = ps.n;
    let long = n + 1 + g.draw(3 * n as u64) as usize;
    let e = Encoding::poly_at_level(l);
    ensure!(Plaintext::try_encode(&vec![1u64; long], e.clone(), &ps.par).is_err(), "too many words accepted");
    ensure!(Plaintext::try_encode(&vec![1i64; long], e.clone(), &ps.par).is_err(), "too many signed words accepted");
    ensure!(Plaintext::try_encode(&vec![BigUint::one(); long], e.clone(), &ps.par).is_err(), "too many integers accepted");
    ensure!(Plaintext::try_encode_vt(vec![1u64; long].as_slice(), e.clone(), &ps.par, vt()).is_err(), "too many words accepted in variable time");
    let over = ps.levels() + g.draw(4) as usize;
    for e in [Encoding::poly_at_level(over), Encoding::simd_at_level(over)] {
        ensure!(Plaintext::try_encode(&[1u64], e.clone(), &ps.par).is_err(), "level {over} accepted");
        ensure!(Plaintext::try_encode(&[BigUint::one()], e.clone(), &ps.par).is_err(), "level {over} accepted");
        ensure!(Plaintext::zero(e.clone(), &ps.par).is_err(), "zero plaintext at level {over} accepted");
    }
    let s = Encoding::simd_at_level(l);
    let has = Plaintext::try_encode(&[1u64], s.clone(), &ps.par).is_ok();
    ensure_eq!(has, ps.simd, "slot encoding available");
    ensure_eq!(Plaintext::try_encode(&[1i64], s.clone(), &ps.par).is_ok(), ps.simd, "slot encoding of signed words available");
    ensure_eq!(Plaintext::try_encode(&[BigUint::one()], s.clone(), &ps.par).is_ok(), ps.simd, "slot encoding of integers available");
    ensure_eq!(Plaintext::try_encode_vt(&[1u64][..], s.clone(), &ps.par, vt()).is_ok(), ps.simd, "slot encoding in variable time available");
    let pt = Plaintext::try_encode(&[1u64], e.clone(), &ps.par).ctx("encode")?;
    // any other encoding is refused
    let mut others = vec![Encoding::simd_at_level(l)];
    if ps.levels() > 1 {
        others.push(Encoding::poly_at_level((l + 1) % ps.levels()));
        others.push(Encoding::simd_at_level((l + 1) % ps.levels()));
    }
    for o in others {
        ensure!(Vec::<u64>::try_decode(&pt, o.clone()).is_err(), "decoding words with another encoding accepted");
        ensure!(Vec::<i64>::try_decode(&pt, o.clone()).is_err(), "decoding signed words with another encoding accepted");
        ensure!(Vec::<BigUint>::try_decode(&pt, o.clone()).is_err(), "decoding integers with another encoding accepted");
    }
    // a decrypted plaintext has no encoding of its own
    let sk = sk_from(&ps.par, &vec![0; n])?;
    let z = ndarray::Array2::zeros((ps.mods(l).len(), n));
    let ct = Ciphertext::new(vec![ps.poly(l, &z, false)?, ps.poly(l, &z, false)?], &ps.par).ctx("ciphertext")?;
    let d = sk.try_decrypt(&ct).ctx("decrypt")?;
    ensure!(Vec::<u64>::try_decode(&d, None).is_err() && Vec::<BigUint>::try_decode(&d, None).is_err() && Vec::<i64>::try_decode(&d, None).is_err(), "decoding without any encoding accepted");
    if !ps.simd {
        ensure!(Vec::<u64>::try_decode(&d, Encoding::simd_at_level(l)).is_err(), "slot decoding accepted without slots");
        ensure!(Vec::<BigUint>::try_decode(&d, Encoding::simd_at_level(l)).is_err(), "slot decoding accepted without slots");
    }
    // words that do not hold the value
    if ps.t > pow2(64) {
        let v = vec![&ps.t - 1u32, (&ps.t >> 1u32) - 2u32, BigUint::one()];
        let pt = Plaintext::try_encode(&v, e.clone(), &ps.par).ctx("encode")?;
        ensure!(Vec::<u64>::try_decode(&pt, e.clone()).is_err(), "a value beyond 64 bits decoded to a word");
        let r = no_panic(|| Vec::<i64>::try_decode(&pt, e.clone()));
        match r {
            Err(p) => return Err(format!("decoding signed words panicked: {p}")),
            // -1, (t >> 1) - 2 and 1 are within reach only if the middle one is
            Ok(Ok(x)) => ensure!(((&ps.t >> 1u32) - 2u32).bits() < 64 && x[0] == -1 && x[1] >= 0 && BigUint::from(x[1] as u64) == (&ps.t >> 1u32) - 2u32 && x[2] == 1, "a value beyond 64 bits decoded to {}", x[1]),
            Ok(Err(_)) => {}
        }
    }
    let zero = Plaintext::zero(e.clone(), &ps.par).ctx("zero")?;
    ensure!(Vec::<BigUint>::try_decode(&zero, e).ctx("decode")?.iter().all(|x| x.is_zero()), "the zero plaintext decodes to something else");
    Ok(())
}

fn b04_chunks(g: &mut Gen) -> Res<()> {
    let ps = b04_params(g, false)?;
    let l = *g.pick(&fits(&ps));
    let simd = ps.simd && g.bool();
    let e = if simd { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) };
    let len = g.range(0, 4 * ps.n + 1);
    let v = bulk(g, len, ps.tu.map_or(u64::MAX, |t| t - 1));
    g.note(format!("{} level={l} length={len}", ps.desc()));
    if len > ps.n {
        g.hit();
    }
    let forms: Vec<PlaintextVec> = vec![
        PlaintextVec::try_encode(v.as_slice(), e.clone(), &ps.par).ctx("encode")?,
        PlaintextVec::try_encode_vt(v.as_slice(), e.clone(), &ps.par, vt()).ctx("encode_vt")?,
        PlaintextVec::try_encode(v.iter().map(|x| BigUint::from(*x)).collect::<Vec<_>>().as_slice(), e.clone(), &ps.par).ctx("encode")?,
    ];
    for f in &forms {
        ensure_eq!(f.len(), len.div_ceil(ps.n).max(1), "number of plaintexts");
        let mut all: Vec<BigUint> = vec![];
        for p in f.iter() {
            ensure_eq!(p.level(), l, "level");
            all.extend(Vec::<BigUint>::try_decode(p, e.clone()).ctx("decode")?);
        }
        for (i, x) in all.iter().enumerate() {
            let w = v.get(i).copied().unwrap_or(0);
            ensure!(*x == BigUint::from(w), "value {i} decodes to {x}, expected {w}");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ B05

fn same_parts(ps: &Ps, a: &Ciphertext, b: &Ciphertext, what: &str) -> Res<()> {
    ensure!(a.len() == b.len() && ps.parts(a) == ps.parts(b), "{what}: the forms disagree");
    Ok(())
}
/// All forms of one result must agree; returns one of them.
fn agree(ps: &Ps, v: Vec<(&str, Ciphertext)>) -> Res<Ciphertext> {
    for (w, c) in &v[1..] {
        same_parts(ps, &v[0].1, c, w)?;
        // equality also has to see them as the same object
        ensure!(v[0].1 == *c, "{w}: not equal to the other forms");
    }
    Ok(v.into_iter().next().unwrap().1)
}

fn b05_ct(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { reserve: 6, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let lv: Vec<usize> = (0..ps.levels()).filter(|l| (&ps.t << 3u32) < *ps.ql(*l)).collect();
    let l = *g.pick(&lv);
    let lim = ps.nu_max(l);
    let parts = *g.pick(&[2, 2, 3, 4]);
    let op = g.below(3);
    let emax = if op == 2 { lim.clone() } else { &lim >> 1u32 };
    if emax.is_zero() {
        g.discarded = true;
        return Ok(());
    }
    let emax = emax - 1u32;
    let a = some_ct(g, &ps, &sk, l, Some(parts), &emax)?;
    let b = some_ct(g, &ps, &sk, l, Some(parts), &emax)?;
    g.note(format!("{} level={l} parts={parts} op={op} {}/{}", ps.desc(), a.kind, b.kind));
    if nonzero(&a.m) && nonzero(&b.m) {
        g.hit();
    }
    let (a0, b0) = (a.ct.clone(), b.ct.clone());
    let (r, m) = match op {
        0 => {
            let mut x = a.ct.clone();
            x += &b.ct;
            (agree(&ps, vec![("&a + &b", &a.ct + &b.ct), ("a + &b", a.ct.clone() + &b.ct), ("a += &b", x)])?, ps.add_t(&a.m, &b.m))
        }
        1 => {
            let mut x = a.ct.clone();
            x -= &b.ct;
            (agree(&ps, vec![("&a - &b", &a.ct - &b.ct), ("a - &b", a.ct.clone() - &b.ct), ("a -= &b", x)])?, ps.sub_t(&a.m, &b.m))
        }
        _ => (agree(&ps, vec![("-&a", -&a.ct), ("-a", -a.ct.clone())])?, ps.neg_t(&a.m)),
    };
    ensure!(a.ct == a0 && b.ct == b0, "an operand changed");
    ensure_eq!(r.len(), parts, "number of parts");
    // the phases obey the same relation exactly
    let (pa, pb, pr) = (ps.phase(&sk.s, &a.ct), ps.phase(&sk.s, &b.ct), ps.phase(&sk.s, &r));
    let q = ps.ql(l);
    for j in 0..ps.n {
        let e = match op {
            0 => (&pa[j] + &pb[j]) % q,
            1 => (&pa[j] + q - &pb[j]) % q,
            _ => (q - &pa[j]) % q,
        };
        ensure!(pr[j] == e, "phase of coefficient {j} is {}, expected {e}", pr[j]);
    }
    let bound = match op {
        2 => ps.nu(&sk.s, &a.ct, &a.m) + 1u32,
        _ => ps.nu(&sk.s, &a.ct, &a.m) + ps.nu(&sk.s, &b.ct, &b.m),
    };
    ps.expect(&sk, &r, &m, &bound, "linear operation")?;
    // identities with the empty ciphertext
    let z = Ciphertext::zero(&ps.par);
    match op {
        0 => {
            same_parts(&ps, &(&a.ct + &z), &a.ct, "a + empty")?;
            same_parts(&ps, &(&z + &a.ct), &a.ct, "empty + a")?;
            let (mut x, mut y, mut w) = (z.clone(), a.ct.clone(), z.clone());
            x += &a.ct;
            y += &z;
            w += &z;
            same_parts(&ps, &x, &a.ct, "empty += a")?;
            same_parts(&ps, &y, &a.ct, "a += empty")?;
            same_parts(&ps, &(z.clone() + &a.ct), &a.ct, "owned empty + a")?;
            same_parts(&ps, &(a.ct.clone() + &z), &a.ct, "owned a + empty")?;
            ensure!(w.is_empty() && (&z + &z).is_empty(), "empty + empty");
        }
        1 => {
            same_parts(&ps, &(&a.ct - &z), &a.ct, "a - empty")?;
            same_parts(&ps, &(&z - &a.ct), &-&a.ct, "empty - a")?;
            let (mut x, mut y, mut w) = (z.clone(), a.ct.clone(), z.clone());
            x -= &a.ct;
            y -= &z;
            w -= &z;
            same_parts(&ps, &x, &-&a.ct, "empty -= a")?;
            same_parts(&ps, &y, &a.ct, "a -= empty")?;
            same_parts(&ps, &(z.clone() - &a.ct), &-&a.ct, "owned empty - a")?;
            same_parts(&ps, &(a.ct.clone() - &z), &a.ct, "owned a - empty")?;
            ensure!(w.is_empty() && (&z - &z).is_empty(), "empty - empty");
        }
        _ => ensure!((-&z).is_empty() && (-z.clone()).is_empty(), "- empty"),
    }
    // a result of an operation must never travel as if it were fresh
    let back = Ciphertext::from_bytes(&r.to_bytes(), &ps.par).ctx("from_bytes")?;
    same_parts(&ps, &back, &r, "after serialisation")?;
    Ok(())
}

fn b05_pt(g: &mut Gen) -> Res<()> {
    let op = g.below(4);
    let depth = if op == 3 && g.bool() { 1 } else { 0 };
    let ps = params(g, &Spec { reserve: 10, depth, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let lv: Vec<usize> = (0..ps.levels()).filter(|l| (&ps.t << 3u32) < *ps.ql(*l)).collect();
    let l = *g.pick(&lv);
    let lim = ps.nu_max(l);
    if lim < BigUint::from(4u32) {
        g.discarded = true;
        return Ok(());
    }
    let pm = if op == 3 && g.bool() { ps.msg_small(g, 3) } else { ps.msg(g) };
    let room = if op == 3 { &lim / (ps.l1(&pm) + 1u32) } else { &lim - 2u32 };
    let a = some_ct(g, &ps, &sk, l, None, &if room > BigUint::one() { room - 1u32 } else { BigUint::zero() })?;
    let pt = ps.pt(&pm, l)?;
    g.note(format!("{} level={l} parts={} op={op} {}", ps.desc(), a.ct.len(), a.kind));
    if nonzero(&a.m) && nonzero(&pm) {
        g.hit();
    }
    let (a0, p0) = (a.ct.clone(), pt.clone());
    let r = match op {
        0 => {
            let mut x = a.ct.clone();
            x += &pt;
            agree(&ps, vec![("&a + &p", &a.ct + &pt), ("a + &p", a.ct.clone() + &pt), ("&p + &a", &pt + &a.ct), ("a += &p", x)])?
        }
        1 => {
            let mut x = a.ct.clone();
            x -= &pt;
            agree(&ps, vec![("&a - &p", &a.ct - &pt), ("a - &p", a.ct.clone() - &pt), ("a -= &p", x)])?
        }
        2 => &pt - &a.ct,
        _ => {
            let mut x = a.ct.clone();
            x *= &pt;
            agree(&ps, vec![("&a * &p", &a.ct * &pt), ("a * &p", a.ct.clone() * &pt), ("a *= &p", x)])?
        }
    };
    ensure!(a.ct == a0 && pt == p0, "an operand changed");
    ensure_eq!(r.len(), a.ct.len(), "number of parts");
    let (pa, pr) = (ps.phase(&sk.s, &a.ct), ps.phase(&sk.s, &r));
    let q = ps.ql(l);
    let nu = ps.nu(&sk.s, &a.ct, &a.m);
    let (m, bound) = match op {
        0 => (ps.add_t(&a.m, &pm), &nu + 1u32),
        1 => (ps.sub_t(&a.m, &pm), &nu + 1u32),
        2 => (ps.sub_t(&pm, &a.m), &nu + 2u32),
        _ => (ps.mul_t(&a.m, &pm), ps.l1(&pm) * &nu + 1u32),
    };
    let ep: Vec<BigUint> = if op == 3 {
        ps.lift(l, &ps.rmul(l, &ps.rows_u(l, &pa), &ps.rows_u(l, &pm)))
    } else {
        let enc = ps.enc(l, &pm);
        (0..ps.n)
            .map(|j| match op {
                0 => (&pa[j] + &enc[j]) % q,
                1 => (&pa[j] + q - &enc[j]) % q,
                _ => (&enc[j] + q - &pa[j]) % q,
            })
            .collect()
    };
    ensure_eq!(pr, ep, "phase of the result");
    ps.expect(&sk, &r, &m, &bound, "plaintext operation")?;
    let back = Ciphertext::from_bytes(&r.to_bytes(), &ps.par).ctx("from_bytes")?;
    same_parts(&ps, &back, &r, "after serialisation")?;
    Ok(())
}

/// A chain of in-place linear operations tracked by the exact model.
fn b05_chain(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { reserve: 24, qmin: 16, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let lv: Vec<usize> = (0..ps.levels()).filter(|l| ps.ok(*l, &(ps.nu_pk(*l, sk.s1) + 16u32))).collect();
    if lv.is_empty() {
        g.discarded = true;
        return Ok(());
    }
    let l = *g.pick(&lv);
    let mut cur = some_ct(g, &ps, &sk, l, Some(2), &BigUint::from(ps.eb()))?;
    g.note(format!("{} level={l}", ps.desc()));
    g.hit();
    let steps = g.range(1, 12);
    for _ in 0..steps {
        match g.below(6) {
            0 => {
                let b = some_ct(g, &ps, &sk, l, Some(2), &BigUint::from(ps.eb()))?;
                cur.ct += &b.ct;
                cur.m = ps.add_t(&cur.m, &b.m);
            }
            1 => {
                let b = some_ct(g, &ps, &sk, l, Some(2), &BigUint::from(ps.eb()))?;
                cur.ct -= &b.ct;
                cur.m = ps.sub_t(&cur.m, &b.m);
            }
            2 => {
                let m = ps.msg(g);
                cur.ct += &ps.pt(&m, l)?;
                cur.m = ps.add_t(&cur.m, &m);
            }
            3 => {
                let m = ps.msg(g);
                cur.ct -= &ps.pt(&m, l)?;
                cur.m = ps.sub_t(&cur.m, &m);
            }
            4 => {
                cur.ct = -cur.ct;
                cur.m = ps.neg_t(&cur.m);
            }
            _ => {
                let m = ps.msg_small(g, 2);
                cur.ct *= &ps.pt(&m, l)?;
                cur.m = ps.mul_t(&cur.m, &m);
            }
        }
        let nu = ps.nu(&sk.s, &cur.ct, &cur.m);
        if !ps.ok(l, &nu) {
            break;
        }
        ps.expect(&sk, &cur.ct, &cur.m, &nu, "chain")?;
        if g.chance(1, 4) {
            cur.ct = Ciphertext::from_bytes(&cur.ct.to_bytes(), &ps.par).ctx("from_bytes")?;
        }
    }
    Ok(())
}

#[allow(unused)]
fn unused(_: &BfvParameters) {}
