//! B18, B19: multiparty key generation, decryption, key switching and
//! relinearisation keys.
use crate::choice::*;
use crate::model::*;
use crate::num;
use crate::p_ops::{fit_levels, sane, zmul};
use crate::runner::*;
use fhe::bfv::{Ciphertext, Encoding, Multiplicator, Plaintext, PublicKey, RelinearizationKey, SecretKey};
use fhe::mbfv::{
    Aggregate, AggregateIter, CommonRandomPoly, DecryptionShare, PublicKeyShare, PublicKeySwitchShare, RelinKeyGenerator, RelinKeyShare, SecretKeySwitchShare,
    round::{R1, R1Aggregated, R2},
};
use fhe_math::rq::{NttShoup, Poly};
use fhe_traits::{DeserializeParametrized, DeserializeWithContext, FheDecoder, FheDecrypter, FheEncrypter, Serialize};
use ndarray::Array2;
use num_bigint::BigUint;
use num_traits::Zero;
use prost::Message;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "B18",
            rule: "a case draws parameters, 1..8 parties with library or extreme key shares, a level, a two-part ciphertext (fresh, public-key, synthetic with noise up to the limit, arbitrary, switched or computed) and an order of the shares; non-trivial = at least two parties",
            subs: vec![
                sub("public_key", 2_250, 60_000, b18_pk),
                sub("decrypt", 6_000, 150_000, b18_decrypt),
                sub("secret_switch", 3_750, 90_000, b18_sks),
                sub("public_switch", 3_000, 75_000, b18_pks),
                sub("large", 300, 6_000, b18_large),
                sub("reject", 2_250, 45_000, b18_reject),
            ],
        },
        Prop {
            id: "B19",
            rule: "a case draws parameters with at least two moduli, 1..6 parties, common randomness and an order of the shares, runs both rounds, and examines the key row by row, as a relinearisation key, or inside a multiplication; non-trivial = at least two parties",
            subs: vec![
                sub("rows", 1_400, 40_000, b19_rows),
                sub("relinearise", 2_400, 80_000, b19_relin),
                sub("multiply", 1_400, 40_000, b19_multiply),
                sub("reject", 1_400, 30_000, b19_reject),
            ],
        },
    ]
}

// ------------------------------------------------------------------ helpers

pub struct Party {
    pub keys: Vec<Sk>,
    /// the summed secret
    pub sum: Sk,
}
impl Party {
    pub fn p(&self) -> u64 {
        self.keys.len() as u64
    }
}
pub fn parties(g: &mut Gen, ps: &Ps, max: usize) -> Res<Party> {
    let p = if g.chance(1, 8) { 1 } else { g.range(2, max) };
    parties_n(g, ps, p)
}
pub fn parties_n(g: &mut Gen, ps: &Ps, p: usize) -> Res<Party> {
    let keys = (0..p).map(|_| Sk::gen_(g, ps)).collect::<Res<Vec<_>>>()?;
    let s: Vec<i64> = (0..ps.n).map(|j| keys.iter().map(|k| k.s[j]).sum()).collect();
    let sum = Sk::wrap(sk_from(&ps.par, &s)?);
    Ok(Party { keys, sum })
}
fn order(g: &mut Gen, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = g.usize_below(i + 1);
        v.swap(i, j);
    }
    v
}
fn seeds(g: &mut Gen, n: usize) -> Vec<u64> {
    let s = g.seed();
    (0..n as u64).map(|i| s.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(i + 1)).collect()
}
fn rng(s: u64) -> ChaCha8Rng {
    ChaCha8Rng::seed_from_u64(s)
}
/// Noise of a joint public key encryption at level l.
fn nu_pk(ps: &Ps, l: usize, p: u64, s1: u64) -> BigUint {
    let u1 = ps.n as u128 * ps.eb() as u128;
    let mut e = p as u128 * ps.eb() as u128 * u1 + ps.eb() as u128 + ps.eb() as u128 * s1 as u128;
    if l > 0 {
        e += u1 * (1 + s1 as u128);
    }
    BigUint::from(e + 1)
}
fn spec() -> Spec {
    Spec { log_n: (3, 5), k: (1, 5), reserve: 34, qmin: 20, ..Default::default() }
}
/// Aggregated public key, from shares computed with the given seeds and taken in the given order.
fn joint_pk(pt: &Party, crp: &CommonRandomPoly, sd: &[u64], ord: &[usize]) -> Res<PublicKey> {
    let shares = ord.iter().map(|i| PublicKeyShare::new(&pt.keys[*i].sk, crp.clone(), &mut rng(sd[*i])).ctx("public key share")).collect::<Res<Vec<_>>>()?;
    PublicKey::from_shares(shares).ctx("aggregate public key")
}
fn pk_ct(ps: &Ps, pk: &PublicKey) -> Res<Ciphertext> {
    let c = fhe::proto::bfv::PublicKey::decode(pk.to_bytes().as_slice()).ctx("decode")?.c.ok_or("no ciphertext")?;
    Ciphertext::from_bytes(&c.encode_to_vec(), &ps.par).ctx("public key ciphertext")
}
pub fn joint_decrypt(pt: &Party, ct: &Arc<Ciphertext>, sd: &[u64], ord: &[usize]) -> Res<Plaintext> {
    ord.iter().map(|i| DecryptionShare::new(&pt.keys[*i].sk, ct, &mut rng(sd[*i]))).aggregate::<Plaintext>().ctx("joint decryption")
}
/// A two-part ciphertext under the summed key with its message and true noise; `None`
/// as message for an arbitrary one.
fn some_joint_ct(g: &mut Gen, ps: &Ps, pt: &Party, l: usize, room: &BigUint) -> Res<(Option<Vec<BigUint>>, Ciphertext, &'static str)> {
    Ok(match g.weighted(&[5, 2, 2, 2, 2]) {
        0 => {
            let c = some_ct(g, ps, &pt.sum, l, Some(2), room)?;
            (Some(c.m), c.ct, c.kind)
        }
        1 => {
            let m = ps.msg(g);
            let crp = CommonRandomPoly::new(&ps.par, &mut g.rng()).ctx("crp")?;
            let (sd, ord) = (seeds(g, pt.keys.len()), order(g, pt.keys.len()));
            let pk = joint_pk(pt, &crp, &sd, &ord)?;
            let ct = pk.try_encrypt(&ps.pt(&m, l)?, &mut g.rng()).ctx("encrypt")?;
            (Some(m), ct, "joint public key")
        }
        2 => {
            // switched from the level above
            let top = g.range(0, l);
            let c = some_ct(g, ps, &pt.sum, top, Some(2), &BigUint::from(ps.eb()))?;
            let mut ct = c.ct;
            ct.switch_to_level(l).ctx("switch")?;
            (Some(c.m), ct, "switched")
        }
        3 => {
            let a = some_ct(g, ps, &pt.sum, l, Some(2), &(room >> 2u32))?;
            let b = some_ct(g, ps, &pt.sum, l, Some(2), &(room >> 2u32))?;
            let m = ps.add_t(&a.m, &b.m);
            (Some(m), &a.ct + &b.ct, "sum")
        }
        _ => {
            let permit = g.bool();
            let polys = (0..2)
                .map(|_| {
                    let r = ps.random_rows(g, l);
                    ps.poly(l, &r, permit)
                })
                .collect::<Res<Vec<_>>>()?;
            (None, Ciphertext::new(polys, &ps.par).ctx("ciphertext")?, "arbitrary")
        }
    })
}

// ------------------------------------------------------------------ B18

fn b18_pk(g: &mut Gen) -> Res<()> {
    let ps = params(g, &spec())?;
    let pt = parties(g, &ps, 8)?;
    let p = pt.keys.len();
    let l = *g.pick(&fit_levels(&ps));
    g.note(format!("{} level={l} parties={p}", ps.desc()));
    if p >= 2 {
        g.hit();
    }
    let crp = CommonRandomPoly::new(&ps.par, &mut g.rng()).ctx("crp")?;
    let (sd, ord) = (seeds(g, p), order(g, p));
    let pk = joint_pk(&pt, &crp, &sd, &ord)?;
    let pk2 = joint_pk(&pt, &crp, &sd, &(0..p).collect::<Vec<_>>())?;
    ensure!(pk == pk2, "the aggregated public key depends on the order of the shares");
    // the key encrypts zero under the summed secret
    let c = pk_ct(&ps, &pk)?;
    sane(&ps, &c, 0, 2, "aggregated public key")?;
    let zero = vec![BigUint::zero(); ps.n];
    let e = ps.dist(0, &ps.phase(&pt.sum.s, &c), &zero);
    let b = BigUint::from(p as u64 * ps.eb());
    ensure!(e <= b, "the aggregated public key has an error of {e}, more than {b}");
    // (3/8)^256 bounds the chance of an honest all-zero error
    if ps.n * p >= 256 {
        ensure!(!e.is_zero(), "the aggregated public key carries no noise");
    }
    // every share carries its own error
    if ps.n >= 32 {
        for (i, k) in pt.keys.iter().enumerate() {
            let one = PublicKey::from_shares([PublicKeyShare::new(&k.sk, crp.clone(), &mut rng(sd[i])).ctx("share")?]).ctx("single share")?;
            let e = ps.dist(0, &ps.phase(&k.s, &pk_ct(&ps, &one)?), &zero);
            ensure!(e <= BigUint::from(ps.eb()) && !e.is_zero(), "the share of one party has error {e}");
        }
    }
    let back = PublicKey::from_bytes(&pk.to_bytes(), &ps.par).ctx("public key from bytes")?;
    ensure!(back == pk, "the aggregated public key changes when serialised");
    let m = ps.msg(g);
    let key = if g.bool() { &pk } else { &back };
    let ct = key.try_encrypt(&ps.pt(&m, l)?, &mut g.rng()).ctx("encrypt")?;
    sane(&ps, &ct, l, 2, "joint encryption")?;
    let bound = nu_pk(&ps, l, p as u64, pt.sum.s1);
    ps.expect(&pt.sum, &ct, &m, &bound, "encryption under the aggregated key")?;
    if ps.ok(l, &(bound + p as u64 * ps.eb())) {
        g.label("decrypts jointly");
        let (sd, ord) = (seeds(g, p), order(g, p));
        let d = joint_decrypt(&pt, &Arc::new(ct), &sd, &ord)?;
        ensure_eq!(ps.coeffs(&d, l)?, m, "joint decryption of an encryption under the aggregated key");
    }
    Ok(())
}

fn b18_decrypt(g: &mut Gen) -> Res<()> {
    // tight parameters included: only the room for the shares' noise is needed
    let sp = if g.bool() { spec() } else { Spec { log_n: (3, 5), k: (1, 5), reserve: 12, ..Default::default() } };
    let ps = params(g, &sp)?;
    let pt = parties(g, &ps, 8)?;
    let p = pt.keys.len();
    let l = if g.bool() { *g.pick(&fit_levels(&ps)) } else { g.usize_below(ps.levels()) };
    let share = BigUint::from(p as u64 * ps.eb());
    let max = ps.nu_max(l);
    let room = if max > share { &max - &share } else { BigUint::zero() };
    let room = if room.is_zero() { room } else { room - 1u32 };
    let (m, ct, kind) = some_joint_ct(g, &ps, &pt, l, &room)?;
    g.note(format!("{} level={l} parties={p} {kind}", ps.desc()));
    g.label(kind);
    if p >= 2 {
        g.hit();
    }
    let ph = ps.phase(&pt.sum.s, &ct);
    let ct = Arc::new(ct);
    let before = (*ct).clone();
    let (sd, ord) = (seeds(g, p), order(g, p));
    let d = joint_decrypt(&pt, &ct, &sd, &ord)?;
    ensure!(*ct == before, "joint decryption changed the ciphertext");
    ensure_eq!(d.level(), l, "level of the joint decryption");
    let got = ps.coeffs(&d, l)?;
    let d2 = joint_decrypt(&pt, &ct, &sd, &(0..p).collect::<Vec<_>>())?;
    ensure!(d == d2, "joint decryption depends on the order of the shares");
    // exact: the rounding of t/Q (phase + delta) for some |delta| <= sum of the shares' errors
    let q = ps.ql(l);
    for (j, c) in got.iter().enumerate() {
        ensure!(*c < ps.t, "coefficient {j} of a joint decryption is not reduced: {c}");
        let lo = ps.dec1(l, &((&ph[j] + q - (&share % q)) % q));
        let hi = ps.dec1(l, &((&ph[j] + &share) % q));
        let first = lo.1.filter(|b| (b + 1u32) % &ps.t == lo.0).unwrap_or(lo.0);
        let last = hi.1.filter(|b| *b == (&hi.0 + 1u32) % &ps.t).unwrap_or(hi.0);
        let span = (&last + &ps.t - &first) % &ps.t;
        let at = (c + &ps.t - &first) % &ps.t;
        if (&share << 1u32) < *q && (&ps.t << 2u32) < *q {
            ensure!(at <= span, "coefficient {j} of a joint decryption is {c}, outside [{first}, {last}] (phase {} modulo {q}, t={})", ph[j], ps.t);
        }
    }
    if let Some(m) = m {
        let nu = ps.nu(&pt.sum.s, &ct, &m);
        if ps.ok(l, &(nu + &share)) {
            g.label("exact message");
            ensure_eq!(got, m, "joint decryption of a ciphertext within the noise budget ({kind})");
            let alone = pt.sum.sk.try_decrypt(&ct).ctx("decrypt")?;
            ensure_eq!(ps.coeffs(&alone, l)?, m, "decryption under the summed secret");
            ensure!(d == alone, "joint decryption differs from decryption under the summed secret");
            if ps.simd {
                let e = Encoding::simd_at_level(l);
                ensure_eq!(Vec::<u64>::try_decode(&d, e.clone()).ctx("slots")?, Vec::<u64>::try_decode(&ps.pt(&m, l)?.clone(), Encoding::poly_at_level(l)).and_then(|_| Vec::<u64>::try_decode(&alone, e)).ctx("slots")?, "slots of a joint decryption");
            }
            // the plaintext is usable
            if ps.ok(l, &ps.nu_sk()) {
                let again: Ciphertext = pt.sum.sk.try_encrypt(&d, &mut g.rng()).ctx("encrypt a joint decryption")?;
                ps.expect(&pt.sum, &again, &m, &ps.nu_sk(), "re-encryption of a joint decryption")?;
            }
        }
    }
    Ok(())
}

fn b18_sks(g: &mut Gen) -> Res<()> {
    let ps = params(g, &spec())?;
    let pin = parties(g, &ps, 8)?;
    let p = pin.keys.len();
    let pout = parties_n(g, &ps, p)?;
    let l = *g.pick(&fit_levels(&ps));
    let room = ps.nu_max(l) >> 1u32;
    let (m, ct, kind) = some_joint_ct(g, &ps, &pin, l, &room)?;
    g.note(format!("{} level={l} parties={p} {kind}", ps.desc()));
    if p >= 2 {
        g.hit();
    }
    let ct = Arc::new(ct);
    let before = (*ct).clone();
    let (sd, ord) = (seeds(g, p), order(g, p));
    let run = |ord: &[usize]| -> Res<Ciphertext> {
        ord.iter().map(|i| SecretKeySwitchShare::new(&pin.keys[*i].sk, &pout.keys[*i].sk, ct.clone(), &mut rng(sd[*i]))).aggregate::<Ciphertext>().ctx("switch")
    };
    let out = run(&ord)?;
    ensure!(out == run(&(0..p).collect::<Vec<_>>())?, "secret-key switching depends on the order of the shares");
    ensure!(*ct == before, "secret-key switching changed its input");
    sane(&ps, &out, l, 2, "switched ciphertext")?;
    let share = BigUint::from(p as u64 * ps.eb());
    let d = ps.dist(l, &ps.phase(&pin.sum.s, &ct), &ps.phase(&pout.sum.s, &out));
    ensure!(d <= share, "secret-key switching moves the phase by {d}, more than the shares' errors {share}");
    if ps.n * p >= 256 {
        ensure!(!d.is_zero(), "the shares of a secret-key switch carry no noise");
    }
    if let Some(m) = m {
        let nu = ps.nu(&pin.sum.s, &ct, &m) + &share;
        ps.expect(&pout.sum, &out, &m, &nu, "switched ciphertext")?;
        if ps.ok(l, &(nu + &share)) {
            g.label("decrypts jointly");
            let (sd, ord) = (seeds(g, p), order(g, p));
            let d = joint_decrypt(&pout, &Arc::new(out), &sd, &ord)?;
            ensure_eq!(ps.coeffs(&d, l)?, m, "joint decryption after secret-key switching");
        }
    }
    Ok(())
}

fn b18_pks(g: &mut Gen) -> Res<()> {
    let ps = params(g, &spec())?;
    let pin = parties(g, &ps, 8)?;
    let p = pin.keys.len();
    // the receiver: a single key, or another group with an aggregated key
    let single = g.bool();
    let pout = if single { parties_n(g, &ps, 1)? } else { parties(g, &ps, 4)? };
    let po = pout.keys.len();
    let pk = if single && g.bool() {
        PublicKey::new(&pout.keys[0].sk, &mut g.rng())
    } else {
        let crp = CommonRandomPoly::new(&ps.par, &mut g.rng()).ctx("crp")?;
        let (sd, ord) = (seeds(g, po), order(g, po));
        joint_pk(&pout, &crp, &sd, &ord)?
    };
    let l = *g.pick(&fit_levels(&ps));
    let room = ps.nu_max(l) >> 1u32;
    let (m, ct, kind) = some_joint_ct(g, &ps, &pin, l, &room)?;
    g.note(format!("{} level={l} parties={p} receivers={po} {kind}", ps.desc()));
    if p >= 2 {
        g.hit();
    }
    let (sd, ord) = (seeds(g, p), order(g, p));
    let before = (ct.clone(), pk.clone());
    let run = |ord: &[usize]| -> Res<Ciphertext> { ord.iter().map(|i| PublicKeySwitchShare::new(&pin.keys[*i].sk, &pk, &ct, &mut rng(sd[*i]))).aggregate::<Ciphertext>().ctx("switch") };
    let out = run(&ord)?;
    ensure!(out == run(&(0..p).collect::<Vec<_>>())?, "public-key switching depends on the order of the shares");
    ensure!(ct == before.0 && pk == before.1, "public-key switching changed its input");
    sane(&ps, &out, l, 2, "switched ciphertext")?;
    ensure!(ps.parts(&out)[1] != ps.parts(&ct)[1] || ps.ql(l).bits() < 30, "public-key switching kept the second part");
    let share = nu_pk(&ps, l, po as u64, pout.sum.s1) * p as u64;
    let d = ps.dist(l, &ps.phase(&pin.sum.s, &ct), &ps.phase(&pout.sum.s, &out));
    ensure!(d <= share, "public-key switching moves the phase by {} bits, more than the worst case of {} bits", d.bits(), share.bits());
    if let Some(m) = m {
        let nu = ps.nu(&pin.sum.s, &ct, &m) + &share;
        ps.expect(&pout.sum, &out, &m, &nu, "switched ciphertext")?;
        if ps.ok(l, &(nu + po as u64 * ps.eb())) {
            g.label("decrypts jointly");
            let (sd, ord) = (seeds(g, po), order(g, po));
            let d = joint_decrypt(&pout, &Arc::new(out), &sd, &ord)?;
            ensure_eq!(ps.coeffs(&d, l)?, m, "joint decryption after public-key switching");
        }
    }
    Ok(())
}

/// Realistic degrees: encryption, decryption and both switches, judged by messages only.
fn b18_large(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (9, 12), k: (1, 4), reserve: 50, qmin: 50, ..Default::default() })?;
    let p = g.range(2, 12);
    let mk = |g: &mut Gen| -> Vec<SecretKey> { (0..p).map(|_| SecretKey::random(&ps.par, &mut g.rng())).collect() };
    let (a, b) = (mk(g), mk(g));
    let l = ps.top_usable(&pow2(46)).into_iter().next_back();
    let Some(lmax) = l else {
        g.discarded = true;
        return Ok(());
    };
    let l = g.range(0, lmax);
    g.note(format!("{} level={l} parties={p}", ps.desc()));
    g.hit();
    let crp = CommonRandomPoly::new(&ps.par, &mut g.rng()).ctx("crp")?;
    let mut r = g.rng();
    let mut pk_of = |v: &[SecretKey]| -> Res<PublicKey> { v.iter().map(|s| PublicKeyShare::new(s, crp.clone(), &mut r)).aggregate::<PublicKey>().ctx("aggregate") };
    let (pka, pkb) = (pk_of(&a)?, pk_of(&b)?);
    let m = ps.msg(g);
    let mut r = g.rng();
    let ct = pka.try_encrypt(&ps.pt(&m, l)?, &mut r).ctx("encrypt")?;
    let ct = Arc::new(ct);
    let mut dec = |v: &[SecretKey], ct: &Arc<Ciphertext>, what: &str| -> Res<()> {
        let d: Plaintext = v.iter().map(|s| DecryptionShare::new(s, ct, &mut r)).aggregate().ctx("joint decryption")?;
        ensure!(ps.coeffs(&d, l)? == m, "{what}: joint decryption returns another message");
        Ok(())
    };
    dec(&a, &ct, "encryption under the aggregated key")?;
    let mut r2 = g.rng();
    let x: Ciphertext = a.iter().zip(&b).map(|(s, t)| SecretKeySwitchShare::new(s, t, ct.clone(), &mut r2)).aggregate().ctx("secret-key switch")?;
    dec(&b, &Arc::new(x), "secret-key switch")?;
    let x: Ciphertext = a.iter().map(|s| PublicKeySwitchShare::new(s, &pkb, &ct, &mut r2)).aggregate().ctx("public-key switch")?;
    dec(&b, &Arc::new(x), "public-key switch")
}

/// Another parameter set for mismatches, differing in one aspect.
pub fn other_params(g: &mut Gen, ps: &Ps) -> Res<(Ps, &'static str)> {
    let mut b = fhe::bfv::BfvParametersBuilder::new();
    let (mut n, mut q, mut t, mut var) = (ps.n, ps.q.clone(), ps.t.clone(), ps.var);
    let what = match g.below(5) {
        0 => {
            var = if var == 10 { 11 } else { 10 };
            "variance"
        }
        1 => {
            for c in [3u64, 2, 5, 17, 4] {
                let c = BigUint::from(c);
                if c != t && c < *ps.ql(0) && q.iter().all(|m| num::gcd(*m, (&c % *m).to_u64_digits().first().copied().unwrap_or(0)) == 1) {
                    t = c;
                    break;
                }
            }
            "plaintext modulus"
        }
        2 if q.len() > 1 => {
            q.pop();
            "one modulus fewer"
        }
        3 => {
            n *= 2;
            q = vec![];
            let mut i = 0;
            while q.len() < ps.q.len() {
                if let Some(x) = num::ntt_prime(61, 2 * n as u64, i) {
                    q.push(x);
                }
                i += 1;
            }
            "degree"
        }
        _ => {
            let mut i = 0;
            loop {
                if let Some(x) = num::ntt_prime(62, 2 * n as u64, i) {
                    if !q.contains(&x) {
                        let j = g.usize_below(q.len());
                        q[j] = x;
                        break;
                    }
                }
                i += 1;
            }
            "one modulus replaced"
        }
    };
    b.set_degree(n).set_moduli(&q).set_variance(var);
    match num_traits::ToPrimitive::to_u64(&t) {
        Some(tu) => b.set_plaintext_modulus(tu),
        None => b.set_plaintext_modulus_biguint(t.clone()),
    };
    match b.build_arc() {
        Ok(par) => Ok((Ps::from_par(par, var), what)),
        Err(_) => {
            // too little room, or t divides by the new modulus: change the variance instead
            let var = if ps.var == 10 { 11 } else { 10 };
            let mut b = fhe::bfv::BfvParametersBuilder::new();
            b.set_degree(ps.n).set_moduli(&ps.q).set_variance(var);
            match ps.tu {
                Some(tu) => b.set_plaintext_modulus(tu),
                None => b.set_plaintext_modulus_biguint(ps.t.clone()),
            };
            Ok((Ps::from_par(b.build_arc().ctx("other parameters")?, var), "variance"))
        }
    }
}
/// A call that must return an error.
fn refused<T>(what: &str, f: impl FnOnce() -> fhe::Result<T>) -> Res<()> {
    match no_panic(f) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{what} was accepted")),
        Err(p) => Err(format!("{what} panicked instead of returning an error: {p}")),
    }
}

fn b18_reject(g: &mut Gen) -> Res<()> {
    let ps = params(g, &spec())?;
    let (other, how) = other_params(g, &ps)?;
    let pt = parties(g, &ps, 4)?;
    let k = &pt.keys[0].sk;
    let ko = SecretKey::random(&other.par, &mut g.rng());
    let mut r = g.rng();
    let l = g.usize_below(ps.levels());
    g.note(format!("{} level={l} other parameters differ in: {how}", ps.desc()));
    g.hit();
    // nothing to aggregate
    refused("aggregating no public key shares", || PublicKey::from_shares(Vec::<PublicKeyShare>::new()))?;
    refused("aggregating no decryption shares", || Plaintext::from_shares(Vec::<DecryptionShare>::new()))?;
    refused("aggregating no secret-key switching shares", || Ciphertext::from_shares(Vec::<SecretKeySwitchShare>::new()))?;
    refused("aggregating no public-key switching shares", || Ciphertext::from_shares(Vec::<PublicKeySwitchShare>::new()))?;
    // ciphertexts without exactly two parts
    let pk = PublicKey::new(k, &mut r);
    for parts in [0usize, 3, 4] {
        let ct = if parts == 0 {
            Ciphertext::zero(&ps.par)
        } else {
            let polys = (0..parts)
                .map(|_| {
                    let x = ps.random_rows(g, l);
                    ps.poly(l, &x, true)
                })
                .collect::<Res<Vec<_>>>()?;
            Ciphertext::new(polys, &ps.par).ctx("ciphertext")?
        };
        let a = Arc::new(ct.clone());
        refused(&format!("joint decryption of a ciphertext of {parts} parts"), || DecryptionShare::new(k, &a, &mut r))?;
        refused(&format!("secret-key switching of a ciphertext of {parts} parts"), || SecretKeySwitchShare::new(k, k, a.clone(), &mut r))?;
        refused(&format!("public-key switching of a ciphertext of {parts} parts"), || PublicKeySwitchShare::new(k, &pk, &ct, &mut r))?;
        // an error among the shares is an error of the aggregate
        let good = Arc::new(fresh(g, &ps, &pt.keys[0], l, vec![BigUint::zero(); ps.n])?.ct);
        let mixed = vec![DecryptionShare::new(k, &good, &mut r), DecryptionShare::new(k, &a, &mut r)];
        refused("aggregating a failed share", || Plaintext::from_shares(mixed))?;
    }
    // other parameters
    let m0 = vec![BigUint::zero(); other.n];
    let lo = g.usize_below(other.levels());
    let sko = Sk::wrap(ko);
    let cto = Arc::new(fresh(g, &other, &sko, lo, m0)?.ct);
    let pko = PublicKey::new(&sko.sk, &mut r);
    let ct = Arc::new(fresh(g, &ps, &pt.keys[0], l, vec![BigUint::zero(); ps.n])?.ct);
    refused("a decryption share for a ciphertext of other parameters", || DecryptionShare::new(k, &cto, &mut r))?;
    refused("a secret-key switch of a ciphertext of other parameters", || SecretKeySwitchShare::new(k, k, cto.clone(), &mut r))?;
    refused("a secret-key switch between keys of other parameters", || SecretKeySwitchShare::new(k, &sko.sk, ct.clone(), &mut r))?;
    refused("a secret-key switch from keys of other parameters", || SecretKeySwitchShare::new(&sko.sk, k, ct.clone(), &mut r))?;
    refused("a public-key switch of a ciphertext of other parameters", || PublicKeySwitchShare::new(k, &pk, &cto, &mut r))?;
    refused("a public-key switch to a key of other parameters", || PublicKeySwitchShare::new(k, &pko, &ct, &mut r))?;
    refused("a public-key switch by a key of other parameters", || PublicKeySwitchShare::new(&sko.sk, &pk, &ct, &mut r))?;
    // common randomness of another ring
    refused("a common random polynomial beyond the last level", || CommonRandomPoly::new_leveled(&ps.par, ps.levels() + g.usize_below(3), &mut r))?;
    let crp = CommonRandomPoly::new(&ps.par, &mut r).ctx("crp")?;
    if ps.levels() > 1 {
        let low = CommonRandomPoly::new_leveled(&ps.par, g.range(1, ps.levels() - 1), &mut r).ctx("crp")?;
        refused("a public key share over a common random polynomial of another level", || PublicKeyShare::new(k, low, &mut r))?;
    }
    let crpo = CommonRandomPoly::new(&other.par, &mut r).ctx("crp")?;
    if other.q != ps.q || other.n != ps.n {
        refused("a public key share over a common random polynomial of other parameters", || PublicKeyShare::new(k, crpo.clone(), &mut r))?;
    }
    // shares that do not belong together
    let pks = |s: &SecretKey, c: &CommonRandomPoly, r: &mut _| PublicKeyShare::new(s, c.clone(), r).ctx("share");
    let crp2 = CommonRandomPoly::new(&ps.par, &mut r).ctx("crp")?;
    let v = vec![pks(k, &crp, &mut r)?, pks(k, &crp2, &mut r)?];
    refused("aggregating public key shares over different common random polynomials", || PublicKey::from_shares(v))?;
    let v = vec![pks(k, &crp, &mut r)?, pks(&sko.sk, &crpo, &mut r)?];
    refused("aggregating public key shares of different parameters", || PublicKey::from_shares(v))?;
    let ct2 = Arc::new(fresh(g, &ps, &pt.keys[0], (l + 1) % ps.levels(), vec![BigUint::zero(); ps.n])?.ct);
    let v = vec![DecryptionShare::new(k, &ct, &mut r).ctx("share")?, DecryptionShare::new(k, &ct2, &mut r).ctx("share")?];
    refused("aggregating decryption shares of different ciphertexts", || Plaintext::from_shares(v))?;
    let v = vec![DecryptionShare::new(k, &ct, &mut r).ctx("share")?, DecryptionShare::new(&sko.sk, &cto, &mut r).ctx("share")?];
    refused("aggregating decryption shares of different parameters", || Plaintext::from_shares(v))?;
    let v = vec![SecretKeySwitchShare::new(k, k, ct2.clone(), &mut r).ctx("share")?, SecretKeySwitchShare::new(k, k, ct.clone(), &mut r).ctx("share")?];
    refused("aggregating secret-key switching shares of different ciphertexts", || Ciphertext::from_shares(v))?;
    let v = vec![PublicKeySwitchShare::new(k, &pk, &ct, &mut r).ctx("share")?, PublicKeySwitchShare::new(k, &pk, &ct2, &mut r).ctx("share")?];
    refused("aggregating public-key switching shares of different ciphertexts", || Ciphertext::from_shares(v))?;
    let v = vec![PublicKeySwitchShare::new(k, &pk, &ct, &mut r).ctx("share")?, PublicKeySwitchShare::new(&sko.sk, &pko, &cto, &mut r).ctx("share")?];
    refused("aggregating public-key switching shares of different parameters", || Ciphertext::from_shares(v))?;
    // a ciphertext equal in value but held separately is the same ciphertext
    let twin = Arc::new((*ct).clone());
    let v = vec![DecryptionShare::new(k, &ct, &mut r).ctx("share")?, DecryptionShare::new(k, &twin, &mut r).ctx("share")?];
    no_panic(|| Plaintext::from_shares(v)).map_err(|e| format!("equal ciphertexts: {e}"))?.ctx("shares of two copies of one ciphertext")?;
    Ok(())
}

// ------------------------------------------------------------------ B03

/// Centred integers of a residue array, each below `bound` in magnitude.
fn small(ps: &Ps, l: usize, a: &Array2<u64>, bound: u64, what: &str) -> Res<Vec<i64>> {
    ps.lift(l, a)
        .iter()
        .map(|x| {
            let c = num::centered(x, ps.ql(l));
            match num_traits::ToPrimitive::to_i64(&c) {
                Some(y) if y.unsigned_abs() <= bound => Ok(y),
                _ => Err(format!("{what}: coefficient {c} exceeds {bound}")),
            }
        })
        .collect()
}
fn const_key(ps: &Ps, c: i64) -> Res<Sk> {
    let mut s = vec![0; ps.n];
    s[0] = c;
    Ok(Sk::wrap(sk_from(&ps.par, &s)?))
}
/// Solves the symmetric system `m x = b`.
fn solve(mut m: Vec<Vec<f64>>, mut b: Vec<f64>) -> Vec<f64> {
    let n = b.len();
    for c in 0..n {
        let p = (c..n).max_by(|i, j| m[*i][c].abs().total_cmp(&m[*j][c].abs())).unwrap();
        m.swap(c, p);
        b.swap(c, p);
        for r in c + 1..n {
            let f = m[r][c] / m[c][c];
            for k in c..n {
                m[r][k] -= f * m[c][k];
            }
            b[r] -= f * b[c];
        }
    }
    for c in (0..n).rev() {
        for k in c + 1..n {
            b[c] -= m[c][k] * b[k];
        }
        b[c] /= m[c][c];
    }
    b
}
/// The errors of the shares of every multiparty protocol: recovered exactly, with keys
/// and public inputs chosen so that nothing else is left, and pooled over repetitions.
/// The sum of p centred binomial errors is the centred binomial of p times the variance.
pub fn b03_shares(g: &mut Gen) -> Res<()> {
    let p = g.range(1, 3);
    let kind = g.below(5);
    g.hit();
    // distinct seeds for every share, whatever the shrinker does
    let (base, mut used) = (g.seed().wrapping_mul(0x9e37_79b9_7f4a_7c15), 0u64);
    let mut fresh = || -> Vec<u64> {
        used += p as u64;
        (0..p as u64).map(|i| base.wrapping_add(used + i)).collect()
    };
    let name = ["public-key shares", "secret-key switch shares", "decryption shares", "public-key switch shares", "relinearisation shares"][kind as usize];
    g.label(name);
    let mut errs: Vec<(&str, Vec<i64>, usize)> = vec![];
    let mut put = |what: &'static str, v: Vec<i64>, mult: usize| match errs.iter_mut().find(|x| x.0 == what) {
        Some(x) => x.1.extend(v),
        None => errs.push((what, v, mult)),
    };
    let mut pairs: Vec<(i64, i64)> = vec![];
    let var;
    if kind == 4 {
        let ps = params(g, &Spec { log_n: (3, 3), top: 0, k: (6, 10), reserve: 100, qmin: 40, big: false, ..Default::default() })?;
        var = ps.var;
        let (k, n) = (ps.q.len(), ps.n);
        g.note(format!("{} {name} parties={p}", ps.desc()));
        let big = 1i64 << 30;
        let (mut rss, mut df, mut u2, mut un) = (0.0, 0usize, 0.0, 0usize);
        let mut r1cross = [(0.0, 0.0); 2];
        let (mut cross, mut cross_mean, mut cross_n) = (0.0, 0.0, 0usize);
        for _ in 0..3200 / ((k - 1) * n) + 1 {
            // secrets that sum to 0, or to a constant that separates the first error
            let zero = g.bool();
            let mut keys: Vec<Sk> = (0..p - 1).map(|_| const_key(&ps, 0)).collect::<Res<_>>()?;
            keys.push(const_key(&ps, if zero { 0 } else { big })?);
            let sum = const_key(&ps, if zero { 0 } else { big })?;
            let s = sum.s[0];
            let pt = Party { keys, sum };
            let crps = CommonRandomPoly::new_vec(&ps.par, &mut g.rng()).ctx("crps")?;
            let (sd, id) = (fresh(), (0..p).collect::<Vec<_>>());
            let key = protocol(&pt, &crps, &sd, &id, &id)?;
            let ksk = fhe::proto::bfv::RelinearizationKey::decode(key.to_bytes().as_slice()).ctx("decode")?.ksk.ok_or("no key")?;
            let ctx = ps.par.context_at_level(0).ctx("context")?;
            let row = |b: &[u8]| -> Res<Array2<u64>> { Ok(Poly::<NttShoup>::from_bytes(b, ctx).ctx("component")?.into_power_basis().coefficients().to_owned()) };
            let (mut gram, mut rhs, mut ys) = (vec![vec![0.0; n]; n], vec![0.0; n], vec![]);
            let eb = p as u64 * ps.eb();
            let mut round1: [Vec<Vec<i64>>; 2] = [vec![], vec![]];
            for i in 0..k {
                let (c0, mut c1) = (row(&ksk.c0[i])?, row(&ksk.c1[i])?);
                // c0 + s c1 - w s^2 = s e0 + u e1 + e2 + e3
                let w = ps.crts[0].lift((0..k).map(|j| (i == j) as u64));
                let mut ph = ps.phase_rows(&pt.sum.s, &[c0, c1.clone()], 0);
                for r in 0..k {
                    let q = ps.q[r];
                    let f = num_traits::ToPrimitive::to_u64(&(&w % q)).unwrap();
                    ph[(r, 0)] = num::submod(ph[(r, 0)], num::mulmod(f, num::mulmod(s as u64, s as u64, q), q), q);
                }
                let mut y = small(&ps, 0, &ph, 1 << 50, "relinearisation key component")?;
                let mut first = None;
                if !zero {
                    let e0: Vec<i64> = y.iter().map(|x| (x + big / 2).div_euclid(big)).collect();
                    for (x, e) in y.iter_mut().zip(&e0) {
                        *x -= e * big;
                    }
                    ensure!(e0.iter().all(|x| x.unsigned_abs() <= eb), "first-round error out of range: {e0:?}");
                    put("error of the first half of round 1", e0.clone(), p);
                    first = Some(e0);
                    // c1 = s a + e1, with a read from a public key over the same randomness
                    let k0 = const_key(&ps, 0)?;
                    let a = PublicKey::from_shares([PublicKeyShare::new(&k0.sk, crps[i].clone(), &mut g.rng()).ctx("share")?]).ctx("single share")?;
                    let a = ps.parts(&pk_ct(&ps, &a)?).remove(1);
                    c1 = Array2::from_shape_fn((k, n), |(r, c)| num::submod(c1[(r, c)], num::mulmod(s as u64, a[(r, c)], ps.q[r]), ps.q[r]));
                }
                let e1 = small(&ps, 0, &c1, eb, "error of the second half of round 1")?;
                round1[1].push(e1.clone());
                if let Some(e0) = &first {
                    round1[0].push(e0.clone());
                    pairs.extend(e0.iter().copied().zip(e1.iter().copied()));
                }
                for (j, yj) in y.iter().enumerate() {
                    let line: Vec<f64> = (0..n).map(|m| if j >= m { e1[j - m] as f64 } else { -e1[n + j - m] as f64 }).collect();
                    for a in 0..n {
                        for b in 0..n {
                            gram[a][b] += line[a] * line[b];
                        }
                        rhs[a] += line[a] * *yj as f64;
                    }
                    ys.push((line, *yj as f64));
                }
                put("error of the second half of round 1", e1, p);
            }
            for (c, v) in r1cross.iter_mut().zip(&round1) {
                let (t, m) = crate::p_bfv::cross_products(&v.iter().map(|x| x.as_slice()).collect::<Vec<_>>());
                c.0 += t;
                c.1 += m;
            }
            // the round-2 errors are what no small u explains
            let u = solve(gram.clone(), rhs);
            // residuals and design rows summed over the components
            let (mut rsum, mut xsum) = (vec![0.0; n], vec![vec![0.0; n]; n]);
            for (i, (line, y)) in ys.iter().enumerate() {
                let r = y - line.iter().zip(&u).map(|(a, b)| a * b).sum::<f64>();
                rss += r * r;
                cross -= r * r;
                rsum[i % n] += r;
                for (a, b) in xsum[i % n].iter_mut().zip(line) {
                    *a += b;
                }
            }
            // products of the errors of different components, and what the fit leaves of them
            cross += rsum.iter().map(|r| r * r).sum::<f64>();
            cross_mean += n as f64;
            for x in &xsum {
                let z = solve(gram.clone(), x.clone());
                cross_mean -= x.iter().zip(&z).map(|(a, b)| a * b).sum::<f64>();
            }
            cross_n += n * k * (k - 1);
            df += n * (k - 1);
            u2 += u.iter().map(|x| x * x).sum::<f64>();
            un += n;
        }
        let want = 2.0 * (p * var) as f64;
        let got = rss / df as f64;
        ensure!((got - want).abs() < 9.0 * want * (2.0 / df as f64).sqrt(), "the errors of round 2 have variance {got}, expected {want}");
        for (t, m) in r1cross {
            let tol = 12.0 * (p * var) as f64 * f64::sqrt(m);
            // a few trials are not enough for the normal tail
            ensure!(m < 4096.0 || f64::abs(t) < tol, "the round-1 errors of different components are correlated: {t} over {m} products (tolerance {tol})");
        }
        let dev = 9.0 * want * (2.0 * cross_n as f64).sqrt();
        ensure!((cross - want * cross_mean).abs() < dev, "the round-2 errors of different components are correlated: {cross}, expected {} (tolerance {dev})", want * cross_mean);
        let got = u2 / un as f64;
        let want = (p * var) as f64;
        ensure!(got > 0.3 * want && got < 2.0 * want, "the ephemeral secret has variance {got}, expected {want}");
    } else if kind == 2 {
        // a plaintext modulus just below Q shows every bit of the phase
        let n = 1usize << if g.chance(1, 20) { 10 } else { g.range(3, 8) };
        let q = chain(g, n, (1, 3), 20);
        let qq: BigUint = q.iter().map(|x| BigUint::from(*x)).product();
        let t = &qq - 1u32;
        if matches!(t.bits(), 63 | 64) {
            // no such plaintext modulus
            g.discarded = true;
            return Ok(());
        }
        var = g.range(1, 32);
        let mut b = fhe::bfv::BfvParametersBuilder::new();
        b.set_degree(n).set_moduli(&q).set_variance(var);
        match num_traits::ToPrimitive::to_u64(&t) {
            Some(t) => b.set_plaintext_modulus(t),
            None => b.set_plaintext_modulus_biguint(t.clone()),
        };
        let ps = Ps::from_par(b.build_arc().ctx("build parameters")?, var);
        let pt = parties_n(g, &ps, p)?;
        g.note(format!("{} {name} parties={p}", ps.desc()));
        for _ in 0..4096 / n + 1 {
            let a = ps.random_rows(g, 0);
            // c0 = -c1 s
            let z = Array2::zeros(a.raw_dim());
            let c0 = ps.rsub(0, &z, &ps.rmul(0, &a, &ps.sk_rows(0, &pt.sum.s)));
            let ct = Arc::new(Ciphertext::new(vec![ps.poly(0, &c0, true)?, ps.poly(0, &a, true)?], &ps.par).ctx("ciphertext")?);
            let (sd, id) = (fresh(), (0..p).collect::<Vec<_>>());
            let m = ps.coeffs(&joint_decrypt(&pt, &ct, &sd, &id)?, 0)?;
            let e: Vec<i64> = m.iter().map(|x| num_traits::ToPrimitive::to_i64(&num::centered(x, &t)).unwrap_or(i64::MAX)).collect();
            ensure!(e.iter().all(|x| x.unsigned_abs() <= p as u64 * ps.eb()), "error of the decryption shares out of range");
            put("error of the decryption shares", e, p);
        }
    } else {
        let log_n = if g.chance(1, 20) { (10, 11) } else { (3, 8) };
        let ps = params(g, &Spec { log_n, k: (1, 3), reserve: 40, qmin: 30, big: false, ..Default::default() })?;
        var = ps.var;
        let pt = parties_n(g, &ps, p)?;
        let eb = p as u64 * ps.eb();
        g.note(format!("{} {name} parties={p}", ps.desc()));
        for _ in 0..4096 / ps.n + 1 {
            let (sd, id) = (fresh(), (0..p).collect::<Vec<_>>());
            match kind {
                0 => {
                    let crp = CommonRandomPoly::new(&ps.par, &mut g.rng()).ctx("crp")?;
                    let pk = joint_pk(&pt, &crp, &sd, &id)?;
                    let e = ps.phase_rows(&pt.sum.s, &ps.parts(&pk_ct(&ps, &pk)?), 0);
                    put("error of the public-key shares", small(&ps, 0, &e, eb, name)?, p);
                }
                1 => {
                    let out = parties_n(g, &ps, p)?;
                    let l = g.usize_below(ps.levels());
                    let (a, b) = (ps.random_rows(g, l), ps.random_rows(g, l));
                    let ct = Arc::new(Ciphertext::new(vec![ps.poly(l, &a, true)?, ps.poly(l, &b, true)?], &ps.par).ctx("ciphertext")?);
                    let r: Ciphertext = id.iter().map(|i| SecretKeySwitchShare::new(&pt.keys[*i].sk, &out.keys[*i].sk, ct.clone(), &mut rng(sd[*i]))).aggregate().ctx("aggregate")?;
                    let e = ps.rsub(l, &ps.phase_rows(&out.sum.s, &ps.parts(&r), l), &ps.phase_rows(&pt.sum.s, &[a, b], l));
                    put("error of the secret-key switch shares", small(&ps, l, &e, eb, name)?, p);
                }
                _ => {
                    // public keys of 0 and 1 leave the errors alone
                    let shape = g.below(3);
                    let l = g.usize_below(ps.levels());
                    let c = |v: u64| ps.poly(0, &crate::p_bfv::constant_for_level(&ps, l, v), true);
                    let k = Ciphertext::new(vec![c((shape == 1) as u64)?, c((shape == 2) as u64)?], &ps.par).ctx("ciphertext")?;
                    let k = fhe::proto::bfv::PublicKey { c: Some(fhe::proto::bfv::Ciphertext::decode(k.to_bytes().as_slice()).ctx("decode")?) };
                    let pk = PublicKey::from_bytes(&k.encode_to_vec(), &ps.par).ctx("public key from bytes")?;
                    let (a, b) = (ps.random_rows(g, l), ps.random_rows(g, l));
                    let ct = Ciphertext::new(vec![ps.poly(l, &a, true)?, ps.poly(l, &b, true)?], &ps.par).ctx("ciphertext")?;
                    let r: Ciphertext = id.iter().map(|i| PublicKeySwitchShare::new(&pt.keys[*i].sk, &pk, &ct, &mut rng(sd[*i]))).aggregate().ctx("aggregate")?;
                    let r = ps.parts(&r);
                    let h0 = small(&ps, l, &ps.rsub(l, &r[0], &ps.phase_rows(&pt.sum.s, &[a, b], l)), 2 * eb, name)?;
                    let h1 = small(&ps, l, &r[1], 2 * eb, name)?;
                    pairs.extend(h0.iter().copied().zip(h1.iter().copied()));
                    // with a unit the ephemeral secret is added
                    put(if shape == 1 { "mask plus first error of the public-key switch" } else { "first error of the public-key switch" }, h0, if shape == 1 { 2 * p } else { p });
                    put(if shape == 2 { "mask plus second error of the public-key switch" } else { "second error of the public-key switch" }, h1, if shape == 2 { 2 * p } else { p });
                }
            }
        }
    }
    if pairs.len() >= 512 {
        // independent: the mean of the products is zero, its deviation at most 2 p var
        let c = pairs.iter().map(|(a, b)| (a * b) as f64).sum::<f64>() / pairs.len() as f64;
        let dev = 9.0 * (2 * p * var) as f64 / (pairs.len() as f64).sqrt();
        ensure!(c.abs() < dev, "the two errors of {name} are correlated: {c} (tolerance {dev})");
    }
    for (what, v, mult) in errs {
        ensure!(v.iter().any(|x| *x != 0), "{what}: always zero");
        if v.len() >= 512 {
            crate::p_zq::check_cbd(&v, mult * var, 1).map_err(|e| format!("{what}: {e}"))?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ B19

struct Relin {
    key: RelinearizationKey,
    /// worst-case error of one component
    err: BigUint,
}
fn relin_spec() -> Spec {
    Spec { log_n: (3, 5), k: (2, 5), reserve: 34, qmin: 24, ..Default::default() }
}
fn protocol(pt: &Party, crps: &[CommonRandomPoly], sd: &[u64], o1: &[usize], o2: &[usize]) -> Res<RelinearizationKey> {
    let mut rngs: Vec<ChaCha8Rng> = sd.iter().map(|s| rng(*s)).collect();
    let gens = pt.keys.iter().zip(rngs.iter_mut()).map(|(k, r)| RelinKeyGenerator::new(&k.sk, crps, r)).collect::<Result<Vec<_>, _>>().ctx("generator")?;
    let mut first: Vec<Option<RelinKeyShare<R1>>> = vec![];
    for (g, r) in gens.iter().zip(rngs.iter_mut()) {
        first.push(Some(g.round_1(r).ctx("round 1")?));
    }
    let agg = RelinKeyShare::<R1Aggregated>::from_shares(o1.iter().map(|i| first[*i].take().unwrap())).ctx("aggregate round 1")?;
    let agg = Arc::new(agg);
    let mut second: Vec<Option<RelinKeyShare<R2>>> = vec![];
    for (g, r) in gens.iter().zip(rngs.iter_mut()) {
        second.push(Some(g.round_2(&agg, r).ctx("round 2")?));
    }
    RelinearizationKey::from_shares(o2.iter().map(|i| second[*i].take().unwrap())).ctx("aggregate round 2")
}
fn joint_rk(g: &mut Gen, ps: &Ps, pt: &Party) -> Res<Relin> {
    let p = pt.keys.len();
    let crps = CommonRandomPoly::new_vec(&ps.par, &mut g.rng()).ctx("crps")?;
    ensure_eq!(crps.len(), ps.q.len(), "number of common random polynomials");
    ensure!((1..crps.len()).all(|i| !crps[..i].contains(&crps[i])), "common random polynomials repeat");
    let (sd, o1, o2) = (seeds(g, p), order(g, p), order(g, p));
    let key = protocol(pt, &crps, &sd, &o1, &o2)?;
    let id: Vec<usize> = (0..p).collect();
    ensure!(key == protocol(pt, &crps, &sd, &id, &id)?, "the relinearisation key depends on the order of the shares");
    // s*e0 + u*e1 + e2 + e3
    let (n, e, p) = (ps.n as u128, ps.eb() as u128, p as u128);
    let err = BigUint::from(p * e * (pt.sum.s1 as u128 + n * p * e + 2));
    Ok(Relin { key, err })
}
fn relin_bound(ps: &Ps, l: usize, err: &BigUint) -> BigUint {
    let mut b = BigUint::zero();
    for q in ps.mods(l) {
        b += BigUint::from(*q) * ps.n as u64 * err;
    }
    b + 1u32
}
fn setup(g: &mut Gen, ps: &Ps) -> Res<(Party, Relin)> {
    let pt = parties(g, ps, 6)?;
    let rk = joint_rk(g, ps, &pt)?;
    g.note(format!("{} parties={}", ps.desc(), pt.p()));
    if pt.p() >= 2 {
        g.hit();
    }
    Ok((pt, rk))
}

/// Each component encrypts the corresponding multiple of the squared summed secret.
fn b19_rows(g: &mut Gen) -> Res<()> {
    let ps = params(g, &relin_spec())?;
    let (pt, rk) = setup(g, &ps)?;
    let ksk = fhe::proto::bfv::RelinearizationKey::decode(rk.key.to_bytes().as_slice()).ctx("decode")?.ksk.ok_or("no key")?;
    ensure!(ksk.ciphertext_level == 0 && ksk.ksk_level == 0 && ksk.log_base == 0, "levels of the aggregated key");
    ensure!(ksk.seed.is_empty(), "an aggregated key has no seed");
    let k = ps.q.len();
    ensure!(ksk.c0.len() == k && ksk.c1.len() == k, "number of components");
    let ctx = ps.par.context_at_level(0).ctx("context")?;
    let s = ps.sk_rows(0, &pt.sum.s);
    let s2 = ps.rmul(0, &s, &s);
    let mut masks = std::collections::HashSet::new();
    for i in 0..k {
        let row = |b: &[u8]| -> Res<Array2<u64>> { Ok(Poly::<NttShoup>::from_bytes(b, ctx).ctx("component")?.into_power_basis().coefficients().to_owned()) };
        let (c0, c1) = (row(&ksk.c0[i])?, row(&ksk.c1[i])?);
        ensure!(masks.insert(c1.iter().copied().collect::<Vec<_>>()), "two components share their mask");
        let w = ps.crts[0].lift((0..k).map(|j| (i == j) as u64));
        let target = Array2::from_shape_fn((k, ps.n), |(r, c)| num::mulmod(s2[(r, c)], num_traits::ToPrimitive::to_u64(&(&w % ps.q[r])).unwrap(), ps.q[r]));
        let ph = ps.phase_rows(&pt.sum.s, &[c0, c1], 0);
        let e = ps.dist(0, &ps.lift(0, &ph), &ps.lift(0, &target));
        ensure!(e <= rk.err, "component {i} is {} bits away from its multiple of the squared secret, more than {} bits", e.bits(), rk.err.bits());
        if ps.n as u64 * pt.p() >= 128 {
            ensure!(!e.is_zero(), "component {i} carries no noise");
        }
    }
    let back = RelinearizationKey::from_bytes(&rk.key.to_bytes(), &ps.par).ctx("from_bytes")?;
    ensure!(back == rk.key, "the aggregated relinearisation key changes when serialised");
    Ok(())
}

fn b19_relin(g: &mut Gen) -> Res<()> {
    let ps = params(g, &relin_spec())?;
    let (pt, rk) = setup(g, &ps)?;
    let key = if g.bool() { rk.key } else { RelinearizationKey::from_bytes(&rk.key.to_bytes(), &ps.par).ctx("from_bytes")? };
    let bound = relin_bound(&ps, 0, &rk.err);
    let l0 = 0;
    let m = ps.msg(g);
    let max = ps.nu_max(l0);
    let room = if max > bound { &max - &bound } else { BigUint::zero() };
    let arbitrary = g.chance(1, 3) || room.is_zero();
    let mut ct = if arbitrary {
        let polys = (0..3)
            .map(|_| {
                let r = ps.random_rows(g, l0);
                ps.poly(l0, &r, true)
            })
            .collect::<Res<Vec<_>>>()?;
        Ciphertext::new(polys, &ps.par).ctx("ciphertext")?
    } else {
        let b = if g.bool() { room } else { room >> (g.draw(40) as u32) };
        let e = ps.err(g, &b);
        ps.synth(g, &pt.sum, l0, 3, &m, &e)?
    };
    let before = ps.phase(&pt.sum.s, &ct);
    let nu = ps.nu(&pt.sum.s, &ct, &m);
    key.relinearizes(&mut ct).ctx("relinearise")?;
    sane(&ps, &ct, l0, 2, "relinearised ciphertext")?;
    let d = ps.dist(l0, &before, &ps.phase(&pt.sum.s, &ct));
    ensure!(d <= bound, "relinearisation with the joint key moves the phase by {} bits, more than {} bits", d.bits(), bound.bits());
    if !arbitrary {
        let nu = nu + bound;
        ps.expect(&pt.sum, &ct, &m, &nu, "relinearised ciphertext")?;
        if ps.ok(l0, &(nu + pt.p() * ps.eb())) {
            g.label("decrypts jointly");
            let (sd, ord) = (seeds(g, pt.keys.len()), order(g, pt.keys.len()));
            let d = joint_decrypt(&pt, &Arc::new(ct), &sd, &ord)?;
            ensure_eq!(ps.coeffs(&d, l0)?, m, "joint decryption after relinearisation");
        }
    }
    // other levels and part counts are refused
    let l = g.range(1, ps.levels() - 1);
    for (l, parts) in [(l, 3usize), (0, 2), (0, 4)] {
        let polys = (0..parts)
            .map(|_| {
                let r = ps.random_rows(g, l);
                ps.poly(l, &r, true)
            })
            .collect::<Res<Vec<_>>>()?;
        let mut c = Ciphertext::new(polys, &ps.par).ctx("ciphertext")?;
        let b = c.clone();
        refused(&format!("relinearising {parts} parts at level {l} with a joint key"), || key.relinearizes(&mut c))?;
        ensure!(c == b, "a refused relinearisation changed the ciphertext");
    }
    Ok(())
}

/// Products under the joint key, with and without modulus switching, decrypted jointly.
fn b19_multiply(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { depth: 1, reserve: 70, k: (2, 5), qmin: 40, ..relin_spec() })?;
    let (pt, rk) = setup(g, &ps)?;
    let a = some_ct(g, &ps, &pt.sum, 0, Some(2), &BigUint::from(ps.eb()))?;
    let b = if g.chance(1, 4) { a.clone() } else { some_ct(g, &ps, &pt.sum, 0, Some(2), &BigUint::from(ps.eb()))? };
    let mut mu = Multiplicator::default(&rk.key).ctx("multiplicator")?;
    let m = ps.mul_t(&a.m, &b.m);
    let (na, nb) = (ps.nu(&pt.sum.s, &a.ct, &a.m), ps.nu(&pt.sum.s, &b.ct, &b.m));
    let mut nu = ps.mul_bound(0, pt.sum.s1, 2, &na, 2, &nb) + relin_bound(&ps, 0, &rk.err);
    let out = mu.multiply(&a.ct, &b.ct).ctx("multiply")?;
    sane(&ps, &out, 0, 2, "product")?;
    ps.expect(&pt.sum, &out, &m, &nu, "product under the joint key")?;
    let mut dec = |ct: Ciphertext, l: usize, nu: &BigUint, what: &str| -> Res<()> {
        if ps.ok(l, &(nu + pt.p() * ps.eb())) {
            g.label("decrypts jointly");
            let (sd, ord) = (seeds(g, pt.keys.len()), order(g, pt.keys.len()));
            let d = joint_decrypt(&pt, &Arc::new(ct), &sd, &ord)?;
            ensure_eq!(ps.coeffs(&d, l)?, m, "{what}: joint decryption");
        }
        Ok(())
    };
    dec(out, 0, &nu, "product")?;
    mu.enable_mod_switching().ctx("modulus switching")?;
    let out = mu.multiply(&a.ct, &b.ct).ctx("multiply")?;
    sane(&ps, &out, 1, 2, "switched product")?;
    let q = BigUint::from(*ps.q.last().unwrap());
    nu = &nu / &q + (ps.geo(pt.sum.s1, 2) >> 1u32) + 4u32;
    ps.expect(&pt.sum, &out, &m, &nu, "switched product")?;
    dec(out, 1, &nu, "switched product")?;
    // the plain product relinearised by hand has the same message
    let mut c3 = &a.ct * &b.ct;
    rk.key.relinearizes(&mut c3).ctx("relinearise")?;
    let n3 = ps.mul_bound(0, pt.sum.s1, 2, &na, 2, &nb) + relin_bound(&ps, 0, &rk.err);
    ps.expect(&pt.sum, &c3, &m, &n3, "product relinearised by hand")
}

fn b19_reject(g: &mut Gen) -> Res<()> {
    let mut r = g.rng();
    g.hit();
    // too few moduli
    let one = params(g, &Spec { k: (1, 1), reserve: 20, qmin: 40, ..relin_spec() })?;
    let k1 = SecretKey::random(&one.par, &mut r);
    let c1 = CommonRandomPoly::new_vec(&one.par, &mut r).ctx("crps")?;
    refused("a relinearisation key over a single modulus", || RelinKeyGenerator::new(&k1, &c1, &mut r).map(|_| ()))?;
    let ps = params(g, &relin_spec())?;
    let (other, how) = other_params(g, &ps)?;
    g.note(format!("{} other parameters differ in: {how}", ps.desc()));
    let k = SecretKey::random(&ps.par, &mut r);
    let ko = SecretKey::random(&other.par, &mut r);
    let crps = CommonRandomPoly::new_vec(&ps.par, &mut r).ctx("crps")?;
    // wrong common randomness
    let mut more = crps.clone();
    more.push(CommonRandomPoly::new(&ps.par, &mut r).ctx("crp")?);
    for bad in [&[] as &[CommonRandomPoly], &crps[..crps.len() - 1], &crps[1..], &more] {
        refused(&format!("{} common random polynomials for {} moduli", bad.len(), ps.q.len()), || RelinKeyGenerator::new(&k, bad, &mut r).and_then(|x| x.round_1(&mut r)))?;
    }
    let mut low = crps.clone();
    let i = g.usize_below(low.len());
    low[i] = CommonRandomPoly::new_leveled(&ps.par, g.range(1, ps.levels() - 1), &mut r).ctx("crp")?;
    refused("a common random polynomial of another level", || RelinKeyGenerator::new(&k, &low, &mut r).and_then(|x| x.round_1(&mut r)))?;
    if other.q != ps.q || other.n != ps.n {
        let foreign: Vec<_> = (0..ps.q.len()).map(|_| CommonRandomPoly::new(&other.par, &mut r)).collect::<Result<_, _>>().ctx("crps")?;
        refused("common random polynomials of other parameters", || RelinKeyGenerator::new(&k, &foreign, &mut r).and_then(|x| x.round_1(&mut r)))?;
    }
    // nothing to aggregate
    refused("aggregating no round-1 shares", || RelinKeyShare::<R1Aggregated>::from_shares(Vec::<RelinKeyShare<R1>>::new()))?;
    refused("aggregating no round-2 shares", || RelinearizationKey::from_shares(Vec::<RelinKeyShare<R2>>::new()))?;
    // shares that do not belong together
    let gen_ = RelinKeyGenerator::new(&k, &crps, &mut r).ctx("generator")?;
    let s1 = gen_.round_1(&mut r).ctx("round 1")?;
    let agg = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares([s1.clone()]).ctx("aggregate")?);
    let agg2 = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares([s1.clone(), gen_.round_1(&mut r).ctx("round 1")?]).ctx("aggregate")?);
    let v = vec![gen_.round_2(&agg, &mut r).ctx("round 2")?, gen_.round_2(&agg2, &mut r).ctx("round 2")?];
    refused("aggregating round-2 shares of different first rounds", || RelinearizationKey::from_shares(v))?;
    if other.q.len() > 1 {
        let crpso = CommonRandomPoly::new_vec(&other.par, &mut r).ctx("crps")?;
        let geno = RelinKeyGenerator::new(&ko, &crpso, &mut r).ctx("generator")?;
        let so = geno.round_1(&mut r).ctx("round 1")?;
        let v = vec![s1.clone(), so.clone()];
        refused("aggregating round-1 shares of different parameters", || RelinKeyShare::<R1Aggregated>::from_shares(v))?;
        let aggo = Arc::new(RelinKeyShare::<R1Aggregated>::from_shares([so]).ctx("aggregate")?);
        refused("a second round over a first round of other parameters", || gen_.round_2(&aggo, &mut r))?;
        let v = vec![gen_.round_2(&agg, &mut r).ctx("round 2")?, geno.round_2(&aggo, &mut r).ctx("round 2")?];
        refused("aggregating round-2 shares of different parameters", || RelinearizationKey::from_shares(v))?;
    }
    Ok(())
}
#[allow(dead_code)]
fn unused() {
    let _ = zmul;
}
