//! B21: equality compares everything that determines behaviour.
//! B22: results are functions of the operands alone, in any order and on any thread.
use crate::choice::*;
use crate::model::*;
use crate::num;
use crate::p_misuse::{Kit, kit};
use crate::p_mp::other_params;
use crate::p_ops::{rand_ct, rand_pt};
use crate::p_poly::vt;
use crate::p_wire::{KINDS, Kind, Rq, bytes_of, wire_params};
use crate::runner::*;
use fhe::bfv::{
    BfvParameters, BfvParametersBuilder, Ciphertext, Encoding, EvaluationKey, Multiplicator, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey, dot_product_scalar,
};
use fhe::proto::bfv as pb;
use fhe_math::ntt::NttOperator;
use fhe_math::rns::{RnsContext, RnsScaler, ScalingFactor};
use fhe_math::rq::traits::TryConvertFrom;
use fhe_math::rq::{Context, Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, scaler::Scaler, switcher::Switcher};
use fhe_math::zq::Modulus;
use fhe_traits::{Deserialize, DeserializeParametrized, DeserializeWithContext, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use ndarray::Array2;
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use prost::Message;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::sync::{Arc, Barrier};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "B21",
            rule: "a case draws an object, an independently built equal one and one that differs in a single respect (one coefficient, modulus, level, polynomial, key, encoding or parameter) and compares them in both directions; non-trivial = the pair that must differ was built",
            subs: vec![
                sub("parameters", 1_500, 30_000, b21_params),
                sub("values", 4_000, 80_000, b21_values),
                sub("keys", 3_000, 60_000, b21_keys),
                sub("ring", 4_000, 80_000, b21_ring),
            ],
        },
        Prop {
            id: "B22",
            rule: "a case draws parameters, keys, operands and a list of operations, computes each once, then again by several threads in different orders and with objects read back under separately built parameters; non-trivial = at least 10 operations produced a result",
            subs: vec![sub("threads", 1_600, 50_000, b22_threads), sub("ring", 2_500, 80_000, b22_ring), sub("first use", 700, 30_000, b22_first), sub("history", 500, 24_000, crate::p_port::b22_history)],
        },
    ]
}

fn eq<T: PartialEq>(a: &T, b: &T, what: &str) -> Res<()> {
    ensure!(a == b && b == a, "{what}: not equal");
    ensure!(!(a != b), "{what}: both equal and unequal");
    Ok(())
}
fn ne<T: PartialEq>(a: &T, b: &T, what: &str) -> Res<()> {
    ensure!(a != b && b != a, "{what}: equal");
    ensure!(!(a == b), "{what}: both equal and unequal");
    Ok(())
}
/// An index, often the first or the last.
fn place(g: &mut Gen, n: usize) -> usize {
    match g.below(4) {
        0 => 0,
        1 => n - 1,
        _ => g.usize_below(n),
    }
}
/// The same rows with one residue changed.
fn nudge(g: &mut Gen, q: &[u64], a: &Array2<u64>) -> Array2<u64> {
    let mut b = a.clone();
    let (i, j) = (place(g, q.len()), place(g, a.ncols()));
    let d = match g.below(4) {
        0 => q[i] - 1,
        1 => 1 + g.draw(q[i] - 2),
        2 => 1u64 << g.draw(q[i].ilog2() as u64 - 1),
        _ => 1,
    };
    b[[i, j]] = ((b[[i, j]] as u128 + d as u128) % q[i] as u128) as u64;
    b
}
/// A polynomial with one residue of one representation changed.
fn nudge_poly(g: &mut Gen, p: &Poly<Ntt>) -> Res<Poly<Ntt>> {
    let ctx = p.ctx().clone();
    Ok(if g.bool() {
        let a = p.coefficients().to_owned();
        let b = nudge(g, ctx.moduli(), &a);
        Poly::<Ntt>::try_convert_from(b, &ctx, g.bool()).ctx("poly")?
    } else {
        let a = p.clone().into_power_basis().coefficients().to_owned();
        let b = nudge(g, ctx.moduli(), &a);
        Poly::<PowerBasis>::try_convert_from(b, &ctx, g.bool()).ctx("poly")?.into_ntt()
    })
}
fn rebuild(n: usize, q: &[u64], t: &BigUint, var: usize) -> Result<Arc<BfvParameters>, String> {
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_moduli(q).set_variance(var);
    match t.to_u64() {
        Some(tu) => b.set_plaintext_modulus(tu),
        None => b.set_plaintext_modulus_biguint(t.clone()),
    };
    b.build_arc().ctx("parameters")
}

// ------------------------------------------------------------------ B21

fn b21_params(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { k: (1, 5), top: 12, ..Default::default() })?;
    let again = rebuild(ps.n, &ps.q, &ps.t, ps.var)?;
    let read = BfvParameters::try_deserialize(&ps.par.to_bytes()).ctx("parameters")?;
    eq(&*ps.par, &*again, "parameters built twice")?;
    eq(&*ps.par, &read, "parameters read back")?;
    eq(&ps.par, &ps.par.clone(), "a copy of parameters")?;
    eq(&*again, &read, "parameters built and read back")?;
    let (po, how) = other_params(g, &ps)?;
    g.note(format!("{}; other parameters differ in {how}", ps.desc()));
    g.label(how);
    g.hit();
    ne(&*ps.par, &*po.par, &format!("parameters differing in {how}"))?;
    if ps.q.len() > 1 {
        let mut q = ps.q.clone();
        let i = g.usize_below(q.len());
        let j = (i + 1 + g.usize_below(q.len() - 1)) % q.len();
        q.swap(i, j);
        if let Ok(o) = rebuild(ps.n, &q, &ps.t, ps.var) {
            ne(&*ps.par, &*o, "parameters with two moduli exchanged")?;
        }
        q = ps.q.clone();
        q.remove(i);
        if let Ok(o) = rebuild(ps.n, &q, &ps.t, ps.var) {
            ne(&*ps.par, &*o, "parameters with one modulus fewer")?;
        }
        // contexts of the same chain
        let (a, b) = (i.min(j), i.max(j));
        let (ca, cb) = (ps.par.context_at_level(a).ctx("context")?, ps.par.context_at_level(b).ctx("context")?);
        ne(ca.as_ref(), cb.as_ref(), "contexts of two levels")?;
        eq(ca.as_ref(), again.context_at_level(a).ctx("context")?.as_ref(), "contexts built twice")?;
        ne(ps.par.context_level_at(a).ctx("level")?, ps.par.context_level_at(b).ctx("level")?, "two levels")?;
        eq(ps.par.context_level_at(b).ctx("level")?, again.context_level_at(b).ctx("level")?, "levels built twice")?;
    }
    // objects under the other parameters differ even when their data are the same
    let l = g.usize_below(ps.levels());
    if ps.n == po.n {
        let s = Sk::gen_(g, &ps)?;
        let e = po.eb().min(ps.eb()) as i64;
        let v: Vec<i64> = s.s.iter().map(|x| (*x).clamp(-e, e)).collect();
        ne(&sk_from(&ps.par, &v)?, &sk_from(&po.par, &v)?, "secret keys of different parameters")?;
        eq(&sk_from(&ps.par, &v)?, &sk_from(&again, &v)?, "secret keys of equal parameters")?;
    }
    let rows: Vec<_> = (0..2).map(|_| ps.random_rows(g, l)).collect();
    let mk = |p: &Ps, l: usize| -> Res<Ciphertext> { Ciphertext::new(rows.iter().map(|r| p.poly(l, r, false)).collect::<Res<Vec<_>>>()?, &p.par).ctx("ciphertext") };
    let a = mk(&ps, l)?;
    eq(&a, &mk(&Ps::from_par(again.clone(), ps.var), l)?, "ciphertexts of equal parameters")?;
    if let Some(lo) = (0..po.levels()).find(|lo| po.n == ps.n && po.mods(*lo) == ps.mods(l)) {
        g.label("same ring");
        ne(&a, &mk(&po, lo)?, "ciphertexts of different parameters with the same polynomials")?;
        let z = vec![0u64; ps.n];
        let (x, y) = (Plaintext::try_encode(&z, Encoding::poly_at_level(l), &ps.par).ctx("encode")?, Plaintext::try_encode(&z, Encoding::poly_at_level(lo), &po.par).ctx("encode")?);
        ne(&x, &y, "plaintexts of different parameters with the same polynomials")?;
    }
    Ok(())
}

fn b21_values(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { ..Default::default() })?;
    let l = g.usize_below(ps.levels());
    let parts = g.range(2, 5);
    g.note(format!("{} level={l} parts={parts}", ps.desc()));
    g.hit();
    let rows: Vec<_> = (0..parts).map(|_| ps.random_rows(g, l)).collect();
    let f = [g.bool(), g.bool()];
    let mk = |r: &[Array2<u64>], permit: bool| -> Res<Ciphertext> { Ciphertext::new(r.iter().map(|r| ps.poly(l, r, permit)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext") };
    let a = mk(&rows, f[0])?;
    eq(&a, &a.clone(), "a copied ciphertext")?;
    eq(&a, &mk(&rows, f[1])?, "ciphertexts of the same polynomials")?;
    eq(&a, &Ciphertext::from_bytes(&a.to_bytes(), &ps.par).ctx("from_bytes")?, "a ciphertext read back")?;
    // one residue of one part
    let i = place(g, parts);
    let mut b = a.clone();
    b[i] = nudge_poly(g, &a[i])?;
    ne(&a, &b, "ciphertexts differing in one residue")?;
    // number of parts
    if parts > 2 {
        ne(&a, &mk(&rows[..parts - 1], f[0])?, "ciphertexts of different lengths")?;
    }
    let mut longer = rows.clone();
    longer.push(Array2::zeros(rows[0].dim()));
    ne(&a, &mk(&longer, f[0])?, "ciphertexts of different lengths")?;
    ne(&a, &Ciphertext::zero(&ps.par), "a ciphertext and the empty one")?;
    eq(&Ciphertext::zero(&ps.par), &Ciphertext::zero(&ps.par), "empty ciphertexts")?;
    if parts == 2 && rows[0] != rows[1] {
        ne(&a, &mk(&[rows[1].clone(), rows[0].clone()], f[0])?, "ciphertexts with exchanged polynomials")?;
    }
    // level
    if l + 1 < ps.levels() {
        let o = g.range(l + 1, ps.levels() - 1);
        let mut b = a.clone();
        b.switch_to_level(o).ctx("switch")?;
        ne(&a, &b, "ciphertexts of different levels")?;
        let mk0 = |l: usize| -> Res<Ciphertext> {
            let z = Array2::zeros((ps.mods(l).len(), ps.n));
            Ciphertext::new((0..parts).map(|_| ps.poly(l, &z, false)).collect::<Res<Vec<_>>>()?, &ps.par).ctx("ciphertext")
        };
        ne(&mk0(l)?, &mk0(o)?, "zero polynomials of different levels")?;
    }
    // plaintexts
    let m = ps.msg(g);
    let p = ps.pt(&m, l)?;
    eq(&p, &p.clone(), "a copied plaintext")?;
    eq(&p, &ps.pt(&m, l)?, "plaintexts of the same message")?;
    let mut m2 = m.clone();
    let j = place(g, ps.n);
    let d = match g.below(3) {
        0 => BigUint::from(1u8),
        1 => &ps.t - 1u8,
        _ => BigUint::from(1u8) << g.draw(ps.t.bits() - 2).min(ps.t.bits() - 1),
    };
    m2[j] = (&m2[j] + d) % &ps.t;
    if m2[j] != m[j] {
        ne(&p, &ps.pt(&m2, l)?, "plaintexts differing in one coefficient")?;
    }
    if l + 1 < ps.levels() {
        let o = g.range(l + 1, ps.levels() - 1);
        ne(&p, &ps.pt(&m, o)?, "plaintexts of different levels")?;
        ne(&Plaintext::zero(Encoding::poly_at_level(l), &ps.par).ctx("zero")?, &Plaintext::zero(Encoding::poly_at_level(o), &ps.par).ctx("zero")?, "zero plaintexts of different levels")?;
    }
    if let Some(t) = ps.tu {
        // constant messages have the same polynomial in both encodings
        let c = 1 + g.draw(t.saturating_sub(2));
        if ps.simd {
            let x = Plaintext::try_encode(&vec![c % t], Encoding::poly_at_level(l), &ps.par).ctx("encode")?;
            let y = Plaintext::try_encode(&vec![c % t; ps.n], Encoding::simd_at_level(l), &ps.par).ctx("encode")?;
            ne(&x, &y, "plaintexts of different encodings")?;
            // a decrypted plaintext carries no encoding and equals both
            let sk = Sk::gen_(g, &ps)?;
            let ct: Ciphertext = sk.sk.try_encrypt(&x, &mut g.rng()).ctx("encrypt")?;
            if ps.ok(l, &ps.nu_sk()) {
                g.label("decrypted");
                let d = sk.sk.try_decrypt(&ct).ctx("decrypt")?;
                eq(&d, &x, "a decrypted plaintext and the encrypted one")?;
                eq(&d, &y, "a decrypted plaintext and the same polynomial")?;
                let z = Plaintext::try_encode(&vec![(c + 1) % t], Encoding::poly_at_level(l), &ps.par).ctx("encode")?;
                ne(&d, &z, "a decrypted plaintext and another one")?;
            }
        }
        let v = Plaintext::zero(Encoding::poly_at_level(l), &ps.par).ctx("zero")?;
        eq(&v, &Plaintext::try_encode(&vec![0u64; ps.n], Encoding::poly_at_level(l), &ps.par).ctx("encode")?, "the zero plaintext and an encoded zero")?;
        if ps.simd {
            ne(&v, &Plaintext::zero(Encoding::simd_at_level(l), &ps.par).ctx("zero")?, "zero plaintexts of different encodings")?;
        }
    }
    let o = g.usize_below(ps.levels());
    ensure_eq!(Encoding::poly_at_level(l) == Encoding::poly_at_level(o), l == o, "equality of encodings");
    ensure!(Encoding::poly_at_level(l) != Encoding::simd_at_level(l) && Encoding::poly() == Encoding::poly_at_level(0) && Encoding::simd() == Encoding::simd_at_level(0), "equality of encodings");
    Ok(())
}

/// One residue of one serialised polynomial changed.
fn nudge_bytes(g: &mut Gen, ps: &Ps, l: usize, b: &[u8]) -> Res<Vec<u8>> {
    let ctx = ps.par.context_at_level(l).ctx("context")?;
    let r = Rq::decode(b).ctx("decode")?;
    Ok(match r.representation {
        1 => nudge_poly(g, &Poly::<PowerBasis>::from_bytes(b, ctx).ctx("from_bytes")?.into_ntt())?.into_power_basis().to_bytes(),
        2 => nudge_poly(g, &Poly::<Ntt>::from_bytes(b, ctx).ctx("from_bytes")?)?.to_bytes(),
        3 => nudge_poly(g, &Poly::<NttShoup>::from_bytes(b, ctx).ctx("from_bytes")?.into_ntt())?.into_ntt_shoup().to_bytes(),
        x => return Err(format!("representation {x}")),
    })
}
fn nudge_list(g: &mut Gen, ps: &Ps, l: usize, v: &mut [Vec<u8>]) -> Res<()> {
    let i = place(g, v.len());
    v[i] = nudge_bytes(g, ps, l, &v[i])?;
    Ok(())
}
fn nudge_seed(g: &mut Gen, s: &mut [u8]) {
    let i = place(g, s.len());
    s[i] ^= 1 << g.draw(7);
}
fn nudge_ct(g: &mut Gen, ps: &Ps, c: &mut pb::Ciphertext) -> Res<&'static str> {
    if !c.seed.is_empty() && g.chance(1, 3) {
        nudge_seed(g, &mut c.seed);
        return Ok("seed");
    }
    nudge_list(g, ps, c.level as usize, &mut c.c)?;
    Ok("residue")
}
fn nudge_ksk(g: &mut Gen, ps: &Ps, k: &mut Option<pb::KeySwitchingKey>) -> Res<&'static str> {
    let k = k.as_mut().ok_or("no key-switching key")?;
    if !k.seed.is_empty() && g.chance(1, 3) {
        nudge_seed(g, &mut k.seed);
        return Ok("seed");
    }
    let l = k.ksk_level as usize;
    if !k.c1.is_empty() && g.bool() {
        nudge_list(g, ps, l, &mut k.c1)?;
    } else {
        nudge_list(g, ps, l, &mut k.c0)?;
    }
    Ok("residue")
}
fn b21_keys(g: &mut Gen) -> Res<()> {
    let ps = wire_params(g)?;
    let sk = Sk::gen_(g, &ps)?;
    let kind = *g.pick(&KINDS);
    let Some(b) = bytes_of(g, &ps, &sk, kind)? else { return Ok(()) };
    let (mut how, mut b2) = ("residue", vec![]);
    match kind {
        Kind::Sk => {
            let mut p = pb::SecretKey::decode(b.as_slice()).ctx("decode")?;
            let i = place(g, ps.n);
            let e = ps.eb() as i64;
            p.coeffs[i] = if p.coeffs[i] < e && (p.coeffs[i] == -e || g.bool()) { p.coeffs[i] + 1 } else { p.coeffs[i] - 1 };
            how = "coefficient";
            b2 = p.encode_to_vec();
        }
        Kind::Ct => {
            let mut p = pb::Ciphertext::decode(b.as_slice()).ctx("decode")?;
            how = nudge_ct(g, &ps, &mut p)?;
            b2 = p.encode_to_vec();
        }
        Kind::Pk => {
            let mut p = pb::PublicKey::decode(b.as_slice()).ctx("decode")?;
            how = nudge_ct(g, &ps, p.c.as_mut().ok_or("no ciphertext")?)?;
            b2 = p.encode_to_vec();
        }
        Kind::Rk => {
            let mut p = pb::RelinearizationKey::decode(b.as_slice()).ctx("decode")?;
            how = nudge_ksk(g, &ps, &mut p.ksk)?;
            b2 = p.encode_to_vec();
        }
        Kind::Rgsw => {
            let mut p = pb::RgswCiphertext::decode(b.as_slice()).ctx("decode")?;
            how = if g.bool() { nudge_ksk(g, &ps, &mut p.ksk0)? } else { nudge_ksk(g, &ps, &mut p.ksk1)? };
            b2 = p.encode_to_vec();
        }
        Kind::Ek => {
            let mut p = pb::EvaluationKey::decode(b.as_slice()).ctx("decode")?;
            if !p.gk.is_empty() {
                let i = place(g, p.gk.len());
                if g.chance(1, 3) {
                    p.gk.remove(i);
                    how = "missing rotation";
                } else {
                    how = nudge_ksk(g, &ps, &mut p.gk[i].ksk)?;
                }
                b2 = p.encode_to_vec();
            }
        }
    }
    g.note(format!("{} {kind:?}: {how}", ps.desc()));
    g.label(format!("{kind:?} {how}"));
    let again = Ps::from_par(rebuild(ps.n, &ps.q, &ps.t, ps.var)?, ps.var);
    macro_rules! compare {
        ($t:ty) => {{
            let x = <$t>::from_bytes(&b, &ps.par).ctx("from_bytes")?;
            eq(&x, &<$t>::from_bytes(&b, &ps.par).ctx("from_bytes")?, "an object read twice")?;
            eq(&x, &<$t>::from_bytes(&b, &again.par).ctx("from_bytes")?, "an object read under equal parameters")?;
            if !b2.is_empty() {
                g.hit();
                let y = <$t>::from_bytes(&b2, &ps.par).ctx("from_bytes of the changed object")?;
                ne(&x, &y, &format!("objects differing in one {how}"))?;
            }
        }};
    }
    match kind {
        Kind::Sk => compare!(SecretKey),
        Kind::Pk => compare!(PublicKey),
        Kind::Rk => compare!(RelinearizationKey),
        Kind::Ek => compare!(EvaluationKey),
        Kind::Ct => compare!(Ciphertext),
        Kind::Rgsw => compare!(RGSWCiphertext),
    }
    // two keys of the same secret from different randomness
    let mut r = g.rng();
    ne(&PublicKey::new(&sk.sk, &mut r), &PublicKey::new(&sk.sk, &mut r), "two public keys")?;
    if ps.levels() >= 2 {
        let (x, y) = (RelinearizationKey::new(&sk.sk, &mut r).ctx("key")?, RelinearizationKey::new(&sk.sk, &mut r).ctx("key")?);
        ne(&x, &y, "two relinearisation keys")?;
        eq(&x, &x.clone(), "a copied relinearisation key")?;
        let (mx, my) = (Multiplicator::default(&x).ctx("multiplicator")?, Multiplicator::default(&y).ctx("multiplicator")?);
        ne(&mx, &my, "strategies with different keys")?;
        eq(&mx, &Multiplicator::default(&x).ctx("multiplicator")?, "strategies built twice")?;
        let mut mz = mx.clone();
        mz.enable_mod_switching().ctx("mod switching")?;
        ne(&mx, &mz, "strategies with and without modulus switching")?;
    }
    Ok(())
}

fn ring(g: &mut Gen) -> Res<(usize, Vec<u64>, Arc<Context>)> {
    let n = 1usize << if large(g, 100) { g.range(10, 12) } else { g.range(3, 6) };
    let q = chain(g, n, (1, 5), 10);
    let c = Context::new_arc(&q, n).ctx("context")?;
    Ok((n, q, c))
}
fn random_poly(g: &mut Gen, c: &Arc<Context>) -> Poly<Ntt> {
    let mut p = Poly::<Ntt>::random(c, &mut g.rng());
    if g.bool() {
        p.allow_variable_time_computations(vt());
    }
    p
}
fn b21_ring(g: &mut Gen) -> Res<()> {
    let (n, q, c) = ring(g)?;
    g.note(format!("n={n} q={q:?}"));
    g.hit();
    let d = Context::new_arc(&q, n).ctx("context")?;
    eq(c.as_ref(), d.as_ref(), "contexts built twice")?;
    let p = random_poly(g, &c);
    let same = Poly::<Ntt>::try_convert_from(p.coefficients().to_owned(), &d, g.bool()).ctx("poly")?;
    let o = nudge_poly(g, &p)?;
    let (pb, sb, ob) = (p.clone().into_power_basis(), same.clone().into_power_basis(), o.clone().into_power_basis());
    let (ps, ss, os) = (p.clone().into_ntt_shoup(), same.clone().into_ntt_shoup(), o.clone().into_ntt_shoup());
    eq(&p, &p.clone(), "a copied polynomial")?;
    eq(&p, &same, "polynomials of the same values")?;
    eq(&pb, &sb, "polynomials of the same values (coefficients)")?;
    eq(&ps, &ss, "polynomials of the same values (Shoup)")?;
    ne(&p, &o, "polynomials differing in one residue")?;
    ne(&pb, &ob, "polynomials differing in one residue (coefficients)")?;
    ne(&ps, &os, "polynomials differing in one residue (Shoup)")?;
    eq(&(&p + &o), &(&o + &p), "sums in both orders")?;
    // another ring with the same values
    let rns = RnsContext::new(&q).ctx("rns")?;
    eq(&rns, &RnsContext::new(&q).ctx("rns")?, "bases built twice")?;
    let mut q2 = q.clone();
    let how = match g.below(3) {
        0 if q.len() > 1 => {
            let i = g.usize_below(q.len() - 1);
            q2.swap(i, q.len() - 1);
            "order"
        }
        1 if q.len() > 1 => {
            let i = g.usize_below(q.len());
            q2.remove(i);
            "length"
        }
        _ => {
            let i = g.usize_below(q.len());
            let mut k = 0;
            while q2[i] == q[i] || q2.iter().enumerate().any(|(j, x)| j != i && *x == q2[i]) {
                if let Some(x) = num::ntt_prime(g.range(30, 62), 2 * n as u64, k) {
                    q2[i] = x;
                }
                k += 1;
            }
            "a modulus"
        }
    };
    g.label(how);
    let c2 = Context::new_arc(&q2, n).ctx("context")?;
    ne(c.as_ref(), c2.as_ref(), &format!("contexts differing in {how}"))?;
    ne(&rns, &RnsContext::new(&q2).ctx("rns")?, &format!("bases differing in {how}"))?;
    if q2.len() == q.len() {
        let v: Vec<u64> = bulk(g, n, *q.iter().chain(&q2).min().unwrap() - 1);
        let a = Array2::from_shape_fn((q.len(), n), |(_, j)| v[j]);
        let mk = |c: &Arc<Context>| -> Res<Poly<Ntt>> { Poly::<Ntt>::try_convert_from(a.clone(), c, false).ctx("poly") };
        ne(&mk(&c)?, &mk(&c2)?, "polynomials of different rings with the same values")?;
        let mk = |c: &Arc<Context>| -> Res<Poly<PowerBasis>> { Poly::<PowerBasis>::try_convert_from(a.clone(), c, false).ctx("poly") };
        ne(&mk(&c)?, &mk(&c2)?, "polynomials of different rings with the same values")?;
    }
    ne(&Poly::<Ntt>::zero(&c), &Poly::<Ntt>::zero(&c2), "zeros of different rings")?;
    let half = (n > 8).then(|| Context::new_arc(&q, n / 2)).transpose().ctx("context")?;
    if let Some(h) = &half {
        ne(c.as_ref(), h.as_ref(), "contexts of different degrees")?;
    }
    // moduli and transforms
    let i = g.usize_below(q.len());
    let m = Modulus::new(q[i]).ctx("modulus")?;
    eq(&m, &Modulus::new(q[i]).ctx("modulus")?, "moduli built twice")?;
    let qo = if g.bool() { q[i] ^ (1 << g.draw(q[i].ilog2() as u64 - 1)) } else { q[i] + 2 };
    if let Ok(mo) = Modulus::new(qo) {
        ne(&m, &mo, "different moduli")?;
    }
    let op = NttOperator::new(&m, n).ok_or("no transform")?;
    eq(&op, &NttOperator::new(&m, n).ok_or("no transform")?, "transforms built twice")?;
    if n > 8 {
        ne(&op, &NttOperator::new(&m, n / 2).ok_or("no transform")?, "transforms of different sizes")?;
    }
    if let Some(j) = (0..q.len()).find(|j| *j != i) {
        ne(&op, &NttOperator::new(&Modulus::new(q[j]).ctx("modulus")?, n).ok_or("no transform")?, "transforms of different moduli")?;
    }
    // scalers, switchers and exponents
    let bits = g.range(1, 90);
    let (num_, den) = (pow2(bits) - 1u8, BigUint::from(3 + 2 * g.draw(1 << 40)));
    let f = || ScalingFactor::new(&num_, &den);
    eq(&f(), &f(), "factors built twice")?;
    let f2 = if g.bool() { ScalingFactor::new(&(&num_ + 1u8), &den) } else { ScalingFactor::new(&num_, &(&den + 1u8)) };
    ne(&f(), &f2, "different factors")?;
    let (ra, rb) = (Arc::new(RnsContext::new(&q).ctx("rns")?), Arc::new(RnsContext::new(&q2).ctx("rns")?));
    eq(&RnsScaler::new(&ra, &rb, f()), &RnsScaler::new(&ra, &rb, f()), "scalers built twice")?;
    ne(&RnsScaler::new(&ra, &rb, f()), &RnsScaler::new(&ra, &rb, f2.clone()), "scalers of different factors")?;
    ne(&RnsScaler::new(&ra, &rb, f()), &RnsScaler::new(&ra, &ra, f()), "scalers to different bases")?;
    ne(&RnsScaler::new(&ra, &rb, f()), &RnsScaler::new(&rb, &rb, f()), "scalers from different bases")?;
    let sc = |a: &Arc<Context>, b: &Arc<Context>, f: ScalingFactor| Scaler::new(a, b, f).ctx("scaler");
    eq(&sc(&c, &c2, f())?, &sc(&d, &c2, f())?, "scalers built twice")?;
    ne(&sc(&c, &c2, f())?, &sc(&c, &c2, f2)?, "scalers of different factors")?;
    ne(&sc(&c, &c2, f())?, &sc(&c2, &c, f())?, "scalers of exchanged contexts")?;
    eq(&Switcher::new(&c, &c2).ctx("switcher")?, &Switcher::new(&d, &c2).ctx("switcher")?, "switchers built twice")?;
    ne(&Switcher::new(&c, &c2).ctx("switcher")?, &Switcher::new(&c2, &c).ctx("switcher")?, "switchers of exchanged contexts")?;
    let e = 2 * g.usize_below(n) + 1;
    let x = SubstitutionExponent::new(&c, e).ctx("exponent")?;
    eq(&x, &SubstitutionExponent::new(&d, e).ctx("exponent")?, "exponents built twice")?;
    ne(&x, &SubstitutionExponent::new(&c, (e + 2 * (1 + g.usize_below(n - 1))) % (2 * n)).ctx("exponent")?, "different exponents")?;
    Ok(())
}

// ------------------------------------------------------------------ B22

/// Everything the operations of a case read.
struct World {
    ps: Ps,
    k: Kit,
    l: usize,
    ct: Vec<Ciphertext>,
    ct3: Ciphertext,
    pt: Vec<Plaintext>,
    m: Vec<Vec<u64>>,
    sk: Vec<u8>,
}
/// An operation as drawn: what to do, on which operands, with which number.
#[derive(Clone, Debug)]
struct Op {
    f: usize,
    a: usize,
    b: usize,
    x: usize,
}
const OPS: usize = 34;
fn dump(ps: &Ps, r: fhe::Result<Ciphertext>) -> Res<Vec<u8>> {
    Ok(match r {
        Err(_) => vec![1],
        Ok(c) if c.is_empty() => vec![2],
        Ok(c) => {
            let mut v = vec![0, c.len() as u8, ps.level(&c) as u8];
            for p in c.iter() {
                v.extend(p.coefficients().iter().flat_map(|x| x.to_le_bytes()));
            }
            v
        }
    })
}
fn dump_pt(w: &World, r: fhe::Result<Plaintext>) -> Res<Vec<u8>> {
    Ok(match r {
        Err(_) => vec![1],
        Ok(p) => {
            let l = p.level();
            let mut v = vec![0, l as u8];
            for c in w.ps.coeffs(&p, l)? {
                v.extend(c.to_bytes_le());
                v.push(0xff);
            }
            v
        }
    })
}
fn perform(w: &World, o: &Op) -> Res<Vec<u8>> {
    let (a, b) = (&w.ct[o.a % w.ct.len()], &w.ct[o.b % w.ct.len()]);
    let p = &w.pt[o.b % w.pt.len()];
    let m = &w.m[o.a % w.m.len()];
    let ps = &w.ps;
    let d = |r: fhe::Result<Ciphertext>| dump(ps, r);
    let rng = || ChaCha8Rng::seed_from_u64(o.x as u64);
    no_panic(|| match o.f {
        0 => d(Ok(a + b)),
        1 => d(Ok(a - b)),
        2 => d(Ok(-a)),
        3 => d(Ok(a + p)),
        4 => d(Ok(p - a)),
        5 => d(Ok(a * p)),
        6 | 7 => d(Ok(a * b)),
        8 => d(Ok(a * &w.k.rgsw)),
        9 => d(w.k.ek.rotates_rows(a)),
        10 => d(w.k.ek.rotates_columns_by(a, 1)),
        11 => d(w.k.ek.computes_inner_sum(a)),
        12 => {
            let mut v = vec![];
            match w.k.ek.expands(a, 1 + o.x % 4) {
                Ok(x) => {
                    for c in x {
                        v.extend(dump(ps, Ok(c))?);
                    }
                }
                Err(_) => v.push(1),
            }
            Ok(v)
        }
        13 | 14 => match &w.k.rk {
            Some(rk) => {
                let mut c = w.ct3.clone();
                d(rk.relinearizes(&mut c).map(|_| c))
            }
            None => Ok(vec![]),
        },
        15 | 16 => match &w.k.mu {
            Some(mu) => d(mu.multiply(a, b)),
            None => Ok(vec![]),
        },
        17 => match &w.k.rk {
            Some(rk) => d((|| {
                let mut mu = Multiplicator::default(rk)?;
                if o.x % 2 == 0 {
                    mu.enable_mod_switching()?;
                }
                mu.multiply(a, b)
            })()),
            None => Ok(vec![]),
        },
        18 => {
            let mut c = a.clone();
            d(c.switch_down().map(|_| c))
        }
        19 => {
            let mut c = b.clone();
            d(c.switch_to_level(w.l + o.x % (ps.levels() - w.l)).map(|_| c))
        }
        20 => d(dot_product_scalar(w.ct.iter(), w.pt.iter().cycle().take(w.ct.len()))),
        21 | 22 => dump_pt(w, w.k.sk.try_decrypt(a)),
        23 => dump_pt(w, w.k.sk.try_decrypt(&w.ct3)),
        24 => Ok(match unsafe { w.k.sk.measure_noise(a) } {
            Ok(x) => x.to_le_bytes().to_vec(),
            Err(_) => vec![1],
        }),
        25 => Ok(a.to_bytes()),
        26 => Ok(w.k.ek.to_bytes()),
        27 => d(Ciphertext::from_bytes(&b.to_bytes(), &ps.par)),
        28 => {
            let e = if ps.simd && o.x % 2 == 0 { Encoding::simd_at_level(w.l) } else { Encoding::poly_at_level(w.l) };
            let r = Plaintext::try_encode(m, e.clone(), &ps.par);
            Ok(match &r {
                Ok(p) => {
                    let v = Vec::<u64>::try_decode(p, e).ctx("decode")?;
                    let q: Poly<PowerBasis> = Poly::try_convert_from(p, ps.par.context_at_level(w.l).ctx("context")?, false).ctx("convert")?;
                    v.iter().chain(q.coefficients().iter()).flat_map(|x| x.to_le_bytes()).collect()
                }
                Err(_) => vec![1],
            })
        }
        29 => Ok(sk_coeffs(&SecretKey::random(&ps.par, &mut rng())).iter().flat_map(|x| x.to_le_bytes()).collect()),
        30 => Ok(ps.par.to_bytes()),
        31 => {
            // randomised: only what it decrypts to is determined
            let c: fhe::Result<Ciphertext> = w.k.sk.try_encrypt(p, &mut rng());
            if ps.ok(w.l, &ps.nu_sk()) { dump_pt(w, c.and_then(|c| w.k.sk.try_decrypt(&c))) } else { Ok(vec![c.is_ok() as u8]) }
        }
        32 => {
            let c = w.k.pk.try_encrypt(p, &mut rng());
            let s1 = sk_coeffs(&w.k.sk).iter().map(|x| x.unsigned_abs()).sum();
            if ps.ok(w.l, &ps.nu_pk(w.l, s1)) { dump_pt(w, c.and_then(|c| w.k.sk.try_decrypt(&c))) } else { Ok(vec![c.is_ok() as u8]) }
        }
        _ => Ok(SecretKey::from_bytes(&w.sk, &ps.par).ctx("secret key")?.to_bytes()),
    })
    .map_err(|e| format!("panicked: {e}"))?
}
fn world(g: &mut Gen) -> Res<World> {
    let ps = params(g, &Spec { k: (1, 4), reserve: 12, top: 12, ..Default::default() })?;
    let l = g.usize_below(ps.levels());
    let k = kit(g, &ps, l)?;
    let skb = k.sk.to_bytes();
    let sk = Sk::wrap(k.sk.clone());
    let mut ct = vec![];
    for _ in 0..g.range(2, 3) {
        ct.push(if g.bool() {
            rand_ct(g, &ps, l, 2)?
        } else {
            let p = ps.pt(&ps.msg(g), l)?;
            sk.sk.try_encrypt(&p, &mut g.rng()).ctx("encrypt")?
        });
    }
    let ct3 = rand_ct(g, &ps, l, 3)?;
    let pt = vec![rand_pt(g, &ps, l)?, rand_pt(g, &ps, l)?];
    let m = match ps.tu {
        Some(t) => vec![bulk(g, ps.n, t - 1), bulk(g, ps.n, t - 1)],
        None => vec![bulk(g, ps.n, u64::MAX >> 1)],
    };
    Ok(World { ps, k, l, ct, ct3, pt, m, sk: skb })
}
/// The same objects, read back under separately built parameters.
fn twin(w: &World) -> Res<World> {
    let ps = Ps::from_par(rebuild(w.ps.n, &w.ps.q, &w.ps.t, w.ps.var)?, w.ps.var);
    let ps = Ps { simd: w.ps.simd, ..ps };
    let par = &ps.par;
    let rk = w.k.rk.as_ref().map(|x| RelinearizationKey::from_bytes(&x.to_bytes(), par)).transpose().ctx("relinearisation key")?;
    let k = Kit {
        sk: SecretKey::from_bytes(&w.sk, par).ctx("secret key")?,
        pk: PublicKey::from_bytes(&w.k.pk.to_bytes(), par).ctx("public key")?,
        ek: EvaluationKey::from_bytes(&w.k.ek.to_bytes(), par).ctx("evaluation key")?,
        mu: rk.as_ref().map(Multiplicator::default).transpose().ctx("multiplicator")?,
        rk,
        rgsw: RGSWCiphertext::from_bytes(&w.k.rgsw.to_bytes(), par).ctx("gadget")?,
    };
    let rd = |c: &Ciphertext| Ciphertext::from_bytes(&c.to_bytes(), par).ctx("ciphertext");
    let pt = w.pt.iter().map(|p| ps.pt(&w.ps.coeffs(p, w.l)?, w.l)).collect::<Res<Vec<_>>>()?;
    Ok(World { k, l: w.l, ct: w.ct.iter().map(rd).collect::<Res<Vec<_>>>()?, ct3: rd(&w.ct3)?, pt, m: w.m.clone(), sk: w.sk.clone(), ps })
}
fn ops(g: &mut Gen, n: usize) -> Vec<Op> {
    (0..n).map(|_| Op { f: g.usize_below(OPS), a: g.usize_below(3), b: g.usize_below(3), x: g.usize_below(1 << 16) }).collect()
}
fn shuffled(n: usize, seed: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    let mut r = ChaCha8Rng::seed_from_u64(seed);
    for i in (1..n).rev() {
        v.swap(i, (rand::Rng::next_u64(&mut r) % (i as u64 + 1)) as usize);
    }
    v
}
/// Run every operation on `threads` threads, each in its own order, and compare.
fn race<F: Fn(usize) -> Res<Vec<u8>> + Sync>(want: &[Vec<u8>], threads: usize, seed: u64, names: &[String], f: F) -> Res<()> {
    let bar = Barrier::new(threads);
    let fails: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (f, bar) = (&f, &bar);
                s.spawn(move || -> Res<()> {
                    let order = shuffled(want.len(), seed.wrapping_add(t as u64));
                    bar.wait();
                    for i in order {
                        let got = f(i).map_err(|e| format!("{} on thread {t}: {e}", names[i]))?;
                        ensure!(got == want[i], "{} gave another result on thread {t} of {threads}, in another order", names[i]);
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).filter_map(|r| match r { Ok(Ok(())) => None, Ok(Err(e)) => Some(e), Err(_) => Some("a thread ended abnormally".into()) }).collect()
    });
    match fails.into_iter().next() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
fn b22_threads(g: &mut Gen) -> Res<()> {
    let w = world(g)?;
    let n = g.range(12, 24);
    let ops = ops(g, n);
    let (threads, seed) = (g.range(2, 5), g.seed());
    g.note(format!("{} level={} operations {:?} on {threads} threads", w.ps.desc(), w.l, ops.iter().map(|o| o.f).collect::<Vec<_>>()));
    let names: Vec<String> = ops.iter().map(|o| format!("operation {o:?}")).collect();
    let keep = (w.ct.clone(), w.ct3.clone(), w.pt.clone(), w.k.ek.to_bytes(), w.k.rk.clone());
    let want = ops.iter().map(|o| perform(&w, o)).collect::<Res<Vec<_>>>()?;
    if want.iter().filter(|v| v.len() > 1).count() >= 10 {
        g.hit();
    }
    for (o, v) in ops.iter().zip(&want).rev() {
        ensure!(perform(&w, o)? == *v, "operation {o:?} gave another result when repeated");
    }
    race(&want, threads, seed, &names, |i| perform(&w, &ops[i]))?;
    // one kind of operation only, many times, on all threads: they meet in the same code
    let f = *g.pick(&[6, 9, 10, 11, 12, 13, 8, 16, 18, 19, 20, 22, 5, 27, 28]);
    let many: Vec<Op> = (0..3).flat_map(|i| (0..2).map(move |j| Op { f, a: i, b: i + j, x: i })).collect();
    let names: Vec<String> = many.iter().map(|o| format!("operation {o:?}")).collect();
    let want1 = many.iter().map(|o| perform(&w, o)).collect::<Res<Vec<_>>>()?;
    let reps = if w.ps.n <= 64 { 6 } else { 1 };
    let (want6, names6): (Vec<_>, Vec<_>) = (0..reps).flat_map(|_| want1.iter().cloned().zip(names.iter().cloned())).unzip();
    race(&want6, threads, seed, &names6, |i| perform(&w, &many[i % many.len()]))?;
    let t = twin(&w)?;
    for (o, v) in ops.iter().zip(&want) {
        if matches!(o.f, 25 | 26) {
            continue; // the bytes of unseeded copies may differ
        }
        ensure!(perform(&t, o)? == *v, "operation {o:?} gave another result with objects read back under equal parameters");
    }
    ensure!(keep.0 == w.ct && keep.1 == w.ct3 && keep.2 == w.pt && keep.3 == w.k.ek.to_bytes() && keep.4 == w.k.rk, "an operation changed its operands");
    Ok(())
}

/// The first use of freshly built parameters and keys, by several threads at once.
fn b22_first(g: &mut Gen) -> Res<()> {
    let w = world(g)?;
    let n = g.range(6, 12);
    let ops = ops(g, n);
    let (threads, seed) = (g.range(3, 6), g.seed());
    g.note(format!("{} level={} operations {:?} first used on {threads} threads", w.ps.desc(), w.l, ops.iter().map(|o| o.f).collect::<Vec<_>>()));
    let ops: Vec<Op> = ops.into_iter().filter(|o| !matches!(o.f, 25 | 26)).collect();
    let names: Vec<String> = ops.iter().map(|o| format!("operation {o:?}")).collect();
    let want = ops.iter().map(|o| perform(&w, o)).collect::<Res<Vec<_>>>()?;
    g.hit();
    // built, by one thread, and used for the first time by all
    let t = twin(&w)?;
    race(&want, threads, seed, &names, |i| perform(&t, &ops[i]))?;
    // built by every thread at once
    let bar = Barrier::new(threads);
    let built: Vec<Res<World>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                s.spawn(|| {
                    bar.wait();
                    no_panic(|| twin(&w)).and_then(|x| x)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(Err("a thread ended abnormally".into()))).collect()
    });
    for (i, t) in built.into_iter().enumerate() {
        let t = t?;
        ensure!(t.ps.par == w.ps.par, "parameters built on thread {i} differ");
        for (o, v) in ops.iter().zip(&want) {
            ensure!(perform(&t, o)? == *v, "operation {o:?} gave another result with objects built on thread {i}");
        }
    }
    Ok(())
}

/// The same for the polynomial layer.
fn b22_ring(g: &mut Gen) -> Res<()> {
    let (n, q, c) = ring(g)?;
    let c2 = if q.len() > 1 { Context::new_arc(&q[..q.len() - 1], n).ctx("context")? } else { c.clone() };
    let (p, o) = (random_poly(g, &c), random_poly(g, &c));
    let small: Vec<u64> = bulk(g, n, u64::MAX >> 2);
    let (threads, seed) = (g.range(2, 5), g.seed());
    let (pw, e, var, sd) = (g.usize_below(4 * n), 2 * g.usize_below(n) + 1, g.range(1, 32), g.seed());
    g.note(format!("n={n} q={q:?} exponent={e} power={pw} on {threads} threads"));
    g.hit();
    let f = ScalingFactor::new(&pow2(g.range(1, 100)), &(pow2(g.range(2, 80)) - 1u8));
    let sc = Scaler::new(&c, &c2, f).ctx("scaler")?;
    let sw = Switcher::new(&c, &c2).ctx("switcher")?;
    let ex = SubstitutionExponent::new(&c, e).ctx("exponent")?;
    let i = g.usize_below(q.len());
    let md = Modulus::new(q[i]).ctx("modulus")?;
    let op = NttOperator::new(&md, n).ok_or("no transform")?;
    let row: Vec<u64> = small.iter().map(|x| x % q[i]).collect();
    let dump = |x: &Poly<Ntt>| -> Vec<u8> { x.coefficients().iter().flat_map(|v| v.to_le_bytes()).collect() };
    let run = |i: usize| -> Res<Vec<u8>> {
        no_panic(|| -> Res<Vec<u8>> {
            Ok(match i {
                0 => dump(&(&p + &o)),
                1 => dump(&(&p * &o)),
                2 => dump(&(&p - &o)),
                3 => dump(&p.clone().into_power_basis().into_ntt()),
                4 => dump(&o.clone().into_power_basis().scale(&sc).ctx("scale")?.into_ntt()),
                5 => dump(&p.clone().into_power_basis().switch(&sw).ctx("switch")?.into_ntt()),
                6 => dump(&p.substitute(&ex).ctx("substitute")?),
                7 => dump(&o.clone().into_power_basis().substitute(&ex).ctx("substitute")?.into_ntt()),
                8 => {
                    let mut x = p.clone().into_power_basis();
                    x.multiply_inverse_power_of_x(pw).ctx("power")?;
                    dump(&x.into_ntt())
                }
                9 => {
                    let mut x = p.clone().into_power_basis();
                    let r = x.switch_down().is_ok();
                    let mut v = dump(&x.into_ntt());
                    v.push(r as u8);
                    v
                }
                10 => dump(&Poly::<PowerBasis>::small(&c, var, &mut ChaCha8Rng::seed_from_u64(sd)).ctx("small")?.into_ntt()),
                11 => dump(&Poly::<Ntt>::random(&c, &mut ChaCha8Rng::seed_from_u64(sd))),
                12 => {
                    let mut s = [0u8; 32];
                    s[..8].copy_from_slice(&sd.to_le_bytes());
                    dump(&Poly::<Ntt>::random_from_seed(&c, s))
                }
                13 => p.to_bytes(),
                14 => dump(&Poly::<Ntt>::from_bytes(&o.to_bytes(), &c).ctx("from_bytes")?),
                15 => dump(&(&o * &p.clone().into_ntt_shoup())),
                16 => dump(&(-&p)),
                17 => Vec::<BigUint>::from(&p.clone().into_power_basis()).iter().flat_map(|x| x.to_bytes_le()).collect(),
                18 => {
                    let mut v = row.clone();
                    op.forward(&mut v);
                    v.iter().flat_map(|x| x.to_le_bytes()).collect()
                }
                19 => {
                    let mut v = row.clone();
                    op.backward(&mut v);
                    v.iter().flat_map(|x| x.to_le_bytes()).collect()
                }
                20 => md.serialize_vec(&row),
                21 => {
                    let mut v = small.clone();
                    md.reduce_vec(&mut v);
                    v.iter().flat_map(|x| x.to_le_bytes()).collect()
                }
                22 => md.random_vec(n, &mut ChaCha8Rng::seed_from_u64(sd)).iter().flat_map(|x| x.to_le_bytes()).collect(),
                23 => fhe_util::sample_vec_cbd(n, var, &mut ChaCha8Rng::seed_from_u64(sd)).map_err(|e| e.to_string())?.iter().flat_map(|x| x.to_le_bytes()).collect(),
                24 => dump(&Poly::<PowerBasis>::try_convert_from(small.as_slice(), &c, false).ctx("poly")?.into_ntt()),
                _ => {
                    let d = Context::new_arc(&q, n).ctx("context")?;
                    ensure!(d == c, "contexts built twice differ");
                    let mut x = p.clone();
                    x += &o;
                    x *= &p;
                    x -= &o;
                    dump(&x)
                }
            })
        })
        .map_err(|e| format!("panicked: {e}"))?
    };
    let names: Vec<String> = (0..26).map(|i| format!("ring operation {i}")).collect();
    let keep = (p.clone(), o.clone(), small.clone());
    let want = (0..26).map(run).collect::<Res<Vec<_>>>()?;
    for (i, v) in want.iter().enumerate().rev() {
        ensure!(run(i)? == *v, "ring operation {i} gave another result when repeated");
    }
    race(&want, threads, seed, &names, run)?;
    ensure!(keep.0 == p && keep.1 == o && keep.2 == small, "a ring operation changed its operands");
    Ok(())
}
