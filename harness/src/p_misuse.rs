//! B17: operands of other parameters, levels or shapes are refused and left alone.
use crate::choice::*;
use crate::model::*;
use crate::p_mp::other_params;
use crate::runner::*;
use fhe::bfv::{BfvParameters, Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Multiplicator, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey, dot_product_scalar};
use fhe_traits::{Deserialize, DeserializeParametrized, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use num_bigint::BigUint;
use num_traits::Zero;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B17",
        rule: "a case draws parameters and, per generator, a second parameter set differing in one aspect (or equal but separately built), a second level, or an unusual number of parts, and calls every operation with each mismatched operand in each position; non-trivial = all",
        subs: vec![
            sub("parameters", 1_050, 22_500, b17_params),
            sub("twin", 1_050, 22_500, b17_twin),
            sub("levels", 1_050, 22_500, b17_levels),
            sub("parts", 1_050, 22_500, b17_parts),
            sub("limits", 2_250, 45_000, b17_limits),
        ],
    }]
}

fn refused<T>(what: &str, f: impl FnOnce() -> fhe::Result<T>) -> Res<()> {
    match no_panic(f) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{what} was accepted")),
        Err(p) => Err(format!("{what} panicked instead of returning an error: {p}")),
    }
}
fn panics<T>(what: &str, f: impl FnOnce() -> T) -> Res<()> {
    match no_panic(f) {
        Err(_) => Ok(()),
        Ok(_) => Err(format!("{what} was computed")),
    }
}
fn random_ct(g: &mut Gen, ps: &Ps, l: usize, parts: usize) -> Res<Ciphertext> {
    if parts == 0 {
        return Ok(Ciphertext::zero(&ps.par));
    }
    let permit = g.bool();
    let polys = (0..parts)
        .map(|_| {
            let r = ps.random_rows(g, l);
            ps.poly(l, &r, permit)
        })
        .collect::<Res<Vec<_>>>()?;
    Ciphertext::new(polys, &ps.par).ctx("ciphertext")
}
fn some_pt(g: &mut Gen, ps: &Ps, l: usize) -> Res<Plaintext> {
    let m = ps.msg(g);
    ps.pt(&m, l)
}
/// Everything one party can hold at a level.
pub struct Kit {
    pub sk: SecretKey,
    pub pk: PublicKey,
    pub rk: Option<RelinearizationKey>,
    pub ek: EvaluationKey,
    pub mu: Option<Multiplicator>,
    pub rgsw: RGSWCiphertext,
}
pub fn kit(g: &mut Gen, ps: &Ps, l: usize) -> Res<Kit> {
    let mut r = g.rng();
    let sk = SecretKey::random(&ps.par, &mut r);
    let pk = PublicKey::new(&sk, &mut r);
    let rk = if ps.levels() - l >= 2 || l > 0 && ps.levels() >= 2 {
        let kl = g.range(0, l.min(ps.levels() - 2));
        Some(RelinearizationKey::new_leveled(&sk, l, kl, &mut r).ctx("relinearisation key")?)
    } else {
        None
    };
    let kl = g.range(0, l);
    let mut b = EvaluationKeyBuilder::new_leveled(&sk, l, kl).ctx("builder")?;
    b.enable_inner_sum().ctx("inner sum")?.enable_row_rotation().ctx("row")?.enable_expansion(2).ctx("expansion")?;
    b.enable_column_rotation(1).ctx("column")?;
    let ek = b.build(&mut r).ctx("evaluation key")?;
    let mu = match &rk {
        Some(rk) => Some(Multiplicator::default(rk).ctx("multiplicator")?),
        None => None,
    };
    let pt = some_pt(g, ps, l)?;
    let rgsw = sk.try_encrypt(&pt, &mut r).ctx("gadget")?;
    Ok(Kit { sk, pk, rk, ek, mu, rgsw })
}
/// Every operation of an evaluation key on `ct` must fail.
fn ek_refuses(ek: &EvaluationKey, ct: &Ciphertext, what: &str) -> Res<()> {
    refused(&format!("rotating the rows of {what}"), || ek.rotates_rows(ct))?;
    refused(&format!("rotating the columns of {what}"), || ek.rotates_columns_by(ct, 1))?;
    refused(&format!("the inner sum of {what}"), || ek.computes_inner_sum(ct))?;
    for s in [1, 2, 4] {
        refused(&format!("expanding {what} to {s}"), || ek.expands(ct, s))?;
    }
    Ok(())
}
/// Every binary operator between the two ciphertexts, in both orders and all forms, panics.
fn add_refuses(a: &Ciphertext, b: &Ciphertext, what: &str) -> Res<()> {
    for (x, y) in [(a, b), (b, a)] {
        panics(&format!("the sum of {what}"), || x + y)?;
        panics(&format!("the sum (owned) of {what}"), || x.clone() + y)?;
        panics(&format!("the difference of {what}"), || x - y)?;
        panics(&format!("the difference (owned) of {what}"), || x.clone() - y)?;
        let mut c = x.clone();
        panics(&format!("adding in place {what}"), || c += y)?;
        ensure!(c == *x, "a refused addition changed its operand ({what})");
        panics(&format!("subtracting in place {what}"), || c -= y)?;
        ensure!(c == *x, "a refused subtraction changed its operand ({what})");
    }
    Ok(())
}
fn mul_refuses(a: &Ciphertext, b: &Ciphertext, what: &str) -> Res<()> {
    panics(&format!("the product of {what}"), || a * b)?;
    panics(&format!("the product (swapped) of {what}"), || b * a)
}
fn pt_refuses(c: &Ciphertext, p: &Plaintext, mul: bool, what: &str) -> Res<()> {
    panics(&format!("{what}: sum"), || c + p)?;
    panics(&format!("{what}: sum (owned)"), || c.clone() + p)?;
    panics(&format!("{what}: sum (plaintext first)"), || p + c)?;
    panics(&format!("{what}: difference"), || c - p)?;
    panics(&format!("{what}: difference (owned)"), || c.clone() - p)?;
    panics(&format!("{what}: difference (plaintext first)"), || p - c)?;
    let mut x = c.clone();
    panics(&format!("{what}: sum in place"), || x += p)?;
    ensure!(x == *c, "{what}: a refused addition changed its operand");
    panics(&format!("{what}: difference in place"), || x -= p)?;
    ensure!(x == *c, "{what}: a refused subtraction changed its operand");
    if mul {
        panics(&format!("{what}: product"), || c * p)?;
        panics(&format!("{what}: product (owned)"), || c.clone() * p)?;
        panics(&format!("{what}: product in place"), || x *= p)?;
        ensure!(x == *c, "{what}: a refused multiplication changed its operand");
    }
    Ok(())
}
fn relin_refuses(rk: &RelinearizationKey, ct: &Ciphertext, what: &str) -> Res<()> {
    let mut c = ct.clone();
    refused(&format!("relinearising {what}"), || rk.relinearizes(&mut c))?;
    ensure!(c == *ct, "a refused relinearisation changed {what}");
    Ok(())
}
fn dot_refuses(cts: &[&Ciphertext], pts: &[&Plaintext], what: &str) -> Res<()> {
    refused(&format!("the dot product with {what}"), || dot_product_scalar(cts.iter().copied(), pts.iter().copied()))
}

fn b17_params(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 4), k: (1, 4), reserve: 20, ..Default::default() })?;
    let (po, how) = other_params(g, &ps)?;
    let l = g.usize_below(ps.levels());
    let lo = if po.levels() > l && g.bool() { l } else { g.usize_below(po.levels()) };
    g.note(format!("{} level={l}; other parameters differ in {how}, level {lo}", ps.desc()));
    g.label(how);
    g.hit();
    let (k, ko) = (kit(g, &ps, l)?, kit(g, &po, lo)?);
    let (ct, cto) = (random_ct(g, &ps, l, 2)?, random_ct(g, &po, lo, 2)?);
    let (ct3o, pt, pto) = (random_ct(g, &po, lo, 3)?, some_pt(g, &ps, l)?, some_pt(g, &po, lo)?);
    let what = format!("a ciphertext of parameters with another {how}");
    let mut r = g.rng();
    // results
    refused("secret-key encryption of a plaintext of other parameters", || -> fhe::Result<Ciphertext> { k.sk.try_encrypt(&pto, &mut r) })?;
    refused("gadget encryption of a plaintext of other parameters", || -> fhe::Result<RGSWCiphertext> { k.sk.try_encrypt(&pto, &mut r) })?;
    refused("public-key encryption of a plaintext of other parameters", || k.pk.try_encrypt(&pto, &mut r))?;
    refused("decryption of a ciphertext of other parameters", || k.sk.try_decrypt(&cto))?;
    refused("noise measurement of a ciphertext of other parameters", || unsafe { k.sk.measure_noise(&cto) })?;
    ek_refuses(&k.ek, &cto, &what)?;
    if let Some(rk) = &k.rk {
        relin_refuses(rk, &ct3o, &what)?;
    }
    if let Some(mu) = &k.mu {
        refused("multiplying by a ciphertext of other parameters", || mu.multiply(&ct, &cto))?;
        refused("multiplying a ciphertext of other parameters", || mu.multiply(&cto, &ct))?;
        refused("multiplying ciphertexts of other parameters", || mu.multiply(&cto, &cto))?;
        if let Some(rko) = &ko.rk {
            let mut m2 = mu.clone();
            refused("a relinearisation key of other parameters in a multiplication strategy", || m2.enable_relinearization(rko))?;
            ensure!(m2 == *mu, "a refused relinearisation key changed the strategy");
        }
    }
    dot_refuses(&[&ct, &cto], &[&pt, &pt], "a second ciphertext of other parameters")?;
    dot_refuses(&[&cto, &ct], &[&pt, &pt], "a first ciphertext of other parameters")?;
    dot_refuses(&[&ct, &ct], &[&pt, &pto], "a second plaintext of other parameters")?;
    dot_refuses(&[&ct], &[&pto], "a plaintext of other parameters")?;
    // operators
    add_refuses(&ct, &cto, &what)?;
    mul_refuses(&ct, &cto, &what)?;
    pt_refuses(&ct, &pto, true, "a plaintext of other parameters")?;
    pt_refuses(&cto, &pt, true, "a ciphertext of other parameters and a plaintext")?;
    panics("external product by a gadget ciphertext of other parameters", || &ct * &ko.rgsw)?;
    panics("external product (swapped) by a gadget ciphertext of other parameters", || &ko.rgsw * &ct)?;
    // the neutral element belongs to its parameters too
    let z = Ciphertext::zero(&po.par);
    panics("adding the zero of other parameters", || &ct + &z)?;
    panics("adding to the zero of other parameters", || &z + &ct)?;
    panics("subtracting the zero of other parameters", || &ct - &z)?;
    panics("subtracting from the zero of other parameters", || &z - &ct)?;
    panics("multiplying by the zero of other parameters", || &ct * &z)?;
    panics("multiplying the zero of other parameters", || &z * &ct)?;
    // polynomials of a ring outside the chain
    let foreign = po.par.context_at_level(lo).ctx("context")?;
    let inside = po.n == ps.n && (0..ps.levels()).any(|l| ps.mods(l) == po.mods(lo));
    if !inside {
        refused("a ciphertext made of polynomials of another ring", || Ciphertext::new(cto.to_vec(), &ps.par))?;
        refused("looking up a foreign context", || ps.par.level_of_context(foreign))?;
        let mixed = vec![ct[0].clone(), cto[1].clone()];
        refused("a ciphertext mixing rings", || Ciphertext::new(mixed, &ps.par))?;
    } else {
        let lv = (0..ps.levels()).find(|l| ps.mods(*l) == po.mods(lo)).unwrap();
        ensure_eq!(ps.par.level_of_context(foreign).ctx("level_of_context")?, lv, "level of an equal context");
    }
    // everything still works
    ensure!(k.sk.try_decrypt(&ct).is_ok(), "decryption of an own ciphertext refused");
    k.ek.rotates_rows(&ct).ctx("rotation of an own ciphertext")?;
    Ok(())
}

/// Separately built equal parameters: refused, or the same result.
fn b17_twin(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 4), k: (1, 4), reserve: 20, ..Default::default() })?;
    let twin = Ps::from_par(Arc::new(BfvParameters::try_deserialize(&ps.par.to_bytes()).ctx("parameters")?), ps.var);
    ensure!(twin.par == ps.par, "deserialised parameters differ");
    let l = g.usize_below(ps.levels());
    g.note(format!("{} level={l}", ps.desc()));
    g.hit();
    let k = kit(g, &ps, l)?;
    let (a, b) = (random_ct(g, &ps, l, 2)?, random_ct(g, &ps, l, 2)?);
    let b2 = Ciphertext::from_bytes(&b.to_bytes(), &twin.par).ctx("from_bytes")?;
    let a2 = Ciphertext::from_bytes(&a.to_bytes(), &twin.par).ctx("from_bytes")?;
    let pt = some_pt(g, &ps, l)?;
    let m = ps.coeffs(&pt, l)?;
    let pt2 = twin.pt(&m, l)?;
    let same = |what: &str, x: Result<fhe::Result<Ciphertext>, String>, y: Ciphertext, panic_ok: bool| -> Res<()> {
        match x {
            Ok(Ok(c)) => ensure!(ps.parts(&c) == ps.parts(&y), "{what} of equal parameters gives another result"),
            Ok(Err(_)) => {}
            Err(p) => ensure!(panic_ok, "{what} panicked instead of returning an error: {p}"),
        }
        Ok(())
    };
    same("sum", no_panic(|| Ok(&a + &b2)), &a + &b, true)?;
    same("difference", no_panic(|| Ok(&a - &b2)), &a - &b, true)?;
    same("product", no_panic(|| Ok(&a * &b2)), &a * &b, true)?;
    same("square", no_panic(|| Ok(&a * &a2)), &a * &a, true)?;
    same("plaintext sum", no_panic(|| Ok(&a + &pt2)), &a + &pt, true)?;
    same("plaintext difference", no_panic(|| Ok(&pt2 - &a)), &pt - &a, true)?;
    same("plaintext product", no_panic(|| Ok(&a * &pt2)), &a * &pt, true)?;
    same("external product", no_panic(|| Ok(&a2 * &k.rgsw)), &a * &k.rgsw, true)?;
    let mut x = a.clone();
    if no_panic(|| x += &b2).is_err() {
        ensure!(x == a, "a refused addition changed its operand");
    }
    let mut x = a.clone();
    if no_panic(|| x *= &pt2).is_err() {
        ensure!(x == a, "a refused multiplication changed its operand");
    }
    same("row rotation", no_panic(|| k.ek.rotates_rows(&a2)), k.ek.rotates_rows(&a).ctx("rotate")?, false)?;
    same("column rotation", no_panic(|| k.ek.rotates_columns_by(&a2, 1)), k.ek.rotates_columns_by(&a, 1).ctx("rotate")?, false)?;
    same("inner sum", no_panic(|| k.ek.computes_inner_sum(&a2)), k.ek.computes_inner_sum(&a).ctx("inner sum")?, false)?;
    same("expansion", no_panic(|| k.ek.expands(&a2, 2).map(|v| v[1].clone())), k.ek.expands(&a, 2).ctx("expand")?[1].clone(), false)?;
    let d = dot_product_scalar([&a, &b].into_iter(), [&pt, &pt].into_iter()).ctx("dot product")?;
    same("dot product", no_panic(|| dot_product_scalar([&a, &b2].into_iter(), [&pt, &pt].into_iter())), d.clone(), false)?;
    same("dot product (plaintext)", no_panic(|| dot_product_scalar([&a, &b].into_iter(), [&pt, &pt2].into_iter())), d.clone(), false)?;
    same("dot product (all)", no_panic(|| dot_product_scalar([&a2, &b2].into_iter(), [&pt2, &pt2].into_iter())), d, false)?;
    if let Some(mu) = &k.mu {
        let y = mu.multiply(&a, &b).ctx("multiply")?;
        same("multiplication", no_panic(|| mu.multiply(&a, &b2)), y.clone(), false)?;
        same("multiplication", no_panic(|| mu.multiply(&a2, &b2)), y.clone(), false)?;
        let rk2 = RelinearizationKey::from_bytes(&k.rk.as_ref().unwrap().to_bytes(), &twin.par).ctx("from_bytes")?;
        let mut m2 = mu.clone();
        if m2.enable_relinearization(&rk2).is_ok() {
            same("multiplication with an equal key", no_panic(|| m2.multiply(&a, &b)), y, false)?;
        } else {
            ensure!(m2 == *mu, "a refused relinearisation key changed the strategy");
        }
        let c3 = random_ct(g, &ps, l, 3)?;
        let mut y = c3.clone();
        k.rk.as_ref().unwrap().relinearizes(&mut y).ctx("relinearise")?;
        let mut x = c3.clone();
        same("relinearisation", no_panic(|| rk2.relinearizes(&mut x).map(|_| x.clone())), y, false)?;
        ensure!(x.len() == 2 || x == c3, "a refused relinearisation changed its operand");
    }
    let da = k.sk.try_decrypt(&a).ctx("decrypt")?;
    match no_panic(|| k.sk.try_decrypt(&a2)).map_err(|e| format!("decryption under equal parameters: {e}"))? {
        Ok(x) => ensure!(ps.coeffs(&x, l)? == ps.coeffs(&da, l)?, "decryption under equal parameters gives another result"),
        Err(_) => {}
    }
    no_panic(|| -> fhe::Result<Ciphertext> { k.sk.try_encrypt(&pt2, &mut rand::rng()) }).map_err(|e| format!("encryption under equal parameters: {e}"))?.ok();
    Ok(())
}

fn b17_levels(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 4), k: (2, 5), reserve: 20, ..Default::default() })?;
    let l = g.usize_below(ps.levels());
    let lo = (l + 1 + g.usize_below(ps.levels() - 1)) % ps.levels();
    g.note(format!("{} level={l} other level={lo}", ps.desc()));
    g.hit();
    let (k, ko) = (kit(g, &ps, l)?, kit(g, &ps, lo)?);
    let (ct, cto) = (random_ct(g, &ps, l, 2)?, random_ct(g, &ps, lo, 2)?);
    let (pt, pto) = (some_pt(g, &ps, l)?, some_pt(g, &ps, lo)?);
    let ct3o = random_ct(g, &ps, lo, 3)?;
    add_refuses(&ct, &cto, "ciphertexts of different levels")?;
    mul_refuses(&ct, &cto, "ciphertexts of different levels")?;
    pt_refuses(&ct, &pto, true, "a plaintext of another level")?;
    pt_refuses(&cto, &pt, true, "a ciphertext of another level")?;
    panics("external product at another level", || &ct * &ko.rgsw)?;
    panics("external product (swapped) at another level", || &ko.rgsw * &ct)?;
    ek_refuses(&k.ek, &cto, "a ciphertext of another level")?;
    if let Some(rk) = &k.rk {
        relin_refuses(rk, &ct3o, "a ciphertext of another level")?;
    }
    if let Some(mu) = &k.mu {
        refused("multiplying by a ciphertext of another level", || mu.multiply(&ct, &cto))?;
        refused("multiplying a ciphertext of another level", || mu.multiply(&cto, &ct))?;
        refused("multiplying ciphertexts of another level", || mu.multiply(&cto, &cto))?;
        if let Some(rko) = &ko.rk {
            let mut m2 = mu.clone();
            refused("a relinearisation key of another level in a multiplication strategy", || m2.enable_relinearization(rko))?;
            ensure!(m2 == *mu, "a refused relinearisation key changed the strategy");
        }
    }
    dot_refuses(&[&ct, &cto], &[&pt, &pt], "a second ciphertext of another level")?;
    dot_refuses(&[&ct, &ct], &[&pt, &pto], "a second plaintext of another level")?;
    dot_refuses(&[&ct], &[&pto], "a plaintext of another level")?;
    dot_refuses(&[&cto, &ct], &[&pto, &pto], "a second ciphertext of another level")?;
    // a ciphertext whose polynomials do not agree
    let mixed = vec![ct[0].clone(), cto[1].clone()];
    refused("a ciphertext mixing levels", || Ciphertext::new(mixed, &ps.par))?;
    let mut bad = ct.clone();
    let i = g.usize_below(2);
    bad[i] = cto[i].clone();
    refused("decrypting a ciphertext with a polynomial of another level", || k.sk.try_decrypt(&bad))?;
    ek_refuses(&k.ek, &bad, "a ciphertext with a polynomial of another level")?;
    dot_refuses(&[&ct, &bad], &[&pt, &pt], "a ciphertext with a polynomial of another level")?;
    dot_refuses(&[&bad], &[&pt], "a ciphertext with a polynomial of another level")?;
    if let Some(mu) = &k.mu {
        refused("multiplying a ciphertext with a polynomial of another level", || mu.multiply(&bad, &ct))?;
        refused("multiplying by a ciphertext with a polynomial of another level", || mu.multiply(&ct, &bad))?;
    }
    if let Some(rk) = &k.rk {
        let mut b3 = random_ct(g, &ps, l, 3)?;
        let i = g.usize_below(3);
        b3[i] = ct3o[i].clone();
        relin_refuses(rk, &b3, "a ciphertext with a polynomial of another level")?;
    }
    Ok(())
}

fn b17_parts(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 4), k: (1, 4), reserve: 20, ..Default::default() })?;
    let parts = *g.pick(&[0usize, 0, 3, 4, 5]);
    // the empty ciphertext is at level 0
    let l = if parts == 0 && g.bool() { 0 } else { g.usize_below(ps.levels()) };
    g.note(format!("{} level={l} parts={parts}", ps.desc()));
    g.label(format!("{parts} parts"));
    g.hit();
    let k = kit(g, &ps, l)?;
    let (ct, odd) = (random_ct(g, &ps, l, 2)?, random_ct(g, &ps, l, parts)?);
    let pt = some_pt(g, &ps, l)?;
    let what = format!("a ciphertext of {parts} parts");
    ek_refuses(&k.ek, &odd, &what)?;
    panics(&format!("external product of {what}"), || &odd * &k.rgsw)?;
    panics(&format!("external product (swapped) of {what}"), || &k.rgsw * &odd)?;
    if let Some(mu) = &k.mu {
        refused(&format!("multiplying {what}"), || mu.multiply(&odd, &ct))?;
        refused(&format!("multiplying by {what}"), || mu.multiply(&ct, &odd))?;
        refused(&format!("multiplying {what} by itself"), || mu.multiply(&odd, &odd))?;
    }
    if let Some(rk) = &k.rk {
        relin_refuses(rk, &ct, "a ciphertext of 2 parts")?;
        if parts != 3 {
            relin_refuses(rk, &odd, &what)?;
        }
    }
    dot_refuses(&[&ct, &odd], &[&pt, &pt], &what)?;
    dot_refuses(&[&odd, &ct], &[&pt, &pt], &what)?;
    if parts > 0 {
        add_refuses(&ct, &odd, &format!("ciphertexts of 2 and {parts} parts"))?;
        let sk = Sk::wrap(k.sk.clone());
        // decryption takes any number of parts
        let d = k.sk.try_decrypt(&odd).ctx("decrypt")?;
        if (&ps.t << 3u32) < *ps.ql(l) {
            let ph = ps.phase(&sk.s, &odd);
            for (c, p) in ps.coeffs(&d, l)?.iter().zip(&ph) {
                let e = ps.dec1(l, p);
                ensure!(*c == e.0 || Some(c) == e.1.as_ref(), "decryption of {what}");
            }
        }
        for (bad, n) in [(vec![], 0), (vec![ct[0].clone()], 1)] {
            refused(&format!("a ciphertext of {n} polynomials"), || Ciphertext::new(bad, &ps.par))?;
        }
        return Ok(());
    }
    // the empty ciphertext: neutral for sums, absorbing for products, refused elsewhere
    refused("decrypting the empty ciphertext", || k.sk.try_decrypt(&odd))?;
    refused("measuring the noise of the empty ciphertext", || unsafe { k.sk.measure_noise(&odd) })?;
    dot_refuses(&[&odd], &[&pt], &what)?;
    pt_refuses(&odd, &pt, false, "the empty ciphertext and a plaintext")?;
    let same = |what: &str, r: Result<Ciphertext, String>, e: &Ciphertext| -> Res<()> {
        // refusing is fine; computing something else is not
        if let Ok(r) = r {
            ensure!(ps.parts(&r) == ps.parts(e), "{what} gives {} parts or another value", r.len());
        }
        Ok(())
    };
    same("ciphertext + zero", no_panic(|| &ct + &odd), &ct)?;
    same("zero + ciphertext", no_panic(|| &odd + &ct), &ct)?;
    same("ciphertext - zero", no_panic(|| &ct - &odd), &ct)?;
    same("zero - ciphertext", no_panic(|| &odd - &ct), &-&ct)?;
    let c3 = random_ct(g, &ps, l, 3)?;
    same("zero + ciphertext of three parts", no_panic(|| &odd + &c3), &c3)?;
    let zero_like = |what: &str, r: Result<Ciphertext, String>| -> Res<()> {
        if let Ok(r) = r {
            ensure!(r.is_empty() || r.len() >= 2 && ps.parts(&r).iter().all(|p| p.iter().all(|x| *x == 0)), "{what} gives a ciphertext of {} parts that is not zero", r.len());
        }
        Ok(())
    };
    zero_like("zero * ciphertext", no_panic(|| &odd * &ct))?;
    zero_like("ciphertext * zero", no_panic(|| &ct * &odd))?;
    zero_like("zero * zero", no_panic(|| &odd * &odd))?;
    zero_like("ciphertext of three parts * zero", no_panic(|| &c3 * &odd))?;
    zero_like("zero * plaintext", no_panic(|| &odd * &pt))?;
    zero_like("- zero", no_panic(|| -&odd))?;
    zero_like("zero + zero", no_panic(|| &odd + &odd))?;
    Ok(())
}

/// Requests beyond what the parameters or a key support.
fn b17_limits(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 4), k: (1, 4), reserve: 20, ..Default::default() })?;
    g.note(ps.desc());
    g.hit();
    let mut r = g.rng();
    let sk = SecretKey::random(&ps.par, &mut r);
    let top = ps.levels() - 1;
    let over = |g: &mut Gen| match g.below(4) {
        0 => top + 1,
        1 => usize::MAX,
        2 => 1 << 32,
        _ => top + 1 + g.usize_below(40),
    };
    let o = over(g);
    let l = g.usize_below(ps.levels());
    g.note(format!("level={l} beyond={o}"));
    refused(&format!("the context at level {o}"), || ps.par.context_at_level(o).map(|_| ()))?;
    refused(&format!("the level context at level {o}"), || ps.par.context_level_at(o).map(|_| ()))?;
    ps.par.context_level_at(l).ctx("context_level_at")?;
    for e in [Encoding::poly_at_level(o), Encoding::simd_at_level(o)] {
        refused(&format!("encoding at level {o}"), || Plaintext::try_encode(&[1u64], e.clone(), &ps.par))?;
        refused(&format!("encoding signed at level {o}"), || Plaintext::try_encode(&[1i64], e.clone(), &ps.par))?;
        refused(&format!("encoding integers at level {o}"), || Plaintext::try_encode(&[BigUint::zero()], e.clone(), &ps.par))?;
        refused(&format!("the zero plaintext at level {o}"), || Plaintext::zero(e.clone(), &ps.par))?;
    }
    let too_many = vec![0u64; ps.n + 1 + g.usize_below(3)];
    refused("encoding more values than the degree", || Plaintext::try_encode(&too_many, Encoding::poly_at_level(l), &ps.par))?;
    refused("encoding more signed values than the degree", || Plaintext::try_encode(&vec![0i64; too_many.len()], Encoding::poly_at_level(l), &ps.par))?;
    refused("encoding more integers than the degree", || Plaintext::try_encode(&vec![BigUint::zero(); too_many.len()], Encoding::poly_at_level(l), &ps.par))?;
    if !ps.simd {
        refused("slot encoding without slots", || Plaintext::try_encode(&[1u64], Encoding::simd_at_level(l), &ps.par))?;
    }
    // keys
    refused(&format!("a relinearisation key for ciphertexts at level {o}"), || RelinearizationKey::new_leveled(&sk, o, 0, &mut r))?;
    refused(&format!("a relinearisation key at level {o}"), || RelinearizationKey::new_leveled(&sk, l, o, &mut r))?;
    refused("a relinearisation key over one modulus", || RelinearizationKey::new_leveled(&sk, top, top, &mut r))?;
    if ps.levels() == 1 {
        refused("a relinearisation key for one modulus", || RelinearizationKey::new(&sk, &mut r))?;
    }
    refused(&format!("an evaluation key for ciphertexts at level {o}"), || EvaluationKeyBuilder::new_leveled(&sk, o, 0))?;
    refused(&format!("an evaluation key at level {o}"), || EvaluationKeyBuilder::new_leveled(&sk, l, o))?;
    if l < top {
        refused("an evaluation key above its ciphertexts", || EvaluationKeyBuilder::new_leveled(&sk, l, l + 1))?;
        // a relinearisation key above its ciphertexts is refused when made or when used
        if ps.levels() - (l + 1) >= 2 {
            if let Ok(rk) = no_panic(|| RelinearizationKey::new_leveled(&sk, l, l + 1, &mut r)).map_err(|e| format!("relinearisation key: {e}"))? {
                let c3 = random_ct(g, &ps, l, 3)?;
                relin_refuses(&rk, &c3, "with a key above the ciphertext")?;
                if let Ok(mu) = no_panic(|| Multiplicator::default(&rk)).map_err(|e| format!("multiplicator: {e}"))? {
                    let c = random_ct(g, &ps, l, 2)?;
                    refused("multiplying with a key above the ciphertext", || mu.multiply(&c, &c))?;
                }
            }
        }
    }
    let mut b = EvaluationKeyBuilder::new_leveled(&sk, l, l).ctx("builder")?;
    let lg = ps.n.ilog2() as usize;
    for s in [0, ps.n / 2, ps.n / 2 + 1, ps.n, usize::MAX] {
        refused(&format!("enabling a column rotation by {s}"), || b.enable_column_rotation(s).map(|_| ()))?;
    }
    for e in [lg + 1, lg + 2, 64, usize::MAX] {
        refused(&format!("enabling expansion to depth {e}"), || b.enable_expansion(e).map(|_| ()))?;
    }
    // a key with nothing enabled does nothing, and refused requests enabled nothing
    let ek = b.build(&mut r).ctx("empty key")?;
    let ct = random_ct(g, &ps, l, 2)?;
    ensure!(!ek.supports_row_rotation() && !ek.supports_inner_sum() && !ek.supports_expansion(1), "an empty key supports operations");
    refused("a row rotation the key does not support", || ek.rotates_rows(&ct))?;
    refused("an inner sum the key does not support", || ek.computes_inner_sum(&ct))?;
    refused("an expansion the key does not support", || ek.expands(&ct, 2))?;
    for s in [0, 1, 2, ps.n / 2 - 1, ps.n / 2, usize::MAX] {
        ensure!(!ek.supports_column_rotation_by(s), "an empty key supports a rotation by {s}");
        refused(&format!("a rotation by {s} the key does not support"), || ek.rotates_columns_by(&ct, s))?;
    }
    // expansion sizes
    let mut b = EvaluationKeyBuilder::new_leveled(&sk, l, l).ctx("builder")?;
    let d = g.range(0, lg - 1);
    b.enable_expansion(d).ctx("expansion")?;
    let ek = b.build(&mut r).ctx("key")?;
    for s in [0, (1usize << d) + 1, ps.n + 1, usize::MAX] {
        refused(&format!("expanding to {s} with a key of depth {d}"), || ek.expands(&ct, s))?;
    }
    refused(&format!("switching down to level {o}"), || ct.clone().switch_to_level(o))?;
    Ok(())
}
