//! B23: serialised data mean the same to every build of the library. The other build
//! (the other NTT backend, with or without debug assertions) runs as a child process
//! that receives serialised objects and operations and returns serialised results.
use crate::choice::*;
use crate::model::*;
use crate::p_ops::{rand_ct, rk_levels};
use crate::p_wire::{KINDS, Kind, bytes_of, damage, restructure, some_ek};
use crate::runner::*;
use fhe::bfv::{BfvParameters, Ciphertext, Encoding, EvaluationKey, Multiplicator, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey, dot_product_scalar};
use fhe::proto::bfv as pb;
use fhe_math::rns::ScalingFactor;
use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis, SubstitutionExponent, scaler::Scaler, switcher::Switcher, traits::TryConvertFrom};
use fhe_traits::{Deserialize, DeserializeParametrized, FheDecoder, FheDecrypter, FheEncoder, FheEncrypter, Serialize};
use num_bigint::BigUint;
use num_traits::ToPrimitive;
use prost::Message;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B23",
        rule: "a case draws parameters and objects, sends their bytes with a list of operations to a process running the other build and compares every result with its own; non-trivial = at least one operation gave a result in both builds",
        subs: vec![
            sub("exchange", 3_000, 60_000, b23_exchange),
            sub("encrypt", 1_000, 20_000, b23_encrypt),
            sub("damaged", 2_500, 50_000, b23_damaged),
            sub("seeded", 600, 12_000, b23_seeded),
            sub("slots", 600, 12_000, b23_slots),
        ],
    }]
}

// ------------------------------------------------------------------ the other build

struct Peer {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local! {
    static PEER: RefCell<Option<Peer>> = const { RefCell::new(None) };
}
/// Where the other build lies: FV_PEER, or beside this one as check.py lays them out.
fn peer_path() -> Res<String> {
    if let Ok(p) = std::env::var("FV_PEER") {
        return Ok(p);
    }
    let me = std::env::current_exe().ctx("own path")?.to_string_lossy().into_owned();
    for (a, b) in [("release/release/fv", "checked/checked/fv"), ("checked/checked/fv", "release/release/fv")] {
        if let Some(d) = me.strip_suffix(a) {
            return Ok(format!("{d}{b}"));
        }
    }
    Err("the other build was not found; set FV_PEER".into())
}
fn ask(req: &Value) -> Res<Value> {
    PEER.with(|c| {
        let mut c = c.borrow_mut();
        if c.is_none() {
            let path = peer_path()?;
            let mut child = Command::new(&path).arg("peer").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{path}: {e}"))?;
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            *c = Some(Peer { child, to, from });
        }
        let p = c.as_mut().unwrap();
        let mut line = req.to_string();
        line.push('\n');
        let mut back = String::new();
        let ok = p.to.write_all(line.as_bytes()).and_then(|_| p.to.flush()).and_then(|_| p.from.read_line(&mut back));
        if ok.is_err() || back.is_empty() {
            *c = None;
            return Err("the process of the other build ended while it worked on this case".into());
        }
        serde_json::from_str(&back).ctx("answer")
    })
}
/// The loop of the child process.
pub fn serve_stdin() {
    let (i, mut o) = (std::io::stdin(), std::io::stdout());
    for line in i.lock().lines() {
        let Ok(line) = line else { return };
        let r = serde_json::from_str(&line).map_err(|e| e.to_string()).map(|v| serve(&v)).unwrap_or_else(|e| json!({"bad": e}));
        if writeln!(o, "{r}").and_then(|_| o.flush()).is_err() {
            return;
        }
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(v: &Value) -> Option<Vec<u8>> {
    let s = v.as_str()?;
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

// ------------------------------------------------------------------ what a build does with a request

fn ct_out(r: fhe::Result<Ciphertext>) -> Res<Vec<u8>> {
    match r {
        Ok(mut c) => {
            // drop the seed: results are compared as explicit polynomials
            let _ = c.first_mut();
            Ok(c.to_bytes())
        }
        Err(_) => Err("refused".into()),
    }
}
fn pt_out<E>(ps: &Ps, r: Result<Plaintext, E>) -> Res<Vec<u8>> {
    let Ok(p) = r else { return Err("refused".into()) };
    let mut v = vec![p.level() as u8];
    for c in ps.coeffs(&p, p.level())? {
        let b = c.to_bytes_le();
        v.push(b.len() as u8);
        v.extend(b);
    }
    Ok(v)
}
fn word(v: &Value, k: &str) -> usize {
    v[k].as_u64().unwrap_or(0) as usize
}
/// The result of each operation, as hexadecimal bytes, or as "refused".
fn serve(req: &Value) -> Value {
    let r = no_panic(|| -> Res<Value> {
        let par = BfvParameters::try_deserialize(&unhex(&req["par"]).ok_or("par")?).ctx("parameters")?;
        let ps = Ps::from_par(std::sync::Arc::new(par), word(req, "var"));
        if let Some(k) = req["accept"].as_u64() {
            let b = unhex(&req["bytes"]).ok_or("bytes")?;
            return Ok(json!({"out": [accept(&ps, KINDS[k as usize], &b)?]}));
        }
        let mut out = vec![];
        for o in req["ops"].as_array().ok_or("ops")? {
            let r = no_panic(|| one(&ps, req, o)).unwrap_or_else(|e| Err(format!("panicked: {e}")));
            out.push(match r {
                Ok(b) => hex(&b),
                Err(e) => format!("!{e}"),
            });
        }
        Ok(json!({"out": out}))
    });
    match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => json!({"bad": e}),
        Err(e) => json!({"bad": format!("panicked: {e}")}),
    }
}
/// Whether the bytes are an object of that kind, and which.
fn accept(ps: &Ps, kind: Kind, b: &[u8]) -> Res<String> {
    let par = &ps.par;
    let r = match kind {
        Kind::Sk => SecretKey::from_bytes(b, par).map(|x| x.to_bytes()),
        Kind::Pk => PublicKey::from_bytes(b, par).map(|x| x.to_bytes()),
        Kind::Rk => RelinearizationKey::from_bytes(b, par).map(|x| x.to_bytes()),
        Kind::Ek => EvaluationKey::from_bytes(b, par).map(|_| vec![]),
        Kind::Ct => Ciphertext::from_bytes(b, par).map(|x| x.to_bytes()),
        Kind::Rgsw => RGSWCiphertext::from_bytes(b, par).map(|x| x.to_bytes()),
    };
    Ok(match r {
        Ok(x) => hex(&x),
        Err(_) => "!refused".into(),
    })
}
const OPS: usize = 22;
fn one(ps: &Ps, req: &Value, o: &Value) -> Res<Vec<u8>> {
    let (f, x) = (word(o, "f"), word(o, "x"));
    let par = &ps.par;
    let get = |k: &str| unhex(&req[k]).ok_or(format!("no {k}"));
    let ct = |i: usize| -> Res<Ciphertext> {
        let v = req["ct"].as_array().ok_or("ct")?;
        Ciphertext::from_bytes(&unhex(&v[i % v.len()]).ok_or("ct")?, par).ctx("ciphertext")
    };
    let (i, j) = (word(o, "a"), word(o, "b"));
    let m: Vec<BigUint> = req["m"].as_array().ok_or("m")?.iter().map(|x| x.as_str().unwrap_or("0").parse().unwrap_or_default()).collect();
    let l = word(req, "level");
    let pt = || ps.pt(&m, l);
    let sk = || SecretKey::from_bytes(&get("sk")?, par).ctx("secret key");
    let rk = || RelinearizationKey::from_bytes(&get("rk")?, par).ctx("relinearisation key");
    let ek = || EvaluationKey::from_bytes(&get("ek")?, par).ctx("evaluation key");
    match f {
        0 => pt_out(ps, sk()?.try_decrypt(&ct(i)?)),
        1 => ct_out(Ok(&ct(i)? + &ct(j)?)),
        2 => ct_out(Ok(&ct(i)? - &ct(j)?)),
        3 => ct_out(Ok(&ct(i)? * &ct(j)?)),
        4 => ct_out(Ok(&ct(i)? + &pt()?)),
        5 => ct_out(Ok(&ct(i)? * &pt()?)),
        6 => {
            let mut c = &ct(i)? * &ct(j)?;
            ct_out(rk()?.relinearizes(&mut c).map(|_| c))
        }
        7 => {
            let mut mu = Multiplicator::default(&rk()?).ctx("strategy")?;
            if x % 3 == 0 {
                mu.enable_mod_switching().ctx("switching")?;
            }
            ct_out(mu.multiply(&ct(i)?, &ct(j)?))
        }
        8 => ct_out(ek()?.rotates_rows(&ct(i)?)),
        9 => ct_out(ek()?.rotates_columns_by(&ct(i)?, 1 + x % (ps.n / 2 - 1))),
        10 => ct_out(ek()?.computes_inner_sum(&ct(i)?)),
        11 => match ek()?.expands(&ct(i)?, 1 + x % 4) {
            Ok(v) => Ok(v.into_iter().map(|c| ct_out(Ok(c))).collect::<Res<Vec<_>>>()?.concat()),
            Err(_) => Err("refused".into()),
        },
        12 => {
            let mut c = ct(i)?;
            ct_out(c.switch_to_level(l + x % (ps.levels() - l)).map(|_| c))
        }
        13 => ct_out(Ok(&ct(i)? * &RGSWCiphertext::from_bytes(&get("rgsw")?, par).ctx("gadget")?)),
        14 => {
            let (a, b, p) = (ct(i)?, ct(j)?, pt()?);
            ct_out(dot_product_scalar([&a, &b].into_iter(), [&p, &p].into_iter()))
        }
        15 => match unsafe { sk()?.measure_noise(&ct(i)?) } {
            Ok(n) => Ok((n as u64).to_le_bytes().to_vec()),
            Err(_) => Err("refused".into()),
        },
        16 => ct_out(Ok(ct(i)?)),
        17 => Ok([sk()?.to_bytes(), par.to_bytes()].concat()),
        18 => pt_out(ps, pt()),
        // generation from a seed does not depend on the build
        19 => Ok(SecretKey::random(par, &mut ChaCha8Rng::seed_from_u64(x as u64)).to_bytes()),
        20 => Ok(PublicKey::from_bytes(&get("pk")?, par).ctx("public key")?.to_bytes()),
        21 => ct_out(Ok(-&ct(i)?)),
        // encryption for the other side, by both keys
        30 => ct_out(PublicKey::from_bytes(&get("pk")?, par).ctx("public key")?.try_encrypt(&pt()?, &mut ChaCha8Rng::seed_from_u64(x as u64))),
        31 => ct_out(sk()?.try_encrypt(&pt()?, &mut ChaCha8Rng::seed_from_u64(x as u64))),
        // the numbers a seed expands to
        40 => {
            let c = ct(i)?;
            Ok(c[c.len() - 1].coefficients().iter().flat_map(|x| x.to_le_bytes()).collect())
        }
        // slots of a polynomial and the polynomial of slots
        50 | 51 => {
            let v: Vec<u64> = m.iter().map(|x| x.to_u64().unwrap_or(0)).collect();
            let (from, to) = if f == 50 { (Encoding::simd_at_level(l), Encoding::poly_at_level(l)) } else { (Encoding::poly_at_level(l), Encoding::simd_at_level(l)) };
            let p = Plaintext::try_encode(&v, from.clone(), par).ctx("encode")?;
            // through a ciphertext, which forgets the encoding
            let k = sk_from(par, &vec![0; ps.n])?;
            let c: Ciphertext = k.try_encrypt(&p, &mut ChaCha8Rng::seed_from_u64(1)).ctx("encrypt")?;
            let d = k.try_decrypt(&c).ctx("decrypt")?;
            Ok(Vec::<u64>::try_decode(&d, to).ctx("decode")?.iter().flat_map(|x| x.to_le_bytes()).collect())
        }
        // the polynomial layer at the level of the request
        60..=70 => ring_one(ps, f - 60, x, l),
        _ => Err("unknown operation".into()),
    }
}

const RING_OPS: usize = 10;
/// An operation of the polynomial layer on values that follow from `x`.
fn ring_one(ps: &Ps, f: usize, x: usize, l: usize) -> Res<Vec<u8>> {
    let c = ps.par.context_at_level(l).ctx("context")?;
    let top = ps.par.context_at_level(0).ctx("context")?;
    let mut seed = [7u8; 32];
    seed[0] = (x % 3) as u8;
    let p = Poly::<PowerBasis>::random(c, &mut ChaCha8Rng::from_seed(seed));
    let n = ps.n;
    let dump = |p: &Poly<Ntt>| -> Res<Vec<u8>> { Ok(p.coefficients().iter().flat_map(|v| v.to_le_bytes()).collect()) };
    match f {
        0 => dump(&Poly::<Ntt>::random_from_seed(c, seed)),
        1 => dump(&Poly::<PowerBasis>::random_from_seed(c, seed).into_ntt()),
        2 => dump(&p.into_ntt().substitute(&SubstitutionExponent::new(c, [3, 5, 2 * n - 1, n + 1][x % 4]).ctx("exponent")?).ctx("substitute")?),
        3 => dump(&p.substitute(&SubstitutionExponent::new(c, [3, 5, 2 * n - 1, n + 1][x % 4]).ctx("exponent")?).ctx("substitute")?.into_ntt()),
        4 => {
            let mut p = p;
            p.multiply_inverse_power_of_x([1, n - 1, n, 2 * n - 1, n + 1][x % 5]).ctx("power")?;
            dump(&p.into_ntt())
        }
        5 => dump(&p.into_ntt()),
        6 => dump(&Poly::<PowerBasis>::small(c, 1 + x % 3, &mut ChaCha8Rng::from_seed(seed)).ctx("small")?.into_ntt()),
        7 => {
            let fs = [(1u32, 2u32), (3, 2), (7, 5)];
            let (a, b) = fs[x % 3];
            dump(&p.scale(&Scaler::new(c, top, ScalingFactor::new(&BigUint::from(a), &BigUint::from(b))).ctx("scaler")?).ctx("scale")?.into_ntt())
        }
        8 => dump(&p.switch(&Switcher::new(c, top).ctx("switcher")?).ctx("switch")?.into_ntt()),
        _ => {
            let v: Vec<u64> = (0..n as u64).map(|i| i.wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(x as u64 % 3)).collect();
            dump(&Poly::<PowerBasis>::try_convert_from(v.as_slice(), c, x % 2 == 0).ctx("poly")?.into_ntt())
        }
    }
}

// ------------------------------------------------------------------ requests

fn port_params(g: &mut Gen, simd: bool) -> Res<Ps> {
    params(g, &Spec { log_n: (3, 6), top: 11, k: (1, 4), reserve: 20, simd, ..Default::default() })
}
fn random_shoup(g: &mut Gen, ps: &Ps, l: usize, n: usize) -> Res<Vec<Vec<u8>>> {
    let ctx = ps.par.context_at_level(l).ctx("context")?;
    let mut r = g.rng();
    Ok((0..n).map(|_| Poly::<NttShoup>::random(ctx, &mut r).to_bytes()).collect())
}
/// A key with explicit polynomials in place of its seed.
fn explicit_ksk(g: &mut Gen, ps: &Ps, k: &mut Option<pb::KeySwitchingKey>) -> Res<()> {
    if let Some(k) = k {
        if !k.seed.is_empty() {
            k.seed.clear();
            k.c1 = random_shoup(g, ps, k.ksk_level as usize, k.c0.len())?;
        }
    }
    Ok(())
}
fn explicit(g: &mut Gen, ps: &Ps, kind: Kind, b: &[u8]) -> Res<Vec<u8>> {
    Ok(match kind {
        Kind::Rk => {
            let mut p = pb::RelinearizationKey::decode(b).ctx("decode")?;
            explicit_ksk(g, ps, &mut p.ksk)?;
            p.encode_to_vec()
        }
        Kind::Ek => {
            let mut p = pb::EvaluationKey::decode(b).ctx("decode")?;
            for k in p.gk.iter_mut() {
                explicit_ksk(g, ps, &mut k.ksk)?;
            }
            p.encode_to_vec()
        }
        Kind::Rgsw => {
            let mut p = pb::RgswCiphertext::decode(b).ctx("decode")?;
            explicit_ksk(g, ps, &mut p.ksk0)?;
            explicit_ksk(g, ps, &mut p.ksk1)?;
            p.encode_to_vec()
        }
        Kind::Pk => {
            let mut c = PublicKey::from_bytes(b, &ps.par).ctx("public key")?.to_bytes();
            let mut p = pb::PublicKey::decode(c.as_slice()).ctx("decode")?;
            if let Some(x) = p.c.as_mut() {
                if !x.seed.is_empty() {
                    let y = Ciphertext::from_bytes(&x.encode_to_vec(), &ps.par).ctx("ciphertext")?;
                    *x = pb::Ciphertext::decode(ct_out(Ok(y))?.as_slice()).ctx("decode")?;
                    c = p.encode_to_vec();
                }
            }
            c
        }
        _ => b.to_vec(),
    })
}
/// Parameters, keys and ciphertexts of a case as a request without operations.
fn request(g: &mut Gen, ps: &Ps, sk: &Sk, l: usize, m: &[BigUint], seeded: bool) -> Res<Value> {
    let mut ct = vec![];
    for _ in 0..g.range(1, 3) {
        let parts = *g.pick(&[2, 2, 2, 3]);
        let c = match g.below(3) {
            0 if !seeded => rand_ct(g, ps, l, parts)?,
            1 if !seeded => PublicKey::new(&sk.sk, &mut g.rng()).try_encrypt(&ps.pt(m, l)?, &mut g.rng()).ctx("encrypt")?,
            _ => sk.sk.try_encrypt(&ps.pt(m, l)?, &mut g.rng()).ctx("encrypt")?,
        };
        ct.push(hex(&if seeded { c.to_bytes() } else { ct_out(Ok(c))? }));
    }
    let mut r = g.rng();
    let put = |g: &mut Gen, kind: Kind, b: Vec<u8>| -> Res<Value> { Ok(json!(hex(&if seeded { b } else { explicit(g, ps, kind, &b)? }))) };
    let mut v = json!({"par": hex(&ps.par.to_bytes()), "var": ps.var, "level": l, "ct": ct, "sk": hex(&sk.sk.to_bytes()),
        "m": m.iter().map(|x| x.to_string()).collect::<Vec<_>>()});
    v["pk"] = put(g, Kind::Pk, PublicKey::new(&sk.sk, &mut r).to_bytes())?;
    if let Some((_, kl)) = rk_levels(g, ps) {
        if let Ok(k) = RelinearizationKey::new_leveled(&sk.sk, l, kl.min(l), &mut r) {
            v["rk"] = put(g, Kind::Rk, k.to_bytes())?;
        }
    }
    let (ek, cl) = some_ek(g, ps, sk)?;
    let ek = if cl == l {
        ek
    } else {
        let mut b = fhe::bfv::EvaluationKeyBuilder::new_leveled(&sk.sk, l, g.range(0, l)).ctx("builder")?;
        b.enable_inner_sum().ctx("inner")?.enable_column_rotation(1).ctx("column")?.enable_expansion(2).ctx("expansion")?;
        b.build(&mut r).ctx("evaluation key")?
    };
    v["ek"] = put(g, Kind::Ek, ek.to_bytes())?;
    let gs: RGSWCiphertext = sk.sk.try_encrypt(&ps.pt(m, l)?, &mut r).ctx("gadget")?;
    v["rgsw"] = put(g, Kind::Rgsw, gs.to_bytes())?;
    Ok(v)
}
fn outputs(v: &Value, who: &str) -> Res<Vec<String>> {
    if let Some(e) = v["bad"].as_str() {
        return Err(format!("{who}: {e}"));
    }
    Ok(v["out"].as_array().ok_or("no results")?.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect())
}
/// Both builds' results of a request.
fn both(req: &Value) -> Res<(Vec<String>, Vec<String>)> {
    let theirs = ask(req)?;
    Ok((outputs(&serve(req), "this build")?, outputs(&theirs, "the other build")?))
}
fn same_kind(a: &str, b: &str) -> bool {
    // a build with debug assertions may refuse by panicking what the other refuses by an error or by panicking elsewhere
    a == b || a.starts_with('!') && b.starts_with('!')
}

fn b23_exchange(g: &mut Gen) -> Res<()> {
    let ps = port_params(g, false)?;
    let sk = Sk::gen_(g, &ps)?;
    let l = g.usize_below(ps.levels());
    let m = ps.msg(g);
    let mut req = request(g, &ps, &sk, l, &m, false)?;
    let n = g.range(4, 12);
    let ops: Vec<Value> = (0..n).map(|_| json!({"f": g.usize_below(OPS), "a": g.usize_below(3), "b": g.usize_below(3), "x": g.usize_below(1 << 20)})).collect();
    g.note(format!("{} level={l} operations {:?}", ps.desc(), ops.iter().map(|o| word(o, "f")).collect::<Vec<_>>()));
    req["ops"] = json!(ops);
    let (a, b) = both(&req)?;
    ensure_eq!(a.len(), b.len(), "number of results");
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        if !x.starts_with('!') {
            g.hit();
            g.label(format!("operation {}", word(&ops[i], "f")));
        }
        ensure!(same_kind(x, y), "operation {} gives {} in this build and {} in the other", ops[i], short(x), short(y));
    }
    Ok(())
}
fn short(s: &str) -> String {
    s.chars().take(80).collect()
}
/// Each build decrypts what the other encrypts.
fn b23_encrypt(g: &mut Gen) -> Res<()> {
    let ps = port_params(g, false)?;
    let sk = Sk::gen_(g, &ps)?;
    let l = g.usize_below(ps.levels());
    let m = ps.msg(g);
    g.note(format!("{} level={l}", ps.desc()));
    let pk = PublicKey::new(&sk.sk, &mut g.rng());
    let pkb = explicit(g, &ps, Kind::Pk, &pk.to_bytes())?;
    let ours: Ciphertext = sk.sk.try_encrypt(&ps.pt(&m, l)?, &mut g.rng()).ctx("encrypt")?;
    let ours = ct_out(Ok(ours))?;
    let req = json!({"par": hex(&ps.par.to_bytes()), "var": ps.var, "level": l, "ct": [hex(&ours)], "sk": hex(&sk.sk.to_bytes()), "pk": hex(&pkb),
        "m": m.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
        "ops": [{"f": 30, "x": g.usize_below(1 << 20)}, {"f": 31, "x": g.usize_below(1 << 20)}, {"f": 0, "a": 0}]});
    let out = outputs(&ask(&req)?, "the other build")?;
    for (i, nu) in [ps.nu_pk(l, sk.s1), ps.nu_sk()].iter().enumerate() {
        ensure!(!out[i].starts_with('!'), "encryption in the other build: {}", out[i]);
        let c = Ciphertext::from_bytes(&unhex(&json!(out[i])).ok_or("hex")?, &ps.par).ctx("ciphertext of the other build")?;
        if ps.ok(l, nu) {
            g.hit();
            ps.expect(&sk, &c, &m, nu, "a ciphertext of the other build")?;
        }
    }
    if ps.ok(l, &ps.nu_sk()) {
        let want = hex(&pt_out(&ps, ps.pt(&m, l))?);
        ensure!(out[2] == want, "the other build decrypts a ciphertext of this one to another message");
    }
    Ok(())
}
/// Both builds accept and refuse the same bytes.
fn b23_damaged(g: &mut Gen) -> Res<()> {
    let ps = port_params(g, false)?;
    let sk = Sk::gen_(g, &ps)?;
    let k = g.usize_below(KINDS.len());
    let kind = KINDS[k];
    let Some(b) = bytes_of(g, &ps, &sk, kind)? else { return Ok(()) };
    let b = explicit(g, &ps, kind, &b)?;
    let c = if g.chance(2, 3) {
        restructure(g, &ps, kind, &b)?
    } else {
        let mut c = b.clone();
        damage(g, &mut c);
        c
    };
    if c != b {
        g.hit();
    }
    g.note(format!("{} {kind:?}, {} bytes", ps.desc(), c.len()));
    let req = json!({"par": hex(&ps.par.to_bytes()), "var": ps.var, "accept": k, "bytes": hex(&c)});
    let (x, y) = both(&req)?;
    let (x, y) = (&x[0], &y[0]);
    g.label(if x.starts_with('!') { "refused" } else { "accepted" });
    ensure!(x.starts_with('!') == y.starts_with('!'), "bytes of a {kind:?} are {} by this build and {} by the other", if x.starts_with('!') { "refused" } else { "accepted" }, if y.starts_with('!') { "refused" } else { "accepted" });
    ensure!(x == y, "both builds accept the bytes of a {kind:?} but write the object differently");
    Ok(())
}
/// Objects that carry a seed in place of polynomials.
fn b23_seeded(g: &mut Gen) -> Res<()> {
    let ps = port_params(g, false)?;
    let sk = Sk::gen_(g, &ps)?;
    let l = g.usize_below(ps.levels());
    let m = ps.msg(g);
    g.note(format!("{} level={l}", ps.desc()));
    let mut req = request(g, &ps, &sk, l, &m, true)?;
    req["ops"] = json!([{"f": 40}, {"f": 16}, {"f": 0}, {"f": 6, "a": 0, "b": 1}, {"f": 10}, {"f": 13}]);
    let (a, b) = both(&req)?;
    ensure!(a[0] == b[0] && !a[0].starts_with('!'), "a seed expands to other numbers in the other build");
    g.hit();
    if ps.ok(l, &ps.nu_sk()) {
        let want = hex(&pt_out(&ps, ps.pt(&m, l))?);
        ensure!(a[2] == want, "this build decrypts its own ciphertext to another message");
    }
    for (x, y) in a.iter().zip(&b) {
        ensure!(x.starts_with('!') == y.starts_with('!'), "seeded objects: {} in this build and {} in the other", short(x), short(y));
    }
    ensure!(a == b, "objects written with a seed have other polynomials in a build with the other NTT backend");
    Ok(())
}
/// Slot encodings.
fn b23_slots(g: &mut Gen) -> Res<()> {
    let ps = port_params(g, true)?;
    let Some(t) = ps.tu else { return Ok(()) };
    let l = g.usize_below(ps.levels());
    let v = bulk(g, ps.n, t - 1);
    g.note(format!("{} level={l} slots {:?}", ps.desc(), &v[..8]));
    if !ps.simd || !ps.ok(l, &ps.nu_sk()) {
        return Ok(());
    }
    g.hit();
    let mk = |v: &[u64], f: usize| -> Value {
        json!({"par": hex(&ps.par.to_bytes()), "var": ps.var, "level": l, "ct": [], "m": v.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "ops": [{"f": f}]})
    };
    let words = |s: &str| -> Res<Vec<u64>> { Ok(unhex(&json!(s)).ok_or(format!("slots: {s}"))?.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()) };
    let poly = words(&outputs(&serve(&mk(&v, 50)), "this build")?[0])?;
    let back = words(&outputs(&serve(&mk(&poly, 51)), "this build")?[0])?;
    ensure!(back == v, "slots do not come back in this build");
    let theirs = words(&outputs(&ask(&mk(&poly, 51))?, "the other build")?[0])?;
    let (mut x, mut y) = (theirs.clone(), v.clone());
    x.sort();
    y.sort();
    ensure!(x == y, "the other build finds other values in the slots of a plaintext");
    // and the other way round
    let tp = words(&outputs(&ask(&mk(&v, 50))?, "the other build")?[0])?;
    let tv = words(&outputs(&ask(&mk(&tp, 51))?, "the other build")?[0])?;
    ensure!(tv == v, "slots do not come back in the other build");
    ensure!(theirs == v, "the slots of a plaintext come in another order in a build with the other NTT backend");
    Ok(())
}

// ------------------------------------------------------------------ B22: what was computed before

/// Parameters that share much, but not everything, with `ps`.
fn sibling(g: &mut Gen, ps: &Ps) -> Res<Option<(Ps, &'static str)>> {
    let (mut n, mut q, mut t, mut var) = (ps.n, ps.q.clone(), ps.t.clone(), ps.var);
    let what = match g.below(6) {
        0 | 1 => {
            let all = g.bool();
            let at = g.usize_below(q.len());
            for i in 0..q.len() {
                if all || i == at {
                    let (b, k) = (64 - q[i].leading_zeros() as usize, g.usize_below(6));
                    let Some(p) = (k..k + 12).filter_map(|j| crate::num::ntt_prime_at(false, b, 2 * n as u64, j)).find(|p| !q.contains(p)) else { return Ok(None) };
                    q[i] = p;
                }
            }
            "other moduli"
        }
        2 => {
            q.rotate_left(1);
            "moduli in another order"
        }
        3 => {
            let bits = (ps.ql(0).bits() as usize).saturating_sub(20);
            let Some(x) = plain_modulus(g, n, &q, bits.max(2), ps.simd, true) else { return Ok(None) };
            t = x;
            "another plaintext modulus"
        }
        4 => {
            n /= 2;
            "half the degree"
        }
        _ => {
            var = 1 + var % 32;
            if q.len() > 1 && g.bool() {
                q.pop();
            }
            "another variance"
        }
    };
    let mut b = fhe::bfv::BfvParametersBuilder::new();
    b.set_degree(n).set_moduli(&q).set_variance(var);
    match t.to_u64() {
        Some(tu) => b.set_plaintext_modulus(tu),
        None => b.set_plaintext_modulus_biguint(t),
    };
    Ok(b.build_arc().ok().map(|par| (Ps { simd: ps.simd, ..Ps::from_par(par, var) }, what)))
}
/// The same seeds in both requests, so that only the parameters differ.
fn set_seed(kind: Kind, b: &[u8], s: u8) -> Res<Vec<u8>> {
    let put = |v: &mut Vec<u8>| {
        if !v.is_empty() {
            *v = vec![s; v.len()]
        }
    };
    let ksk = |k: &mut Option<pb::KeySwitchingKey>| {
        if let Some(k) = k {
            put(&mut k.seed)
        }
    };
    Ok(match kind {
        Kind::Rk => {
            let mut p = pb::RelinearizationKey::decode(b).ctx("decode")?;
            ksk(&mut p.ksk);
            p.encode_to_vec()
        }
        Kind::Ek => {
            let mut p = pb::EvaluationKey::decode(b).ctx("decode")?;
            p.gk.iter_mut().for_each(|k| ksk(&mut k.ksk));
            p.encode_to_vec()
        }
        Kind::Rgsw => {
            let mut p = pb::RgswCiphertext::decode(b).ctx("decode")?;
            ksk(&mut p.ksk0);
            ksk(&mut p.ksk1);
            p.encode_to_vec()
        }
        Kind::Ct => {
            let mut p = pb::Ciphertext::decode(b).ctx("decode")?;
            put(&mut p.seed);
            p.encode_to_vec()
        }
        _ => b.to_vec(),
    })
}
fn set_seeds(v: &mut Value, s: u8) -> Res<()> {
    for (k, kind) in [("rk", Kind::Rk), ("ek", Kind::Ek), ("rgsw", Kind::Rgsw)] {
        if v[k].is_string() {
            v[k] = json!(hex(&set_seed(kind, &unhex(&v[k]).ok_or("hex")?, s)?));
        }
    }
    for c in v["ct"].as_array_mut().ok_or("ct")? {
        *c = json!(hex(&set_seed(Kind::Ct, &unhex(c).ok_or("hex")?, s)?));
    }
    Ok(())
}
/// The answers of a process of this build that was started for this question.
fn ask_fresh(req: &Value) -> Res<Value> {
    let me = std::env::current_exe().ctx("own path")?;
    let mut child = Command::new(me).arg("peer").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ctx("child")?;
    let mut to = child.stdin.take().unwrap();
    let line = format!("{req}\n");
    let h = std::thread::spawn(move || to.write_all(line.as_bytes()));
    let out = child.wait_with_output().ctx("child")?;
    let _ = h.join();
    serde_json::from_slice(&out.stdout).ctx("answer of the child process")
}
/// Two parameter sets that share much are used in turn; every result is what a process
/// that never saw the other set computes.
pub fn b22_history(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 6), top: 11, k: (1, 4), reserve: 20, ..Default::default() })?;
    let Some((po, what)) = sibling(g, &ps)? else { return Ok(()) };
    let sk = Sk::gen_(g, &ps)?;
    let so = if po.n == ps.n { Sk::wrap(sk_from(&po.par, &sk_coeffs(&sk.sk))?) } else { Sk::gen_(g, &po)? };
    let l = g.usize_below(ps.levels().min(po.levels()));
    let m = ps.msg(g);
    let mo = if po.n == ps.n && po.t == ps.t { m.clone() } else { po.msg(g) };
    let mut a = request(g, &ps, &sk, l, &m, true)?;
    let mut b = request(g, &po, &so, l, &mo, true)?;
    let s = g.below(4) as u8;
    set_seeds(&mut a, s)?;
    set_seeds(&mut b, s)?;
    let k = g.range(4, 10);
    let ops: Vec<Value> = (0..k)
        .map(|_| {
            let f = if g.bool() { g.usize_below(OPS) } else { 60 + g.usize_below(RING_OPS) };
            json!({"f": f, "a": g.usize_below(3), "b": g.usize_below(3), "x": g.usize_below(1 << 20)})
        })
        .collect();
    g.note(format!("{} and {what}: {} level={l} operations {:?}", ps.desc(), po.desc(), ops.iter().map(|o| word(o, "f")).collect::<Vec<_>>()));
    g.label(what);
    let first = g.bool();
    let mut got = [vec![], vec![]];
    for o in &ops {
        for i in [first as usize, 1 - first as usize] {
            let mut r = if i == 0 { a.clone() } else { b.clone() };
            r["ops"] = json!([o]);
            got[i].extend(outputs(&serve(&r), "this process")?);
        }
    }
    for (i, mut r) in [a, b].into_iter().enumerate() {
        r["ops"] = json!(ops);
        let want = outputs(&ask_fresh(&r)?, "a fresh process")?;
        ensure_eq!(want.len(), got[i].len(), "number of results");
        for (j, (x, y)) in got[i].iter().zip(&want).enumerate() {
            if !y.starts_with('!') {
                g.hit();
            }
            ensure!(x == y || same_kind(x, y), "operation {} gives {} after work with other parameters and {} in a process that saw only these", ops[j], short(x), short(y));
        }
    }
    Ok(())
}
