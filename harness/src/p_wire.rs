//! B14-B16: serialisation round trips, untrusted bytes, the parameter builder.
use crate::choice::*;
use crate::model::*;
use crate::num;
use crate::p_ops::{ek_levels, rand_ct, rk_levels, sane};
use crate::runner::*;
use fhe::bfv::{BfvParameters, BfvParametersBuilder, Ciphertext, Encoding, EvaluationKey, EvaluationKeyBuilder, Plaintext, PublicKey, RGSWCiphertext, RelinearizationKey, SecretKey};
use fhe::proto::bfv as pb;
use fhe_math::rq::{Ntt, Poly};
use fhe_traits::{Deserialize, DeserializeParametrized, FheDecrypter, FheEncrypter, Serialize};
use num_bigint::BigUint;
use num_traits::{One, ToPrimitive, Zero};
use prost::Message;
use rand::Rng;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "B14",
            rule: "a case draws parameters, a key and one object of a drawn kind (or a seeded ciphertext and a sequence of changes to it), serialises it and reads it back; non-trivial = the object is not the zero object",
            subs: vec![sub("objects", 6_000, 180_000, b14_objects), sub("seeded", 6_000, 180_000, b14_seeded), sub("parameters", 1_200, 30_000, b14_parameters)],
        },
        Prop {
            id: "B15",
            rule: "a case draws an object of a drawn kind, damages its bytes or its wire structure (or draws bytes at random), reads them and uses whatever is accepted; non-trivial = the bytes differ from the original and still decode as a message of that kind",
            subs: vec![sub("structure", 20_000, 625_000, b15_structure), sub("bytes", 20_000, 625_000, b15_bytes), sub("parameters", 7_500, 150_000, b15_parameters)],
        },
        Prop {
            id: "B16",
            rule: "a case draws builder settings, valid or with one or several violated constraints, and builds; non-trivial = the builder succeeded or exactly one constraint is violated",
            subs: vec![sub("builder", 4_000, 100_000, b16_builder), sub("sizes", 1_500, 30_000, b16_sizes), sub("defaults", 64, 64, b16_defaults)],
        },
    ]
}

// ------------------------------------------------------------------ objects

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Sk,
    Pk,
    Rk,
    Ek,
    Ct,
    Rgsw,
}
pub const KINDS: [Kind; 6] = [Kind::Ct, Kind::Pk, Kind::Rk, Kind::Ek, Kind::Rgsw, Kind::Sk];

pub fn wire_params(g: &mut Gen) -> Res<Ps> {
    params(g, &Spec { log_n: (3, 4), k: (1, 4), reserve: 12, ..Default::default() })
}
pub fn some_ek(g: &mut Gen, ps: &Ps, sk: &Sk) -> Res<(EvaluationKey, usize)> {
    let (cl, kl) = ek_levels(g, ps);
    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, cl, kl).ctx("builder")?;
    if g.bool() {
        b.enable_row_rotation().ctx("row")?;
    }
    if g.chance(1, 4) {
        b.enable_inner_sum().ctx("inner")?;
    }
    b.enable_expansion(g.usize_below(3)).ctx("expansion")?;
    for _ in 0..g.usize_below(3) {
        b.enable_column_rotation(g.range(1, ps.n / 2 - 1)).ctx("column")?;
    }
    Ok((b.build(&mut g.rng()).ctx("build")?, cl))
}
/// A ciphertext as the library produces it: fresh, public-key, sums, products, switched.
pub fn any_ct(g: &mut Gen, ps: &Ps, sk: &Sk) -> Res<Ciphertext> {
    let l = g.usize_below(ps.levels());
    let pt = ps.pt(&ps.msg(g), l)?;
    Ok(match g.below(6) {
        0 | 1 => sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?,
        2 => PublicKey::new(&sk.sk, &mut g.rng()).try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?,
        3 => {
            let parts = g.range(2, 5);
            rand_ct(g, ps, l, parts)?
        }
        4 => {
            let a: Ciphertext = sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
            &a * &a
        }
        _ => {
            let mut a: Ciphertext = sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
            a.switch_to_level(g.range(l, ps.levels() - 1)).ctx("switch")?;
            a
        }
    })
}
pub fn bytes_of(g: &mut Gen, ps: &Ps, sk: &Sk, kind: Kind) -> Res<Option<Vec<u8>>> {
    Ok(Some(match kind {
        Kind::Sk => sk.sk.to_bytes(),
        Kind::Pk => PublicKey::new(&sk.sk, &mut g.rng()).to_bytes(),
        Kind::Rk => {
            let Some((cl, kl)) = rk_levels(g, ps) else { return Ok(None) };
            RelinearizationKey::new_leveled(&sk.sk, cl, kl, &mut g.rng()).ctx("relinearisation key")?.to_bytes()
        }
        Kind::Ek => some_ek(g, ps, sk)?.0.to_bytes(),
        Kind::Ct => any_ct(g, ps, sk)?.to_bytes(),
        Kind::Rgsw => {
            let l = g.usize_below(ps.levels());
            let c: RGSWCiphertext = sk.sk.try_encrypt(&ps.pt(&ps.msg(g), l)?, &mut g.rng()).ctx("encrypt")?;
            c.to_bytes()
        }
    }))
}
fn same_ct(ps: &Ps, a: &Ciphertext, b: &Ciphertext, what: &str) -> Res<()> {
    ensure!(ps.parts(a) == ps.parts(b) && ps.level(a) == ps.level(b), "{what}: different results");
    Ok(())
}
/// Both results of an operation on the original and the copy.
fn same_res(ps: &Ps, a: Result<Ciphertext, fhe::Error>, b: Result<Ciphertext, fhe::Error>, what: &str) -> Res<()> {
    match (a, b) {
        (Ok(a), Ok(b)) => same_ct(ps, &a, &b, what),
        (Err(_), Err(_)) => Ok(()),
        (a, b) => Err(format!("{what}: original {} but copy {}", if a.is_ok() { "succeeds" } else { "fails" }, if b.is_ok() { "succeeds" } else { "fails" })),
    }
}
/// Equality, determinism and canonical form of a round trip.
macro_rules! roundtrip {
    ($ty:ty, $x:expr, $par:expr) => {{
        let b = $x.to_bytes();
        ensure!(b == $x.to_bytes(), "serialising twice gives different bytes");
        let y = <$ty>::from_bytes(&b, $par).ctx("from_bytes")?;
        ensure!(y == $x, "the object read back is not equal");
        ensure!(y.to_bytes() == b, "the object read back serialises differently");
        let z = <$ty>::from_bytes(&b, $par).ctx("from_bytes")?;
        ensure!(z == y && z.to_bytes() == b, "reading twice gives different objects");
        y
    }};
}

fn b14_objects(g: &mut Gen) -> Res<()> {
    let ps = wire_params(g)?;
    let sk = Sk::gen_(g, &ps)?;
    let kind = *g.pick(&KINDS);
    g.note(format!("{kind:?} {}", ps.desc()));
    g.label(format!("{kind:?}"));
    g.hit();
    match kind {
        Kind::Sk => {
            let y = roundtrip!(SecretKey, sk.sk, &ps.par);
            let l = g.usize_below(ps.levels());
            let pt = ps.pt(&ps.msg(g), l)?;
            let ct: Ciphertext = y.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
            let ct2: Ciphertext = sk.sk.try_encrypt(&pt, &mut g.rng()).ctx("encrypt")?;
            for c in [&ct, &ct2, &rand_ct(g, &ps, l, 3)?] {
                let (a, b) = (sk.sk.try_decrypt(c).ctx("decrypt")?, y.try_decrypt(c).ctx("decrypt")?);
                ensure!(a == b, "the key read back decrypts differently");
                #[allow(unused_unsafe)]
                let (a, b) = unsafe { (sk.sk.measure_noise(c), y.measure_noise(c)) };
                ensure!(a.ok() == b.ok(), "the key read back measures another noise");
            }
        }
        Kind::Pk => {
            let x = PublicKey::new(&sk.sk, &mut g.rng());
            let y = roundtrip!(PublicKey, x, &ps.par);
            let l = g.usize_below(ps.levels());
            let pt = ps.pt(&ps.msg(g), l)?;
            let seed = g.seed();
            let r = || <rand_chacha::ChaCha8Rng as rand::SeedableRng>::seed_from_u64(seed);
            let (a, b): (Ciphertext, Ciphertext) = (x.try_encrypt(&pt, &mut r()).ctx("encrypt")?, y.try_encrypt(&pt, &mut r()).ctx("encrypt")?);
            same_ct(&ps, &a, &b, "encrypting with the same randomness")?;
            ensure!(a == b, "encryptions under both keys are not equal");
        }
        Kind::Rk => {
            let Some((cl, kl)) = rk_levels(g, &ps) else { return Ok(()) };
            let x = RelinearizationKey::new_leveled(&sk.sk, cl, kl, &mut g.rng()).ctx("relinearisation key")?;
            let y = roundtrip!(RelinearizationKey, x, &ps.par);
            let ct = rand_ct(g, &ps, cl, 3)?;
            let (mut a, mut b) = (ct.clone(), ct.clone());
            let (ra, rb) = (x.relinearizes(&mut a), y.relinearizes(&mut b));
            same_res(&ps, ra.map(|_| a), rb.map(|_| b), "relinearising")?;
        }
        Kind::Ek => {
            let (x, cl) = some_ek(g, &ps, &sk)?;
            let y = roundtrip!(EvaluationKey, x, &ps.par);
            let ct = rand_ct(g, &ps, cl, 2)?;
            same_res(&ps, x.rotates_rows(&ct), y.rotates_rows(&ct), "rotating rows")?;
            same_res(&ps, x.computes_inner_sum(&ct), y.computes_inner_sum(&ct), "inner sum")?;
            for i in 0..ps.n / 2 + 1 {
                ensure_eq!(y.supports_column_rotation_by(i), x.supports_column_rotation_by(i), "support of rotation by {i}");
                same_res(&ps, x.rotates_columns_by(&ct, i), y.rotates_columns_by(&ct, i), "rotating columns")?;
            }
            ensure_eq!(y.supports_inner_sum(), x.supports_inner_sum(), "support of inner sums");
            ensure_eq!(y.supports_row_rotation(), x.supports_row_rotation(), "support of row rotation");
            for d in 0..=ps.n.ilog2() as usize {
                ensure_eq!(y.supports_expansion(d), x.supports_expansion(d), "support of expansion to depth {d}");
                match (x.expands(&ct, 1 << d), y.expands(&ct, 1 << d)) {
                    (Ok(a), Ok(b)) => {
                        for (a, b) in a.iter().zip(&b) {
                            same_ct(&ps, a, b, "expanding")?;
                        }
                    }
                    (Err(_), Err(_)) => {}
                    _ => return Err("only one of the two keys expands".into()),
                }
            }
        }
        Kind::Ct => {
            let x = any_ct(g, &ps, &sk)?;
            let y = roundtrip!(Ciphertext, x, &ps.par);
            same_ct(&ps, &x, &y, "reading a ciphertext back")?;
            sane(&ps, &y, ps.level(&x), x.len(), "ciphertext read back")?;
            ensure!(sk.sk.try_decrypt(&x).ctx("decrypt")? == sk.sk.try_decrypt(&y).ctx("decrypt")?, "the ciphertext read back decrypts differently");
            same_ct(&ps, &(&x + &y), &(&y + &x), "adding the copy")?;
            same_ct(&ps, &(&x * &x), &(&y * &y), "squaring the copy")?;
            let (mut a, mut b) = (x.clone(), y.clone());
            ensure_eq!(b.max_switchable_level(), a.max_switchable_level(), "deepest level");
            let (ra, rb) = (a.switch_down(), b.switch_down());
            same_res(&ps, ra.map(|_| a), rb.map(|_| b), "switching down")?;
        }
        Kind::Rgsw => {
            let l = g.usize_below(ps.levels());
            let x: RGSWCiphertext = sk.sk.try_encrypt(&ps.pt(&ps.msg(g), l)?, &mut g.rng()).ctx("encrypt")?;
            let y = roundtrip!(RGSWCiphertext, x, &ps.par);
            let ct = rand_ct(g, &ps, l, 2)?;
            same_ct(&ps, &(&ct * &x), &(&ct * &y), "external product")?;
            same_ct(&ps, &(&x * &ct), &(&y * &ct), "external product")?;
        }
    }
    Ok(())
}

/// A seeded ciphertext and a sequence of changes: what is serialised is what is there.
fn b14_seeded(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 4), k: (2, 4), reserve: 30, ..Default::default() })?;
    let sk = Sk::gen_(g, &ps)?;
    let l = g.usize_below(ps.levels() - 1);
    let fresh = |g: &mut Gen| -> Res<Ciphertext> {
        let m = ps.msg(g);
        sk.sk.try_encrypt(&ps.pt(&m, l)?, &mut g.rng()).ctx("encrypt")
    };
    let mut ct = fresh(g)?;
    let p = pb::Ciphertext::decode(ct.to_bytes().as_slice()).ctx("decode")?;
    ensure!(p.c.len() == 1 && p.seed.len() == 32, "a fresh secret-key encryption is not in seeded form");
    let extra = g.weighted(&[3, 1, 1]);
    if extra > 0 {
        // seeded forms of more parts are valid wire objects
        let mut q = p.clone();
        for _ in 0..extra {
            q.c.push(rand_ct(g, &ps, l, 2)?[0].to_bytes());
        }
        ct = Ciphertext::from_bytes(&q.encode_to_vec(), &ps.par).ctx("seeded ciphertext of more parts")?;
        ensure_eq!(ct.len(), 2 + extra, "parts of a seeded ciphertext");
    }
    let mut ops = vec![];
    g.note(format!("{} level={l}", ps.desc()));
    check_wire(&ps, &ct, "fresh")?;
    for _ in 0..g.range(1, 4) {
        let lv = ps.level(&ct);
        let n = ct.len();
        let op = g.below(15);
        let other = rand_ct(g, &ps, lv, n)?;
        let pt = ps.pt(&ps.msg(g), lv)?;
        let name = match op {
            0 => { ct += &other; "+= ciphertext" }
            1 => { ct -= &other; "-= ciphertext" }
            2 => { ct += &pt; "+= plaintext" }
            3 => { ct -= &pt; "-= plaintext" }
            4 => { ct *= &pt; "*= plaintext" }
            5 => { ct = -ct; "negate in place" }
            6 => { ct = -&ct; "negate" }
            7 => {
                let i = g.usize_below(n);
                ct[i] = other[i].clone();
                "replace a part"
            }
            8 => {
                let i = g.usize_below(n);
                ct[i] += &other[i];
                "add to a part"
            }
            9 => {
                ct.swap(0, n - 1);
                "swap parts"
            }
            10 => {
                ct.iter_mut().for_each(|p| *p -= &other[0]);
                "change every part"
            }
            11 => {
                if lv + 1 < ps.levels() {
                    ct.switch_down().ctx("switch")?;
                }
                "switch down"
            }
            12 => {
                if n == 3 && lv + 1 < ps.levels() {
                    let kl = g.range(0, lv);
                    let rk = RelinearizationKey::new_leveled(&sk.sk, lv, kl, &mut g.rng()).ctx("relinearisation key")?;
                    rk.relinearizes(&mut ct).ctx("relinearise")?;
                }
                "relinearise"
            }
            13 => {
                ct = match g.below(4) {
                    0 => &ct + &other,
                    1 => &other - &ct,
                    2 => &ct + &pt,
                    _ => &ct * &pt,
                };
                "operator"
            }
            _ => {
                if n == 2 {
                    let mut b = EvaluationKeyBuilder::new_leveled(&sk.sk, lv, g.range(0, lv)).ctx("builder")?;
                    b.enable_row_rotation().ctx("row")?.enable_expansion(1).ctx("expansion")?;
                    let ek = b.build(&mut g.rng()).ctx("build")?;
                    ct = match g.below(3) {
                        0 => ek.rotates_rows(&ct).ctx("rotate")?,
                        1 => ek.expands(&ct, 1).ctx("expand")?.remove(0),
                        _ => ek.expands(&ct, 2).ctx("expand")?.remove(1),
                    };
                }
                "evaluation key"
            }
        };
        ops.push(name);
        g.hit();
        check_wire(&ps, &ct, &format!("after {ops:?}"))?;
    }
    Ok(())
}
fn check_wire(ps: &Ps, ct: &Ciphertext, what: &str) -> Res<()> {
    let b = ct.to_bytes();
    let back = Ciphertext::from_bytes(&b, &ps.par).ctx("from_bytes")?;
    ensure!(ps.parts(&back) == ps.parts(ct), "{what}: the bytes do not describe the ciphertext");
    ensure!(ps.level(&back) == ps.level(ct) && back == *ct && back.to_bytes() == b, "{what}: the ciphertext read back is not equal");
    sane(ps, ct, ps.level(ct), ct.len(), what)
}

fn b14_parameters(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 6), k: (1, 5), ..Default::default() })?;
    g.note(ps.desc());
    g.hit();
    let b = ps.par.to_bytes();
    ensure!(b == ps.par.to_bytes(), "serialising parameters twice gives different bytes");
    let par2 = Arc::new(BfvParameters::try_deserialize(&b).ctx("parameters")?);
    ensure!(*par2 == *ps.par && par2.to_bytes() == b, "parameters read back are not equal");
    ensure_eq!(par2.degree(), ps.n, "degree");
    ensure_eq!(par2.moduli(), ps.q.as_slice(), "moduli");
    ensure_eq!(par2.moduli_sizes(), ps.par.moduli_sizes(), "sizes");
    ensure_eq!(par2.plaintext_big(), &ps.t, "plaintext modulus");
    ensure_eq!(par2.max_level(), ps.par.max_level(), "deepest level");
    ensure_eq!(pb::Parameters::decode(b.as_slice()).ctx("decode")?.variance as usize, ps.var, "variance");
    for l in 0..ps.levels() {
        ensure!(par2.context_at_level(l).ctx("context")? == ps.par.context_at_level(l).ctx("context")?, "contexts at level {l}");
        ensure_eq!(par2.level_of_context(ps.par.context_at_level(l).ctx("context")?).ctx("level")?, l, "level of a context");
    }
    // objects travel to the parameters read back
    let p2 = Ps::from_par(par2.clone(), ps.var);
    let sk = Sk::gen_(g, &ps)?;
    let sk2 = Sk::wrap(SecretKey::from_bytes(&sk.sk.to_bytes(), &par2).ctx("secret key")?);
    let l = g.usize_below(ps.levels());
    let m = ps.msg(g);
    let ct: Ciphertext = sk.sk.try_encrypt(&ps.pt(&m, l)?, &mut g.rng()).ctx("encrypt")?;
    let ct2 = Ciphertext::from_bytes(&ct.to_bytes(), &par2).ctx("ciphertext")?;
    same_ct(&p2, &ct, &ct2, "ciphertext under the parameters read back")?;
    if ps.ok(l, &ps.nu_sk()) {
        p2.expect(&sk2, &ct2, &m, &ps.nu_sk(), "ciphertext under the parameters read back")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ B15

#[derive(Clone, PartialEq, Message)]
pub struct Rq {
    #[prost(int32, tag = "1")]
    pub representation: i32,
    #[prost(uint32, tag = "2")]
    pub degree: u32,
    #[prost(bytes = "vec", tag = "3")]
    pub coefficients: Vec<u8>,
    #[prost(bool, tag = "4")]
    pub allow_variable_time: bool,
}

fn edge_u32(g: &mut Gen) -> u32 {
    let r = g.draw(u32::MAX as u64) as u32;
    *g.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 61, 62, 63, 64, 65, 127, 128, 255, 256, 65536, 1 << 31, u32::MAX - 1, u32::MAX, r])
}
fn pick_rng<T: Clone>(g: &mut Gen, v: &[T]) -> Option<T> {
    if v.is_empty() { None } else { Some(v[g.usize_below(v.len())].clone()) }
}
fn random_bytes(g: &mut Gen, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    g.rng().fill_bytes(&mut v);
    v
}
/// A serialised polynomial that is valid for some (other) context, or damaged.
fn bad_poly(g: &mut Gen, ps: &Ps, orig: &[u8]) -> Res<Vec<u8>> {
    let class = g.below(9);
    Ok(match class {
        0 => {
            let l = g.usize_below(ps.levels());
            rand_ct(g, ps, l, 2)?[0].to_bytes()
        }
        1 => {
            let l = g.usize_below(ps.levels());
            rand_ct(g, ps, l, 2)?[0].clone().into_power_basis().to_bytes()
        }
        2 => {
            let l = g.usize_below(ps.levels());
            rand_ct(g, ps, l, 2)?[0].clone().into_ntt_shoup().to_bytes()
        }
        3 => {
            let o = wire_params(g)?;
            let l = g.usize_below(o.levels());
            rand_ct(g, &o, l, 2)?[0].to_bytes()
        }
        4 => vec![],
        5 => {
            let n = g.usize_below(40);
            random_bytes(g, n)
        }
        6 => {
            let mut b = orig.to_vec();
            damage(g, &mut b);
            b
        }
        _ => {
            let Ok(mut r) = Rq::decode(orig) else { return Ok(vec![]) };
            match g.below(7) {
                0 => r.representation = *g.pick(&[0, 1, 2, 3, 4, 5, -1, i32::MAX, i32::MIN]),
                1 => r.degree = edge_u32(g),
                2 => r.allow_variable_time = !r.allow_variable_time,
                3 => r.coefficients.clear(),
                4 => damage(g, &mut r.coefficients),
                5 => {
                    let n = r.coefficients.len();
                    if n > 0 {
                        let i = g.usize_below(n);
                        let k = g.range(1, 9.min(n - i));
                        r.coefficients[i..i + k].fill(0xff);
                    }
                }
                _ => r.coefficients.fill(if g.bool() { 0xff } else { 0 }),
            }
            r.encode_to_vec()
        }
    })
}
/// Byte-level damage.
pub fn damage(g: &mut Gen, b: &mut Vec<u8>) {
    for _ in 0..*g.pick(&[1, 1, 1, 2, 3]) {
        let n = b.len();
        // positions near the front hit tags and lengths, the others payload
        let at = |g: &mut Gen| if n == 0 { 0 } else if g.chance(1, 4) { g.usize_below(n.min(24)) } else { g.usize_below(n) };
        match g.below(9) {
            0 if n > 0 => {
                let i = at(g);
                b[i] ^= 1 << g.below(8);
            }
            1 if n > 0 => {
                let i = at(g);
                b[i] = *g.pick(&[0, 1, 0x7f, 0x80, 0xff, 8, 16, 0x1a, 0x12, 0x0a]);
            }
            2 => b.truncate(at(g)),
            3 => {
                let i = at(g);
                let k = g.range(1, 12);
                let r = random_bytes(g, k);
                b.splice(i..i, r);
            }
            4 if n > 0 => {
                let i = at(g);
                let k = g.range(1, 16).min(n - i);
                b.drain(i..i + k);
            }
            5 if n > 0 => {
                let i = at(g);
                let k = g.range(1, 64).min(n - i);
                let c = b[i..i + k].to_vec();
                b.splice(i..i, c);
            }
            6 => {
                // a huge varint
                let i = at(g);
                b.splice(i..i, [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01]);
            }
            7 => {
                let k = g.range(1, 20);
                let r = random_bytes(g, k);
                b.extend(r);
            }
            _ => {
                let i = at(g);
                let j = at(g);
                if i < b.len() && j < b.len() {
                    b.swap(i, j);
                }
            }
        }
    }
}
fn bad_seed(g: &mut Gen) -> Vec<u8> {
    let n = *g.pick(&[0, 32, 32, 1, 31, 33, 64, 300]);
    random_bytes(g, n)
}
fn bad_list(g: &mut Gen, ps: &Ps, v: &mut Vec<Vec<u8>>) -> Res<()> {
    match g.below(6) {
        0 => {
            v.pop();
        }
        1 => v.clear(),
        2 => {
            if let Some(x) = v.first().cloned() {
                v.push(x);
            }
        }
        3 => {
            let l = g.usize_below(ps.levels());
            v.push(rand_ct(g, ps, l, 2)?[0].to_bytes());
        }
        _ => {
            if !v.is_empty() {
                let i = g.usize_below(v.len());
                v[i] = bad_poly(g, ps, &v[i].clone())?;
            }
        }
    }
    Ok(())
}
fn bad_ct(g: &mut Gen, ps: &Ps, c: &mut pb::Ciphertext) -> Res<()> {
    match g.below(5) {
        0 => c.level = edge_u32(g),
        1 => c.level = g.usize_below(ps.levels() + 1) as u32,
        2 => c.seed = bad_seed(g),
        _ => bad_list(g, ps, &mut c.c)?,
    }
    Ok(())
}
fn bad_ksk(g: &mut Gen, ps: &Ps, k: &mut pb::KeySwitchingKey) -> Res<()> {
    match g.below(9) {
        0 => k.ciphertext_level = if g.bool() { edge_u32(g) } else { g.usize_below(ps.levels() + 1) as u32 },
        1 => k.ksk_level = if g.bool() { edge_u32(g) } else { g.usize_below(ps.levels() + 1) as u32 },
        2 => k.log_base = edge_u32(g),
        3 => {
            // a consistent-looking decomposition key of another base
            k.log_base = edge_u32(g);
            k.ciphertext_level = ps.par.max_level() as u32;
            k.ksk_level = k.ciphertext_level;
            let lm = ps.q[0].next_power_of_two().ilog2();
            let want = if k.log_base == 0 { 1 } else { lm.div_ceil(k.log_base) } as usize;
            let p = rand_ct(g, ps, ps.par.max_level(), 2)?[0].clone().into_ntt_shoup().to_bytes();
            k.c0 = vec![p.clone(); want];
            if k.seed.is_empty() || g.bool() {
                k.seed.clear();
                k.c1 = vec![p; want];
            }
        }
        4 => k.seed = bad_seed(g),
        5 => {
            // another pair of levels with the right number of parts
            let cl = g.usize_below(ps.levels());
            let kl = g.usize_below(ps.levels());
            k.ciphertext_level = cl as u32;
            k.ksk_level = kl as u32;
            k.log_base = 0;
            let p = rand_ct(g, ps, kl, 2)?[0].clone().into_ntt_shoup().to_bytes();
            k.c0 = vec![p; ps.mods(cl).len()];
            if k.seed.is_empty() {
                k.c1 = k.c0.clone();
            }
        }
        6 => {
            // unseeded form
            k.seed.clear();
            k.c1 = k.c0.clone();
        }
        7 => bad_list(g, ps, &mut k.c1)?,
        _ => bad_list(g, ps, &mut k.c0)?,
    }
    Ok(())
}
fn bad_opt_ksk(g: &mut Gen, ps: &Ps, k: &mut Option<pb::KeySwitchingKey>) -> Res<()> {
    if g.chance(1, 12) {
        *k = None;
    }
    match k {
        Some(k) => bad_ksk(g, ps, k),
        None => Ok(()),
    }
}
/// Damage to the wire structure of an object.
pub fn restructure(g: &mut Gen, ps: &Ps, kind: Kind, b: &[u8]) -> Res<Vec<u8>> {
    Ok(match kind {
        Kind::Sk => {
            let mut p = pb::SecretKey::decode(b).ctx("decode")?;
            match g.below(4) {
                0 => {
                    p.coeffs.pop();
                }
                1 => p.coeffs.push(1),
                2 => p.coeffs.resize(*g.pick(&[0, 1, 7, 16, 64, 300]), 1),
                _ => {
                    for _ in 0..g.range(1, ps.n) {
                        let i = g.usize_below(ps.n);
                        p.coeffs[i] = *g.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, -1, 1 << 62, -(1 << 62), 1 << 20, ps.q[0] as i64, -(ps.q[0] as i64)]);
                    }
                }
            }
            p.encode_to_vec()
        }
        Kind::Ct => {
            let mut p = pb::Ciphertext::decode(b).ctx("decode")?;
            for _ in 0..g.range(1, 2) {
                bad_ct(g, ps, &mut p)?;
            }
            p.encode_to_vec()
        }
        Kind::Pk => {
            let mut p = pb::PublicKey::decode(b).ctx("decode")?;
            match g.below(8) {
                0 => p.c = None,
                1 => {
                    let other = Sk::gen_(g, ps)?;
                    let c = any_ct(g, ps, &other)?;
                    p.c = Some(pb::Ciphertext::decode(c.to_bytes().as_slice()).ctx("decode")?);
                }
                _ => bad_ct(g, ps, p.c.as_mut().unwrap())?,
            }
            p.encode_to_vec()
        }
        Kind::Rk => {
            let mut p = pb::RelinearizationKey::decode(b).ctx("decode")?;
            bad_opt_ksk(g, ps, &mut p.ksk)?;
            p.encode_to_vec()
        }
        Kind::Rgsw => {
            let mut p = pb::RgswCiphertext::decode(b).ctx("decode")?;
            match g.below(4) {
                0 => bad_opt_ksk(g, ps, &mut p.ksk0)?,
                1 => bad_opt_ksk(g, ps, &mut p.ksk1)?,
                2 => {
                    bad_opt_ksk(g, ps, &mut p.ksk0)?;
                    p.ksk1 = p.ksk0.clone();
                }
                _ => {
                    bad_opt_ksk(g, ps, &mut p.ksk0)?;
                    bad_opt_ksk(g, ps, &mut p.ksk1)?;
                }
            }
            p.encode_to_vec()
        }
        Kind::Ek => {
            let mut p = pb::EvaluationKey::decode(b).ctx("decode")?;
            match g.below(8) {
                0 => p.ciphertext_level = if g.bool() { edge_u32(g) } else { g.usize_below(ps.levels() + 1) as u32 },
                1 => p.evaluation_key_level = if g.bool() { edge_u32(g) } else { g.usize_below(ps.levels() + 1) as u32 },
                2 => {
                    p.gk.clear();
                    p.ciphertext_level = g.usize_below(ps.levels() + 1) as u32;
                    p.evaluation_key_level = edge_u32(g);
                }
                3 => {
                    // every key moved to another, possibly reversed, pair of levels
                    let cl = g.usize_below(ps.levels());
                    let kl = g.usize_below(ps.levels());
                    p.ciphertext_level = cl as u32;
                    p.evaluation_key_level = kl as u32;
                    let q = rand_ct(g, ps, kl, 2)?[0].clone().into_ntt_shoup().to_bytes();
                    let n = ps.mods(cl).len();
                    for gk in p.gk.iter_mut() {
                        gk.ksk = Some(pb::KeySwitchingKey { c0: vec![q.clone(); n], c1: vec![q.clone(); n], seed: vec![], ciphertext_level: cl as u32, ksk_level: kl as u32, log_base: 0 });
                    }
                }
                4 => {
                    if let Some(k) = pick_rng(g, &p.gk) {
                        p.gk.push(k);
                    }
                }
                5 => {
                    if !p.gk.is_empty() {
                        let i = g.usize_below(p.gk.len());
                        p.gk[i].exponent = edge_u32(g);
                    }
                }
                _ => {
                    if !p.gk.is_empty() {
                        let i = g.usize_below(p.gk.len());
                        bad_opt_ksk(g, ps, &mut p.gk[i].ksk)?;
                    }
                }
            }
            p.encode_to_vec()
        }
    })
}

fn b15_structure(g: &mut Gen) -> Res<()> {
    let ps = wire_params(g)?;
    let sk = Sk::gen_(g, &ps)?;
    let kind = *g.pick(&KINDS);
    let Some(orig) = bytes_of(g, &ps, &sk, kind)? else { return Ok(()) };
    let b = restructure(g, &ps, kind, &orig)?;
    if b != orig {
        g.hit();
    }
    attempt(g, &ps, &sk, kind, &b)
}
fn b15_bytes(g: &mut Gen) -> Res<()> {
    let ps = wire_params(g)?;
    let sk = Sk::gen_(g, &ps)?;
    let kind = *g.pick(&KINDS);
    let mut b = match g.below(8) {
        0 => {
            let n = g.usize_below(80);
            random_bytes(g, n)
        }
        1 => {
            // the bytes of an object of another kind, or of other parameters
            let k2 = *g.pick(&KINDS);
            let o = wire_params(g)?;
            let osk = Sk::gen_(g, &o)?;
            bytes_of(g, &o, &osk, k2)?.unwrap_or_default()
        }
        _ => bytes_of(g, &ps, &sk, kind)?.unwrap_or_default(),
    };
    let orig = b.clone();
    if g.chance(9, 10) {
        damage(g, &mut b);
    }
    let decodes = match kind {
        Kind::Sk => pb::SecretKey::decode(b.as_slice()).is_ok(),
        Kind::Pk => pb::PublicKey::decode(b.as_slice()).is_ok(),
        Kind::Rk => pb::RelinearizationKey::decode(b.as_slice()).is_ok(),
        Kind::Ek => pb::EvaluationKey::decode(b.as_slice()).is_ok(),
        Kind::Ct => pb::Ciphertext::decode(b.as_slice()).is_ok(),
        Kind::Rgsw => pb::RgswCiphertext::decode(b.as_slice()).is_ok(),
    };
    if decodes && b != orig {
        g.hit();
    }
    attempt(g, &ps, &sk, kind, &b)
}

/// Reads the bytes as an object of the kind; an accepted object must be well-formed
/// and every use of it must end in a value or an error.
fn attempt(g: &mut Gen, ps: &Ps, sk: &Sk, kind: Kind, b: &[u8]) -> Res<()> {
    if b.len() <= 600 {
        g.note(format!("{kind:?} {} bytes={}", ps.desc(), b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
    } else {
        g.note(format!("{kind:?} {} {} bytes", ps.desc(), b.len()));
    }
    macro_rules! read {
        ($ty:ty) => {{
            let Ok(x) = no_panic(|| <$ty>::from_bytes(b, &ps.par)).map_err(|e| format!("reading bytes: {e}"))? else {
                g.label(format!("{kind:?} refused"));
                return Ok(());
            };
            g.label(format!("{kind:?} accepted"));
            let c = no_panic(|| x.to_bytes()).map_err(|e| format!("serialising an accepted object: {e}"))?;
            let y = <$ty>::from_bytes(&c, &ps.par).ctx("reading an accepted object back")?;
            ensure!(y == x && y.to_bytes() == c, "an accepted object changes when serialised again");
            (x, c)
        }};
    }
    match kind {
        Kind::Sk => {
            let (x, _) = read!(SecretKey);
            let s = sk_coeffs(&x);
            ensure_eq!(s.len(), ps.n, "coefficients of an accepted secret key");
            let l = g.usize_below(ps.levels());
            let m = ps.msg(g);
            let pt = ps.pt(&m, l)?;
            let ct: Ciphertext = no_panic(|| x.try_encrypt(&pt, &mut g.rng())).map_err(|e| format!("encrypting: {e}"))?.ctx("encrypting")?;
            let d = no_panic(|| x.try_decrypt(&ct)).map_err(|e| format!("decrypting: {e}"))?.ctx("decrypting")?;
            if ps.ok(l, &ps.nu_sk()) {
                ensure_eq!(ps.coeffs(&d, l)?, m, "a message under an accepted secret key");
            }
            let l2 = if ps.levels() > 1 { g.usize_below(ps.levels() - 1) } else { return Ok(()) };
            no_panic(|| RelinearizationKey::new_leveled(&x, l2, l2, &mut g.rng()).is_ok()).map_err(|e| format!("deriving a key: {e}"))?;
        }
        Kind::Ct => {
            let (x, _) = read!(Ciphertext);
            well_formed(ps, &x)?;
            exercise_ct(g, ps, sk, &x)?;
        }
        Kind::Pk => {
            let (x, c) = read!(PublicKey);
            let p = pb::PublicKey::decode(c.as_slice()).ctx("decode")?.c.unwrap();
            ensure_eq!(p.c.len() + !p.seed.is_empty() as usize, 2, "parts of an accepted public key");
            ensure_eq!(p.level, 0, "level of an accepted public key");
            let l = g.usize_below(ps.levels());
            let pt = ps.pt(&ps.msg(g), l)?;
            let ct: Ciphertext = no_panic(|| x.try_encrypt(&pt, &mut g.rng())).map_err(|e| format!("encrypting: {e}"))?.ctx("encrypting")?;
            sane(ps, &ct, l, 2, "encryption under an accepted public key")?;
            well_formed(ps, &ct)?;
        }
        Kind::Rk => {
            let (x, c) = read!(RelinearizationKey);
            let p = pb::RelinearizationKey::decode(c.as_slice()).ctx("decode")?.ksk.unwrap();
            let (cl, _) = ksk_shape(ps, &p)?;
            for l in 0..ps.levels() {
                let ct = rand_ct(g, ps, l, 3)?;
                let mut o = ct.clone();
                let r = no_panic(|| x.relinearizes(&mut o)).map_err(|e| format!("relinearising at level {l}: {e}"))?;
                if r.is_ok() {
                    ensure_eq!(l, cl, "level relinearised");
                    sane(ps, &o, l, 2, "relinearised with an accepted key")?;
                    well_formed(ps, &o)?;
                } else {
                    ensure!(o == ct, "a failed relinearisation changes its operand");
                }
            }
        }
        Kind::Ek => {
            let (x, c) = read!(EvaluationKey);
            let p = pb::EvaluationKey::decode(c.as_slice()).ctx("decode")?;
            ensure!((p.ciphertext_level as usize) < ps.levels() && (p.evaluation_key_level as usize) < ps.levels(), "an accepted evaluation key has levels {} and {}", p.ciphertext_level, p.evaluation_key_level);
            for k in &p.gk {
                let s = ksk_shape(ps, k.ksk.as_ref().unwrap())?;
                ensure_eq!(s, (p.ciphertext_level as usize, p.evaluation_key_level as usize), "levels of a part of an accepted evaluation key");
                ensure!(k.exponent % 2 == 1 && (k.exponent as usize) < 2 * ps.n, "an accepted evaluation key has exponent {}", k.exponent);
            }
            for l in 0..ps.levels() {
                let ct = rand_ct(g, ps, l, 2)?;
                let here = l == p.ciphertext_level as usize;
                let run = |what: &str, claimed: bool, f: &dyn Fn() -> Result<Vec<Ciphertext>, fhe::Error>| -> Res<()> {
                    let r = no_panic(f).map_err(|e| format!("{what}: {e}"))?;
                    ensure_eq!(r.is_ok(), claimed && here, "{what} with an accepted key at level {l}");
                    for o in r.unwrap_or_default() {
                        sane(ps, &o, l, 2, what)?;
                        well_formed(ps, &o)?;
                    }
                    Ok(())
                };
                run("rotating rows", x.supports_row_rotation(), &|| x.rotates_rows(&ct).map(|c| vec![c]))?;
                run("inner sum", x.supports_inner_sum(), &|| x.computes_inner_sum(&ct).map(|c| vec![c]))?;
                for i in 0..=ps.n / 2 {
                    run("rotating columns", x.supports_column_rotation_by(i), &|| x.rotates_columns_by(&ct, i).map(|c| vec![c]))?;
                }
                for d in 0..=ps.n.ilog2() as usize {
                    run("expanding", x.supports_expansion(d), &|| x.expands(&ct, 1 << d))?;
                }
            }
        }
        Kind::Rgsw => {
            let (x, c) = read!(RGSWCiphertext);
            let p = pb::RgswCiphertext::decode(c.as_slice()).ctx("decode")?;
            let (a, b) = (ksk_shape(ps, p.ksk0.as_ref().unwrap())?, ksk_shape(ps, p.ksk1.as_ref().unwrap())?);
            ensure!(a == b && a.0 == a.1, "levels of an accepted gadget ciphertext: {a:?} and {b:?}");
            let ct = rand_ct(g, ps, a.0, 2)?;
            let o = no_panic(|| &ct * &x).map_err(|e| format!("external product: {e}"))?;
            sane(ps, &o, a.0, 2, "external product")?;
            well_formed(ps, &o)?;
        }
    }
    Ok(())
}
/// Shape of a key-switching key in its wire form; returns its levels.
fn ksk_shape(ps: &Ps, k: &pb::KeySwitchingKey) -> Res<(usize, usize)> {
    let (cl, kl) = (k.ciphertext_level as usize, k.ksk_level as usize);
    ensure!(cl < ps.levels() && kl < ps.levels(), "an accepted key has levels {cl} and {kl}");
    let want = if k.log_base == 0 { ps.mods(cl).len() } else { (ps.q[0].next_power_of_two().ilog2() as usize).div_ceil(k.log_base as usize) };
    ensure_eq!(k.c0.len(), want, "polynomials c0 of an accepted key");
    ensure!(if k.seed.is_empty() { k.c1.len() == want } else { k.seed.len() == 32 && k.c1.is_empty() }, "polynomials c1 of an accepted key");
    Ok((cl, kl))
}
fn poly_ok(p: &Poly<Ntt>, ps: &Ps, l: usize) -> bool {
    let c = p.coefficients();
    p.ctx() == ps.par.context_at_level(l).unwrap() && c.nrows() == ps.mods(l).len() && c.ncols() == ps.n && c.outer_iter().zip(ps.mods(l)).all(|(r, q)| r.iter().all(|x| x < q))
}
fn well_formed(ps: &Ps, ct: &Ciphertext) -> Res<()> {
    ensure!(ct.len() >= 2, "an accepted ciphertext has {} parts", ct.len());
    let l = ps.par.level_of_context(ct[0].ctx()).ctx("level of an accepted ciphertext")?;
    ensure!(ct.iter().all(|p| poly_ok(p, ps, l)), "an accepted ciphertext has a malformed part");
    Ok(())
}
fn exercise_ct(g: &mut Gen, ps: &Ps, sk: &Sk, x: &Ciphertext) -> Res<()> {
    let l = ps.level(x);
    let ph = ps.phase(&sk.s, x);
    let d = no_panic(|| sk.sk.try_decrypt(x)).map_err(|e| format!("decrypting: {e}"))?.ctx("decrypting an accepted ciphertext")?;
    let d = ps.coeffs(&d, l)?;
    if ps.top_usable(&BigUint::one()).contains(&l) {
        for (j, (x, p)) in d.iter().zip(&ph).enumerate() {
            let (a, b) = ps.dec1(l, p);
            ensure!(*x == a || Some(x.clone()) == b, "an accepted ciphertext decrypts to {x} in coefficient {j}, expected {a}");
        }
    }
    let r = no_panic(|| x + x).map_err(|e| format!("adding: {e}"))?;
    sane(ps, &r, l, x.len(), "sum")?;
    if x.len() <= 4 {
        let r = no_panic(|| x * x).map_err(|e| format!("squaring: {e}"))?;
        sane(ps, &r, l, 2 * x.len() - 1, "square")?;
        well_formed(ps, &r)?;
    }
    let mut y = x.clone();
    let to = g.range(l, ps.levels() - 1);
    no_panic(|| y.switch_to_level(to)).map_err(|e| format!("switching: {e}"))?.ctx("switching an accepted ciphertext")?;
    sane(ps, &y, to, x.len(), "switched")
}

/// Bytes of parameters: accepted exactly when the fields meet the builder's constraints.
fn b15_parameters(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { log_n: (3, 4), k: (1, 4), ..Default::default() })?;
    let orig = ps.par.to_bytes();
    let b = match g.below(4) {
        0 => {
            let mut b = orig.clone();
            damage(g, &mut b);
            b
        }
        1 => {
            let n = g.usize_below(40);
            random_bytes(g, n)
        }
        _ => {
            let mut p = pb::Parameters::decode(orig.as_slice()).ctx("decode")?;
            for _ in 0..g.range(1, 2) {
                match g.below(6) {
                    0 => p.degree = if g.bool() { edge_u32(g) } else { 8 << g.below(4) },
                    1 => p.variance = edge_u32(g),
                    2 => p.plaintext_modulus = None,
                    3 => {
                        let n = g.usize_below(24);
                        p.plaintext_modulus = Some(pb::parameters::PlaintextModulus::PlaintextBig(random_bytes(g, n)));
                    }
                    4 => {
                        let x = g.biased(u64::MAX);
                        p.plaintext_modulus = Some(pb::parameters::PlaintextModulus::Plaintext(x));
                    }
                    _ => match g.below(5) {
                        0 => p.moduli.clear(),
                        1 => {
                            let x = p.moduli.first().copied().unwrap_or(0);
                            p.moduli.push(x);
                        }
                        2 => {
                            let x = g.biased(u64::MAX);
                            p.moduli.push(x);
                        }
                        3 => p.moduli.reverse(),
                        _ => {
                            if !p.moduli.is_empty() {
                                let i = g.usize_below(p.moduli.len());
                                p.moduli[i] = g.biased(u64::MAX);
                            }
                        }
                    },
                }
            }
            p.encode_to_vec()
        }
    };
    g.note(format!("parameters {} bytes={}", ps.desc(), b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
    let want = match pb::Parameters::decode(b.as_slice()) {
        Err(_) => Verdict::No,
        Ok(p) => {
            if b != orig {
                g.hit();
            }
            if p.degree as usize > 4096 || p.moduli.len() > 40 {
                // expensive to build; only small sets here
                g.discarded = true;
                return Ok(());
            }
            let t = match &p.plaintext_modulus {
                None => BigUint::zero(),
                Some(pb::parameters::PlaintextModulus::Plaintext(x)) => BigUint::from(*x),
                Some(pb::parameters::PlaintextModulus::PlaintextBig(v)) => BigUint::from_bytes_le(v),
            };
            verdict(p.degree as usize, &p.moduli, &t, p.variance as usize).0
        }
    };
    let r = no_panic(|| BfvParameters::try_deserialize(&b)).map_err(|e| format!("reading parameters: {e}"))?;
    match want {
        Verdict::Either => {}
        w => ensure_eq!(r.is_ok(), w == Verdict::Yes, "reading parameters ({})", r.as_ref().err().map(|e| e.to_string()).unwrap_or_default()),
    }
    if let Ok(p) = r {
        g.label("accepted");
        let c = p.to_bytes();
        ensure!(BfvParameters::try_deserialize(&c).ctx("reading accepted parameters back")? == p, "accepted parameters change when serialised");
        let w = pb::Parameters::decode(b.as_slice()).ctx("decode")?;
        reported(&p, w.degree as usize, &w.moduli, w.variance as usize)?;
        use_params(g, p, w.variance as usize)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ B16

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Yes,
    No,
    Either,
}
/// The documented constraints, and how many of them are violated.
fn verdict(n: usize, q: &[u64], t: &BigUint, var: usize) -> (Verdict, usize) {
    let mut bad = 0;
    let deg = n.is_power_of_two() && (8..=65536).contains(&n);
    bad += !deg as usize;
    bad += !(1..=32).contains(&var) as usize;
    bad += q.is_empty() as usize;
    let range = q.iter().all(|m| (2..1 << 62).contains(m));
    bad += !range as usize;
    let distinct = (0..q.len()).all(|i| (0..i).all(|j| q[i] != q[j] && num::gcd(q[i], q[j]) == 1));
    bad += !distinct as usize;
    bad += (range && deg && !q.iter().all(|m| m % (2 * n as u64) == 1 && num::prime(*m))) as usize;
    bad += (*t < BigUint::from(2u32)) as usize;
    let qq: BigUint = q.iter().map(|m| BigUint::from(*m)).product();
    bad += (!q.is_empty() && *t >= qq) as usize;
    bad += (!t.is_zero() && q.iter().any(|m| *m != 0 && num::gcd((t % *m).to_u64().unwrap(), *m) != 1)) as usize;
    if bad > 0 {
        return (Verdict::No, bad);
    }
    // a machine-word modulus beyond what the arithmetic supports may be refused
    (if (63..=64).contains(&t.bits()) { Verdict::Either } else { Verdict::Yes }, 0)
}
fn reported(p: &BfvParameters, n: usize, q: &[u64], var: usize) -> Res<()> {
    ensure_eq!(p.degree(), n, "degree");
    ensure_eq!(p.moduli(), q, "moduli");
    let sizes: Vec<usize> = q.iter().map(|m| 64 - m.leading_zeros() as usize).collect();
    ensure_eq!(p.moduli_sizes(), sizes.as_slice(), "moduli sizes");
    ensure_eq!(p.max_level(), q.len() - 1, "deepest level");
    ensure_eq!(p.context_levels().len(), q.len(), "number of levels");
    let w = pb::Parameters::decode(p.to_bytes().as_slice()).ctx("decode")?;
    ensure_eq!(w.variance as usize, var, "variance");
    for l in 0..q.len() {
        let c = p.context_at_level(l).ctx("context")?;
        ensure_eq!(c.moduli(), &q[..q.len() - l], "moduli at level {l}");
        ensure_eq!(p.level_of_context(c).ctx("level")?, l, "level of a context");
        let cl = p.context_level_at(l).ctx("context level")?;
        ensure!(std::ptr::eq(cl, &p.context_levels()[l]), "context level {l}");
    }
    for l in [q.len(), q.len() + 1, usize::MAX] {
        ensure!(p.context_at_level(l).is_err() && p.context_level_at(l).is_err(), "a context beyond the last level");
    }
    Ok(())
}
/// Accepted parameters work: a message survives encryption when the noise leaves room.
fn use_params(g: &mut Gen, p: BfvParameters, var: usize) -> Res<()> {
    let ps = Ps::from_par(Arc::new(p), var);
    if ps.n > 1024 {
        return Ok(());
    }
    let sk = Sk::wrap(SecretKey::random(&ps.par, &mut g.rng()));
    ensure!(sk.s.iter().all(|x| x.unsigned_abs() <= ps.eb()), "secret key coefficients of variance {var}");
    let l = g.usize_below(ps.levels());
    let m = ps.msg(g);
    let Ok(pt) = no_panic(|| ps.pt(&m, l))? else { return Err("encoding fails under accepted parameters".into()) };
    let ct: Ciphertext = no_panic(|| sk.sk.try_encrypt(&pt, &mut g.rng()))?.ctx("encrypting under accepted parameters")?;
    let d = no_panic(|| sk.sk.try_decrypt(&ct))?.ctx("decrypting under accepted parameters")?;
    if ps.ok(l, &ps.nu_sk()) && ps.n <= 256 {
        ps.expect(&sk, &ct, &m, &ps.nu_sk(), "fresh encryption under accepted parameters")?;
    } else if ps.ok(l, &ps.nu_sk()) {
        ensure!(ps.coeffs(&d, l)? == m, "fresh encryption under accepted parameters");
    }
    Ok(())
}

/// a usable degree for drawing congruences even when the requested one is absurd
fn log_n_of(n: usize) -> u64 {
    if n.is_power_of_two() && n <= 65536 { n as u64 } else { 16 }
}
fn b16_builder(g: &mut Gen) -> Res<()> {
    let log_n = match g.weighted(&[150, 8, 1]) {
        0 => g.range(3, 6),
        1 => g.range(3, 12),
        _ => g.range(13, 16),
    };
    let mut n = 1usize << log_n;
    let mut q = chain(g, n, (1, if log_n > 12 { 2 } else { 4 }), 10);
    let qb = q.iter().map(|m| BigUint::from(*m)).product::<BigUint>().bits() as usize - 1;
    let Some(mut t) = plain_modulus(g, n, &q, qb, false, true) else { return Ok(()) };
    let mut var = g.range(1, 32);
    let nbad = g.weighted(&[4, 5, 2]);
    for _ in 0..nbad {
        if q.is_empty() {
            break;
        }
        match g.below(9) {
            0 => n = *g.pick(&[0, 1, 2, 4, 7, 9, 12, 24, 100, 131072, 1 << 17, 1 << 20, usize::MAX, 1 << 63, n.wrapping_add(1), n.wrapping_sub(1), n.wrapping_mul(2), n / 2]),
            1 => var = *g.pick(&[0, 33, 34, 64, 256, usize::MAX, 1 << 32]),
            2 => t = BigUint::from(*g.pick(&[0u64, 1])),
            3 => {
                // not coprime with a modulus, or at least the product
                let m = BigUint::from(*g.pick(&q));
                t = match g.below(5) {
                    0 => m,
                    1 => m * (1 + g.draw(1 << 20)),
                    2 => q.iter().map(|m| BigUint::from(*m)).product(),
                    3 => q.iter().map(|m| BigUint::from(*m)).product::<BigUint>() + 1u32,
                    _ => q.iter().map(|m| BigUint::from(*m)).product::<BigUint>().max(BigUint::from(3u32)) - 1u32,
                };
            }
            4 => t = BigUint::from((1u64 << 62) + g.biased((1 << 62) - 1)),
            5 => {
                let i = g.usize_below(q.len());
                q.push(q[i]);
            }
            6 => {
                let i = g.usize_below(q.len());
                q[i] = *g.pick(&[0, 1, 2, 3, 17, q[i].wrapping_sub(1), q[i].wrapping_add(1), q[i].wrapping_add((n as u64).wrapping_mul(2)), 1 << 62, (1 << 62) + 1, u64::MAX, 4611686018427387905]);
            }
            7 => {
                // composite but congruent to one, or prime but not congruent
                let two_n = (2 * log_n_of(n)).max(4);
                let i = g.usize_below(q.len());
                let want_prime = g.bool();
                let mut c = if want_prime { (1 << 40) + 3 } else { (1u64 << 40) / two_n * two_n + 1 };
                while num::prime(c) != want_prime || (want_prime && c % two_n == 1) {
                    c += if want_prime { 2 } else { two_n };
                }
                q[i] = c;
            }
            _ => q.clear(),
        }
    }
    let sizes = if g.chance(1, 15) { vec![40; g.range(1, 2)] } else { vec![] };
    g.note(format!("degree={n} moduli={q:?} sizes={sizes:?} plaintext={t} variance={var}"));
    let (mut want, mut bad) = verdict(n, &q, &t, var);
    let mut q_expected = Some(q.clone());
    if !sizes.is_empty() {
        if !q.is_empty() {
            want = Verdict::No;
            bad += 1;
        } else {
            q_expected = None;
            want = Verdict::Either;
        }
    }
    if bad <= 1 {
        g.hit();
    }
    let mut b = BfvParametersBuilder::new();
    if g.chance(1, 4) {
        // the last setting of each field wins
        b.set_degree(7).set_plaintext_modulus(1).set_moduli(&[3, 3]).set_variance(0).set_moduli_sizes(&[5]);
    }
    let setters = g.draw(23) as usize;
    let mut order = [0, 1, 2, 3];
    order.rotate_left(setters % 4);
    if setters / 4 % 2 == 1 {
        order.reverse();
    }
    for o in order {
        match o {
            0 => b.set_degree(n),
            1 => b.set_moduli(&q).set_moduli_sizes(&sizes),
            2 => match t.to_u64() {
                Some(x) if g.bool() => b.set_plaintext_modulus(x),
                _ => b.set_plaintext_modulus_biguint(t.clone()),
            },
            _ => b.set_variance(var),
        };
    }
    let r = no_panic(|| b.build()).map_err(|e| format!("building: {e}"))?;
    if want != Verdict::Either {
        ensure_eq!(r.is_ok(), want == Verdict::Yes, "building ({})", r.as_ref().err().map(|e| e.to_string()).unwrap_or_default());
    }
    g.label(if r.is_ok() { "built" } else { "refused" });
    if let Ok(p) = r {
        let qs = q_expected.unwrap_or_else(|| p.moduli().to_vec());
        reported(&p, n, &qs, var)?;
        ensure_eq!(p.plaintext_big(), &t, "plaintext modulus");
        if let Some(x) = t.to_u64() {
            ensure_eq!(p.plaintext(), x, "plaintext modulus");
        }
        let a = no_panic(|| b.build_arc())?.ctx("building again")?;
        ensure!(*a == p, "building twice gives different parameters");
        use_params(g, p, var)?;
    }
    Ok(())
}
fn b16_sizes(g: &mut Gen) -> Res<()> {
    let log_n = if g.chance(1, 20) { g.range(3, 12) } else { g.range(3, 6) };
    let n = 1usize << log_n;
    let two_n = 2 * n as u64;
    let k = g.range(1, 6);
    let style = g.below(4);
    let base = g.range(10, 62);
    let sizes: Vec<usize> = (0..k)
        .map(|_| match style {
            0 => base,
            1 => g.range(10, 16),
            2 => g.range(10, 62),
            _ => *g.pick(&[9, 10, 11, 20, 62, 63, 0, 64, 65, usize::MAX, 40]),
        })
        .collect();
    let t = 2 + g.draw(30);
    g.note(format!("degree={n} sizes={sizes:?} plaintext={t}"));
    g.hit();
    let mut b = BfvParametersBuilder::new();
    b.set_degree(n).set_plaintext_modulus(t).set_moduli_sizes(&sizes);
    let r = no_panic(|| b.build()).map_err(|e| format!("building: {e}"))?;
    let ok_sizes = sizes.iter().all(|s| (10..=62).contains(s));
    let enough = ok_sizes && (0..k).all(|i| num::ntt_prime(sizes[i], two_n, sizes[..i].iter().filter(|s| **s == sizes[i]).count()).is_some());
    match r {
        Err(e) => {
            g.label("refused");
            // t may share a factor with a generated prime only if it is that prime
            let clash = !ok_sizes || !enough || t >= 10;
            ensure!(clash || sizes.iter().map(|s| 1u128 << (s - 1)).product::<u128>() <= t as u128, "refused although enough primes exist: {e}");
        }
        Ok(p) => {
            g.label("built");
            ensure!(ok_sizes, "moduli of sizes {sizes:?} accepted");
            let q = p.moduli().to_vec();
            reported(&p, n, &q, 10)?;
            ensure_eq!(p.moduli_sizes(), sizes.as_slice(), "sizes of the generated moduli");
            ensure!(q.iter().all(|m| num::prime(*m) && m % two_n == 1), "generated moduli {q:?} are not primes congruent to 1 modulo {two_n}");
            ensure!((0..k).all(|i| (0..i).all(|j| q[i] != q[j])), "generated moduli {q:?} are not distinct");
            use_params(g, p, 10)?;
        }
    }
    Ok(())
}
fn b16_defaults(g: &mut Gen) -> Res<()> {
    // security table of homomorphicencryption.org, ternary secrets, 128 bits, classical
    let table = |n: usize| match n {
        1024 => 27,
        2048 => 54,
        4096 => 109,
        8192 => 218,
        16384 => 438,
        32768 => 881,
        _ => 0,
    };
    let bits = if g.chance(1, 8) { *g.pick(&[0, 1, 64, 65, 128, usize::MAX]) } else { g.draw(63) as usize };
    g.note(format!("plaintext bits={bits}"));
    let r = no_panic(|| BfvParameters::default_parameters_128(bits).map(|i| i.collect::<Vec<_>>())).map_err(|e| format!("default_parameters_128({bits}): {e}"))?;
    let available = (10..=62).contains(&bits);
    match r {
        Err(_) => {
            // small sizes may have no slot-friendly prime; in the usual range there is always one
            ensure!(!(15..=60).contains(&bits), "no default parameters for {bits}-bit plaintexts");
        }
        Ok(v) => {
            ensure!(available || bits < 10, "default parameters for {bits}-bit plaintexts");
            ensure!(!v.is_empty(), "an empty list of default parameters");
            g.hit();
            for (i, p) in v.iter().enumerate() {
                let n = p.degree();
                ensure!(i == 0 || v[i - 1].degree() < n, "default parameters are not in order of degree");
                let q: BigUint = p.moduli().iter().map(|m| BigUint::from(*m)).product();
                ensure!(q.bits() <= table(n), "default parameters of degree {n} have a {}-bit modulus, beyond the 128-bit security bound {}", q.bits(), table(n));
                let t = p.plaintext();
                ensure_eq!(64 - t.leading_zeros() as usize, bits, "plaintext size of the default parameters of degree {n}");
                ensure!(num::prime(t) && t % (2 * n as u64) == 1, "plaintext modulus {t} of the default parameters of degree {n} is not slot-friendly");
                reported(p, n, p.moduli(), 10)?;
                ensure!(p.moduli().iter().all(|m| num::prime(*m) && m % (2 * n as u64) == 1), "default moduli of degree {n}");
            }
        }
    }
    Ok(())
}
#[allow(dead_code)]
fn unused(_: Encoding, _: Plaintext) {}
