//! B20: secret material does not survive in released memory. A global allocator
//! keeps, while a thread watches, a copy of every block that thread releases; the
//! copies are searched for the transforms of the secrets the case knows.
use crate::choice::*;
use crate::model::*;

use crate::runner::{Prop, sub};
use fhe::bfv::*;
use fhe::mbfv::*;
use fhe_math::rq::{Ntt, Poly, PowerBasis, SubstitutionExponent, traits::TryConvertFrom};
use fhe_traits::*;
use num_bigint::BigUint;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::Arc;


// ------------------------------------------------------------------ allocator

const CAP: usize = 48 << 20;
const MIN: usize = 64;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BUF: Cell<*mut u8> = const { Cell::new(std::ptr::null_mut()) };
    static LEN: Cell<usize> = const { Cell::new(0) };
    static LOST: Cell<usize> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static TRACE: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub struct Watch;

/// # Safety
/// `p` is a live block of `size` bytes.
unsafe fn record(p: *const u8, size: usize) {
    if size < MIN {
        return;
    }
    let words = size / 8;
    let at = LEN.get();
    if at + 8 * (words + 1) > CAP {
        LOST.set(LOST.get() + 1);
        return;
    }
    unsafe {
        let b = BUF.get().add(at);
        (b as *mut u64).write(words as u64);
        std::ptr::copy_nonoverlapping(p, b.add(8), 8 * words);
    }
    LEN.set(at + 8 * (words + 1));
    let c = COUNT.get();
    COUNT.set(c + 1);
    if c == TRACE.get() {
        ON.set(false);
        eprintln!("block {c} of {size} bytes released at\n{}", std::backtrace::Backtrace::force_capture());
        ON.set(true);
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        // what an unused part of a new block held before is not the operation's doing
        unsafe { if ON.get() { System.alloc_zeroed(l) } else { System.alloc(l) } }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.get() {
            unsafe { record(p, l.size()) }
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ON.get() {
            return unsafe { System.realloc(p, l, new) };
        }
        unsafe {
            let q = System.alloc_zeroed(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                record(p, l.size());
                System.dealloc(p, l);
            }
            q
        }
    }
}

pub struct Freed {
    blocks: Vec<Vec<u64>>,
}
/// Runs `f` and returns the blocks this thread released meanwhile.
fn watch<T>(f: impl FnOnce() -> T) -> (T, Freed) {
    if BUF.get().is_null() {
        BUF.set(unsafe { System.alloc(Layout::from_size_align(CAP, 4096).unwrap()) });
        assert!(!BUF.get().is_null());
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.set(false);
        }
    }
    LEN.set(0);
    LOST.set(0);
    COUNT.set(0);
    ON.set(true);
    let off = Off;
    let r = f();
    drop(off);
    let mut blocks = vec![];
    let mut at = 0;
    while at < LEN.get() {
        unsafe {
            let b = BUF.get().add(at) as *const u64;
            let w = b.read() as usize;
            blocks.push(std::slice::from_raw_parts(b.add(1), w).to_vec());
            at += 8 * (w + 1);
        }
    }
    assert!(LOST.get() == 0, "harness: released blocks exceed the buffer");
    (r, Freed { blocks })
}

// ------------------------------------------------------------------ secrets

/// Words of a secret that must occur nowhere in a released block.
const W: usize = 32;
#[derive(Default)]
struct Pats {
    v: Vec<(String, Vec<u64>)>,
    seen: std::collections::HashSet<Vec<u64>>,
}
impl Pats {
    /// Windows of a vector, unless they are too regular to identify it.
    fn vec(&mut self, what: &str, a: &[u64]) {
        let n = a.len();
        if n < W {
            return;
        }
        for at in [0, n / 2, n - W] {
            if at + W > n {
                continue;
            }
            let w = a[at..at + W].to_vec();
            let mut f: HashMap<u64, usize> = HashMap::new();
            for x in &w {
                *f.entry(*x).or_insert(0) += 1;
            }
            if f.len() < 3 || *f.values().max().unwrap() > W * 6 / 10 {
                continue;
            }
            if self.seen.insert(w.clone()) {
                self.v.push((what.to_string(), w));
            }
        }
    }
    fn poly(&mut self, what: &str, p: &Poly<Ntt>) {
        for (i, r) in p.coefficients().outer_iter().enumerate() {
            self.vec(&format!("{what} (transform, modulus {i})"), &r.to_vec());
        }
        let b = p.clone().into_power_basis();
        for (i, r) in b.coefficients().outer_iter().enumerate() {
            self.vec(&format!("{what} (coefficients, modulus {i})"), &r.to_vec());
        }
    }
    fn ints(&mut self, what: &str, v: &[i64]) {
        self.vec(&format!("{what} (integers)"), &v.iter().map(|x| *x as u64).collect::<Vec<_>>());
    }
    fn check(&self, f: &Freed) -> Res<()> {
        let mut first: HashMap<u64, Vec<usize>> = HashMap::new();
        for (i, (_, w)) in self.v.iter().enumerate() {
            first.entry(w[0]).or_default().push(i);
        }
        for (bi, b) in f.blocks.iter().enumerate() {
            if b.len() < W {
                continue;
            }
            for at in 0..=b.len() - W {
                let Some(c) = first.get(&b[at]) else { continue };
                for i in c {
                    if b[at..at + W] == self.v[*i].1[..] {
                        return Err(format!("released memory holds {} (block {bi} of {}, {} bytes)", self.v[*i].0, f.blocks.len(), 8 * b.len()));
                    }
                }
            }
        }
        Ok(())
    }
}
fn ctx(ps: &Ps, l: usize) -> &Arc<fhe_math::rq::Context> {
    ps.par.context_at_level(l).expect("level")
}
fn small(ps: &Ps, l: usize, s: &[i64]) -> Res<Poly<Ntt>> {
    Ok(Poly::<PowerBasis>::try_convert_from(s, ctx(ps, l), false).ctx("secret as polynomial")?.into_ntt())
}
/// The secret key at every level, and its square.
fn secret(p: &mut Pats, ps: &Ps, name: &str, s: &[i64]) -> Res<()> {
    p.ints(name, s);
    // residues do not depend on the level
    let x = small(ps, 0, s)?;
    p.poly(name, &x);
    p.poly(&format!("the square of {name}"), &(&x * &x));
    Ok(())
}
fn errors(p: &mut Pats, ps: &Ps, l: usize, r: &ChaCha8Rng, k: usize) -> Res<()> {
    let mut r = r.clone();
    for i in 0..k {
        let mut r2 = r.clone();
        let e = Poly::<Ntt>::small(ctx(ps, l), ps.var, &mut r).ctx("small")?;
        p.poly(&format!("sampled error {i}"), &e);
        let v = fhe_util::sample_vec_cbd(ps.n, ps.var, &mut r2).ctx("cbd")?;
        p.ints(&format!("sampled error {i}"), &v);
    }
    Ok(())
}

/// What building a key-switching key handles: products of its masks with the secret,
/// gadget multiples of the source, and (from the generator after its seed) errors.
fn ksk(p: &mut Pats, ps: &Ps, k: &fhe::proto::bfv::KeySwitchingKey, s: &[i64], from: &Poly<Ntt>, r: &ChaCha8Rng) -> Res<()> {
    let l = k.ksk_level as usize;
    let x = small(ps, l, s)?;
    if let Ok(seed) = <[u8; 32]>::try_from(k.seed.as_slice()) {
        let mut r = ChaCha8Rng::from_seed(seed);
        for _ in 0..k.c0.len() {
            let mut si = [0u8; 32];
            rand::Rng::fill_bytes(&mut r, &mut si);
            p.poly("mask times secret", &(&Poly::<Ntt>::random_from_seed(ctx(ps, l), si) * &x));
        }
    }
    if k.log_base == 0 {
        let rns = fhe_math::rns::RnsContext::new(ps.mods(k.ciphertext_level as usize)).ctx("rns")?;
        for i in 0..ps.mods(k.ciphertext_level as usize).len() {
            p.poly("gadget multiple of the source", &(rns.get_garner(i).ok_or("garner")? * from));
        }
    } else {
        for i in 0..k.c0.len() {
            p.poly("power multiple of the source", &(&(BigUint::from(1u32) << (i * k.log_base as usize)) * from));
        }
    }
    let mut r = r.clone();
    rand::Rng::fill_bytes(&mut r, &mut [0u8; 32]);
    errors(p, ps, l, &r, 2)
}

fn spec() -> Spec {
    Spec { log_n: (5, 6), k: (1, 4), reserve: 30, qmin: 30, ..Default::default() }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "B20",
        rule: "a case draws parameters, library-generated keys, levels and one operation that uses a secret, and searches every memory block released during it for 32-word windows of the secrets' integers, residues and transforms; non-trivial = at least one block was released and one window searched",
        subs: vec![sub("keys", 6_000, 150_000, b20_keys), sub("messages", 6_000, 150_000, b20_messages), sub("wipe", 5_000, 100_000, b20_wipe)],
    }]
}

/// FV_ALL: report every leak instead of the first (for exploring by hand).
fn finish(g: &Gen, p: &Pats, f: &Freed) -> Res<()> {
    let r = p.check(f);
    if let (Err(e), true) = (&r, std::env::var("FV_ALL").is_ok()) {
        println!("LEAK {} {e}", g.labels.last().unwrap());
        return Ok(());
    }
    r
}

fn b20_keys(g: &mut Gen) -> Res<()> {
    let ps = params(g, &spec())?;
    let mut p = Pats::default();
    let sk0 = SecretKey::random(&ps.par, &mut g.rng());
    let s = sk_coeffs(&sk0);
    secret(&mut p, &ps, "the secret key", &s)?;
    let l = *g.pick(&crate::p_ops::fit_levels(&ps));
    let m = ps.msg(g);
    let r = g.rng();
    let r: ChaCha8Rng = ChaCha8Rng::seed_from_u64({ let mut r = r; rand::Rng::next_u64(&mut r) });
    let mut rr = r.clone();
    let op = g.below(14);
    let f = match op {
        0 => {
            g.label("drop");
            let k = g.below(2);
            let c = sk0.clone();
            let (_, f) = watch(|| if k == 0 { drop(sk0) } else { drop(sk0.clone()); drop(sk0) });
            drop(c);
            f
        }
        1 => {
            g.label("generate");
            let (k, f) = watch(|| SecretKey::random(&ps.par, &mut rr));
            secret(&mut p, &ps, "the new key", &sk_coeffs(&k))?;
            f
        }
        2 => {
            g.label("to_bytes");
            let (_b, f) = watch(|| sk0.to_bytes());
            f
        }
        3 => {
            g.label("from_bytes");
            let b = sk0.to_bytes();
            let good = g.bool();
            let b2 = if good { b } else {
                let mut v = s.clone();
                v.pop();
                prost::Message::encode_to_vec(&fhe::proto::bfv::SecretKey { coeffs: v })
            };
            let (_k, f) = watch(|| SecretKey::from_bytes(&b2, &ps.par));
            f
        }
        4 => {
            g.label("encrypt");
            let pt = ps.pt(&m, l)?;
            let (ct, f) = watch(|| -> fhe::Result<Ciphertext> { sk0.try_encrypt(&pt, &mut rr) });
            let ct = ct.ctx("encrypt")?;
            errors(&mut p, &ps, l, &r, 1)?;
            let x = small(&ps, l, &s)?;
            p.poly("mask times secret", &(&ct[1] * &x));
            f
        }
        5 | 6 => {
            let parts = g.range(2, 4);
            let nu = ps.nu_max(l);
            let c = some_ct(g, &ps, &Sk::wrap(sk0.clone()), l, Some(parts), &nu)?.ct;
            let x = small(&ps, l, &s)?;
            let mut si = x.clone();
            for i in 1..parts {
                p.poly("part times secret power", &(&c[i] * &si));
                p.poly("secret power", &si);
                si = &si * &x;
            }
            p.poly("secret power", &si);
            if op == 5 {
                g.label("decrypt");
                watch(|| -> fhe::Result<Plaintext> { sk0.try_decrypt(&c) }).1
            } else {
                g.label("measure_noise");
                watch(|| unsafe { sk0.measure_noise(&c) }).1
            }
        }
        7 => {
            g.label("public key");
            let (pk, f) = watch(|| PublicKey::new(&sk0, &mut rr));
            errors(&mut p, &ps, 0, &r, 1)?;
            let pr: fhe::proto::bfv::PublicKey = prost::Message::decode(pk.to_bytes().as_slice()).ctx("decode")?;
            let c = Ciphertext::from_bytes(&prost::Message::encode_to_vec(&pr.c.ok_or("no ciphertext")?), &ps.par).ctx("public key")?;
            p.poly("mask times secret", &(&c[1] * &small(&ps, 0, &s)?));
            f
        }
        8 => {
            g.label("public-key encryption");
            let pk = PublicKey::new(&sk0, &mut g.rng());
            let pt = ps.pt(&m, l)?;
            let (_c, f) = watch(|| -> fhe::Result<Ciphertext> { pk.try_encrypt(&pt, &mut rr) });
            errors(&mut p, &ps, l, &r, 3)?;
            f
        }
        9 | 10 => {
            if ps.levels() < 2 {
                g.discarded = true;
                return Ok(());
            }
            let kl = g.range(0, ps.levels() - 2);
            let cl = g.range(kl, ps.levels() - 1);
            if op == 9 {
                g.label("relinearisation key");
                let (k, f) = watch(|| RelinearizationKey::new_leveled(&sk0, cl, kl, &mut rr));
                let k = k.ctx("relinearisation key")?;
                let pr: fhe::proto::bfv::RelinearizationKey = prost::Message::decode(k.to_bytes().as_slice()).ctx("decode")?;
                let x = small(&ps, kl, &s)?;
                ksk(&mut p, &ps, &pr.ksk.ok_or("no key")?, &s, &(&x * &x), &r)?;
                f
            } else {
                g.label("evaluation key");
                let d = g.below(3);
                let i = g.range(1, ps.n / 2 - 1);
                let row = g.bool();
                let inner = g.bool();
                let simd = ps.simd;
                let ex = g.range(0, 5);
                let (k, f) = watch(|| -> fhe::Result<EvaluationKey> {
                    let mut b = EvaluationKeyBuilder::new_leveled(&sk0, cl, kl)?;
                    if d != 1 { b.enable_expansion(ex)?; }
                    if simd && d != 0 {
                        b.enable_column_rotation(i)?;
                        if row { b.enable_row_rotation()?; }
                        if inner { b.enable_inner_sum()?; }
                    }
                    b.build(&mut rr)
                });
                let k = k.ctx("evaluation key")?;
                let pr: fhe::proto::bfv::EvaluationKey = prost::Message::decode(k.to_bytes().as_slice()).ctx("decode")?;
                let x = small(&ps, 0, &s)?;
                for gk in pr.gk {
                    let e = SubstitutionExponent::new(ctx(&ps, 0), gk.exponent as usize).ctx("exponent")?;
                    p.poly("the image of the secret key", &x.substitute(&e).ctx("substitute")?);
                    let x = small(&ps, kl, &s)?;
                    let e = SubstitutionExponent::new(ctx(&ps, kl), gk.exponent as usize).ctx("exponent")?;
                    ksk(&mut p, &ps, &gk.ksk.ok_or("no key")?, &s, &x.substitute(&e).ctx("substitute")?, &r)?;
                }
                f
            }
        }
        11 => {
            g.label("gadget encryption");
            let pt = ps.pt(&m, l)?;
            let (c, f) = watch(|| -> fhe::Result<RGSWCiphertext> { sk0.try_encrypt(&pt, &mut rr) });
            let c = c.ctx("encrypt")?;
            let mm = ps.rows_u(l, &m);
            let mp = ps.poly(l, &mm, false)?;
            let ms = &mp * &small(&ps, l, &s)?;
            p.poly("message times secret", &ms);
            let pr: fhe::proto::bfv::RgswCiphertext = prost::Message::decode(c.to_bytes().as_slice()).ctx("decode")?;
            ksk(&mut p, &ps, &pr.ksk0.ok_or("no key")?, &s, &mp, &r)?;
            ksk(&mut p, &ps, &pr.ksk1.ok_or("no key")?, &s, &ms, &r)?;
            f
        }
        _ => b20_mp(g, &ps, &mut p, &sk0, &r)?,
    };
    g.note(format!("{} {} operation={op}", ps.desc(), p.v.len()));
    if !f.blocks.is_empty() && !p.v.is_empty() { g.hit(); }
    finish(g, &p, &f)
}

fn b20_mp(g: &mut Gen, ps: &Ps, p: &mut Pats, sk0: &SecretKey, r: &ChaCha8Rng) -> Res<Freed> {
    let mut rr = r.clone();
    let l = g.range(0, ps.levels() - 1);
    Ok(match g.below(5) {
        0 => {
            g.label("public key share");
            let crp = CommonRandomPoly::new(&ps.par, &mut g.rng()).ctx("crp")?;
            let (k, f) = watch(|| PublicKeyShare::new(sk0, crp.clone(), &mut rr));
            let pk = PublicKey::from_shares([k.ctx("share")?]).ctx("aggregate")?;
            errors(p, ps, 0, r, 1)?;
            let pr: fhe::proto::bfv::PublicKey = prost::Message::decode(pk.to_bytes().as_slice()).ctx("decode")?;
            let c = Ciphertext::from_bytes(&prost::Message::encode_to_vec(&pr.c.ok_or("no ciphertext")?), &ps.par).ctx("public key")?;
            p.poly("mask times secret", &(&c[1] * &small(ps, 0, &sk_coeffs(sk0))?));
            f
        }
        1 | 2 => {
            let k1 = SecretKey::random(&ps.par, &mut g.rng());
            let s1 = sk_coeffs(&k1);
            secret(p, ps, "the second key", &s1)?;
            let d: Vec<i64> = sk_coeffs(sk0).iter().zip(&s1).map(|(a, b)| a - b).collect();
            p.poly("the difference of the keys", &small(ps, 0, &d)?);
            let c = some_ct(g, ps, &Sk::wrap(sk0.clone()), l, Some(2), &BigUint::from(ps.eb()))?.ct;
            p.poly("part times secret", &(&c[1] * &small(ps, l, &sk_coeffs(sk0))?));
            // with nothing to multiply the keys by, the share is the error
            if c[1].coefficients().iter().any(|x| *x != 0) {
                errors(p, ps, l, r, 1)?;
            }
            let c = Arc::new(c);
            if g.bool() {
                g.label("secret-key switch share");
                watch(|| SecretKeySwitchShare::new(sk0, &k1, c.clone(), &mut rr).map(drop).is_ok()).1
            } else {
                g.label("decryption share");
                watch(|| DecryptionShare::new(sk0, &c, &mut rr).map(drop).is_ok()).1
            }
        }
        3 => {
            g.label("public-key switch share");
            let k1 = SecretKey::random(&ps.par, &mut g.rng());
            let pk = PublicKey::new(&k1, &mut g.rng());
            let c = some_ct(g, ps, &Sk::wrap(sk0.clone()), l, Some(2), &BigUint::from(ps.eb()))?.ct;
            p.poly("part times secret", &(&c[1] * &small(ps, l, &sk_coeffs(sk0))?));
            errors(p, ps, l, r, 3)?;
            watch(|| PublicKeySwitchShare::new(sk0, &pk, &Arc::new(c.clone()), &mut rr).map(drop).is_ok()).1
        }
        _ => {
            if ps.levels() < 2 {
                g.discarded = true;
                return Ok(Freed { blocks: vec![] });
            }
            g.label("relinearisation key share");
            let crp = CommonRandomPoly::new_vec(&ps.par, &mut g.rng()).ctx("crp")?;
            errors(p, ps, 0, r, 5)?;
            let mut u = r.clone();
            let u = Poly::<Ntt>::small(ctx(ps, 0), ps.var, &mut u).ctx("small")?;
            p.poly("ephemeral minus secret", &(&u - &small(ps, 0, &sk_coeffs(sk0))?));
            let (k, f) = watch(|| -> fhe::Result<RelinKeyShare<fhe::mbfv::round::R2>> {
                let gen_ = RelinKeyGenerator::new(sk0, &crp, &mut rr)?;
                let r1 = gen_.round_1(&mut rr)?;
                let a = Arc::new(RelinKeyShare::<fhe::mbfv::round::R1Aggregated>::from_shares([r1])?);
                gen_.round_2(&a, &mut rr)
            });
            k.ctx("shares")?;
            f
        }
    })
}

/// A message with random coefficients for a word-sized plaintext modulus, its slot
/// vector (when there are slots) and their patterns.
fn message(g: &mut Gen, ps: &Ps, l: usize, p: &mut Pats) -> Res<(Vec<u64>, Option<Vec<u64>>)> {
    let t = ps.tu.unwrap();
    let mut r = g.rng();
    let m: Vec<u64> = (0..ps.n).map(|_| rand::Rng::next_u64(&mut r) % t).collect();
    let big: Vec<BigUint> = m.iter().map(|x| BigUint::from(*x)).collect();
    p.vec("the message (integers)", &m);
    p.poly("the message", &ps.poly(l, &ps.rows_u(l, &big), false)?);
    p.poly("the scaled message", &ps.poly(l, &ps.rows_u(l, &ps.enc(l, &big)), false)?);
    let mut slots = None;
    if ps.simd {
        let v = Vec::<u64>::try_decode(&ps.pt(&big, l)?, Encoding::poly_at_level(l)).ctx("decode")?;
        ensure!(v == m, "harness: message");
        let pt: Plaintext = Plaintext::try_encode(&m, Encoding::simd_at_level(l), &ps.par).ctx("encode")?;
        // the slots m, as a polynomial
        let c = ps.coeffs_any(&pt, l)?;
        p.poly("the slot message", &ps.poly(l, &ps.rows_u(l, &c), false)?);
        p.poly("the scaled slot message", &ps.poly(l, &ps.rows_u(l, &ps.enc(l, &c)), false)?);
        p.vec("the slot message (integers)", &c.iter().map(|x| num_traits::ToPrimitive::to_u64(x).unwrap()).collect::<Vec<_>>());
        slots = Some(m.clone());
    }
    Ok((m, slots))
}

fn b20_messages(g: &mut Gen) -> Res<()> {
    let ps = params(g, &Spec { big: false, ..spec() })?;
    if ps.tu.is_none_or(|t| t < 17) {
        g.discarded = true;
        return Ok(());
    }
    let mut p = Pats::default();
    let sk = SecretKey::random(&ps.par, &mut g.rng());
    let l = *g.pick(&crate::p_ops::fit_levels(&ps));
    let (m, slots) = message(g, &ps, l, &mut p)?;
    let e = if slots.is_some() && g.bool() { Encoding::simd_at_level(l) } else { Encoding::poly_at_level(l) };
    let pt = Plaintext::try_encode(&m, e.clone(), &ps.par).ctx("encode")?;
    let mut r = g.rng();
    let r = &mut r;
    let op = g.below(12);
    let f = match op {
        0 => {
            g.label("drop");
            let twice = g.bool();
            watch(|| if twice { drop(pt.clone()); drop(pt) } else { drop(pt) }).1
        }
        1 => {
            g.label("encrypt");
            let (c, f) = watch(|| -> fhe::Result<Ciphertext> { sk.try_encrypt(&pt, r) });
            c.ctx("encrypt")?;
            f
        }
        2 => {
            g.label("decrypt");
            let c: Ciphertext = sk.try_encrypt(&pt, r).ctx("encrypt")?;
            let (d, f) = watch(|| -> fhe::Result<Plaintext> { sk.try_decrypt(&c) });
            d.ctx("decrypt")?;
            let s = small(&ps, l, &sk_coeffs(&sk))?;
            p.poly("the phase", &(&c[0] + &(&c[1] * &s)));
            f
        }
        3 => {
            g.label("public-key encryption");
            let pk = PublicKey::new(&sk, r);
            let (c, f) = watch(|| -> fhe::Result<Ciphertext> { pk.try_encrypt(&pt, r) });
            c.ctx("encrypt")?;
            f
        }
        4 => {
            g.label("gadget encryption");
            let (c, f) = watch(|| -> fhe::Result<RGSWCiphertext> { sk.try_encrypt(&pt, r) });
            c.ctx("encrypt")?;
            f
        }
        5 => {
            g.label("encode unsigned");
            let (c, f) = watch(|| Plaintext::try_encode(m.as_slice(), e, &ps.par));
            c.ctx("encode")?;
            f
        }
        6 => {
            g.label("encode signed");
            let t = ps.tu.unwrap();
            let v: Vec<i64> = m.iter().map(|x| if *x > t / 2 { *x as i64 - t as i64 } else { *x as i64 }).collect();
            p.ints("the signed message", &v);
            let (c, f) = watch(|| Plaintext::try_encode(v.as_slice(), e, &ps.par));
            c.ctx("encode")?;
            f
        }
        7 => {
            g.label("encode vector of plaintexts");
            let k = g.range(1, 3);
            let mut v: Vec<u64> = vec![];
            for _ in 0..k {
                v.extend(&m);
            }
            v.truncate(v.len() - g.usize_below(2));
            let (c, f) = watch(|| PlaintextVec::try_encode(v.as_slice(), e, &ps.par).map(drop).is_ok());
            ensure!(c, "encoding failed");
            f
        }
        8 => {
            g.label("decode unsigned");
            let (c, f) = watch(|| Vec::<u64>::try_decode(&pt, e));
            ensure!(c.ctx("decode")? == m, "decoded message");
            f
        }
        9 => {
            g.label("decode signed");
            let (c, f) = watch(|| Vec::<i64>::try_decode(&pt, e));
            c.ctx("decode")?;
            f
        }
        10 => {
            g.label("measure noise");
            let c: Ciphertext = sk.try_encrypt(&pt, r).ctx("encrypt")?;
            let (d, f) = watch(|| unsafe { sk.measure_noise(&c) });
            d.ctx("noise")?;
            let s = small(&ps, l, &sk_coeffs(&sk))?;
            let ph = &c[0] + &(&c[1] * &s);
            p.poly("the phase", &ph);
            let pm = &ph - &{
                let ce = ps.coeffs_any(&pt, l)?;
                ps.poly(l, &ps.rows_u(l, &ps.enc(l, &ce)), false)?
            };
            // the remainder of the scaling is part of the measured noise
            p.poly("the noise", &pm);
            f
        }
        _ => {
            g.label("plaintext operations");
            let c: Ciphertext = sk.try_encrypt(&pt, r).ctx("encrypt")?;
            let k = g.below(5);
            let (d, f) = watch(|| match k {
                0 => &c + &pt,
                1 => &c - &pt,
                2 => &pt + &c,
                3 => &pt - &c,
                _ => &c * &pt,
            });
            drop(d);
            f
        }
    };
    g.note(format!("{} level={l} {}", ps.desc(), g.labels.last().cloned().unwrap_or_default()));
    if !f.blocks.is_empty() && !p.v.is_empty() {
        g.hit();
    }
    finish(g, &p, &f)
}

/// Explicit wiping: the wiped object holds zeros.
fn b20_wipe(g: &mut Gen) -> Res<()> {
    use zeroize::Zeroize;
    let ps = params(g, &Spec { big: true, ..Default::default() })?;
    let l = g.range(0, ps.levels() - 1);
    let mut sk = SecretKey::random(&ps.par, &mut g.rng());
    let op = g.below(4);
    g.note(format!("{} level={l} operation={op}", ps.desc()));
    match op {
        0 => {
            g.hit();
            sk.zeroize();
            ensure!(sk_coeffs(&sk) == vec![0; ps.n], "a wiped secret key holds {:?}", sk_coeffs(&sk));
        }
        1 => {
            let m = ps.msg(g);
            if nonzero(&m) {
                g.hit();
            }
            let mut pt = ps.pt(&m, l)?;
            let e = Encoding::poly_at_level(l);
            let zero = Plaintext::zero(e.clone(), &ps.par).ctx("zero")?;
            pt.zeroize();
            ensure!(pt == zero, "a wiped plaintext is not zero");
            ensure!(!nonzero(&Vec::<BigUint>::try_decode(&pt, e).ctx("decode")?), "a wiped plaintext decodes to a message");
        }
        2 => {
            g.hit();
            let rows = ps.random_rows(g, l);
            let x = ps.poly(l, &rows, g.bool())?;
            let mut a = x.clone();
            let mut b = x.clone().into_power_basis();
            let mut c = x.clone().into_ntt_shoup();
            let z = Poly::<Ntt>::zero(ctx(&ps, l));
            a.zeroize();
            b.zeroize();
            c.zeroize();
            for (what, r) in [("transform", a.coefficients()), ("power basis", b.coefficients()), ("Shoup", c.coefficients())] {
                ensure!(r.iter().all(|v| *v == 0), "a wiped polynomial ({what}) holds coefficients");
            }
            // a wiped Shoup polynomial multiplies as zero, so its Shoup words are gone as well
            ensure!((&x * &c).coefficients() == z.coefficients(), "a wiped Shoup polynomial does not multiply as zero");
        }
        _ => {
            let m: Vec<u64> = bulk(g, 2 * ps.n, ps.tu.map_or(u64::MAX >> 1, |t| t - 1));
            g.hit();
            let mut v = PlaintextVec::try_encode(&m[..], Encoding::poly_at_level(l), &ps.par).ctx("encode")?;
            v.zeroize();
            for pt in v.iter() {
                ensure!(!nonzero(&Vec::<BigUint>::try_decode(pt, Encoding::poly_at_level(l)).ctx("decode")?), "a wiped plaintext vector holds a message");
            }
        }
    }
    Ok(())
}

/// Prints where block `n` released by a case was released (FV_TRACE=n).
pub fn trace_from_env() {
    if let Some(n) = std::env::var("FV_TRACE").ok().and_then(|s| s.parse().ok()) {
        TRACE.set(n);
    }
}
