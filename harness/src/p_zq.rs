//! M01 modular arithmetic, M02 NTT, M03 RNS, M10 samplers, M11 transcoding, M12 primes.
use crate::choice::*;
use crate::num;
use crate::runner::*;
use fhe_math::ntt::NttOperator;
use fhe_math::rns::RnsContext;
use fhe_math::zq::{Modulus, primes};
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M01",
            rule: "a case draws one modulus (tiny, boundary, power of two, prime, optimised-form or random up to 62 bits) and boundary-biased operands; non-trivial = the operand pair exercises a reduction (some operand or intermediate result is at least the modulus) or a vector of more than 8 elements",
            subs: vec![
                sub("scalar", 2_400_000, 48_000_000, scalar),
                sub("vector", 240_000, 4_800_000, vector),
                sub("opt", 360_000, 9_000_000, opt),
                sub("pow_inv", 48_000, 900_000, pow_inv),
                sub("center", 120_000, 1_200_000, center),
                sub("constructor", 24_000, 240_000, constructor),
                sub("serialize", 48_000, 600_000, serialize),
            ],
        },
        Prop {
            id: "M02",
            rule: "a case draws a prime of 5..62 bits congruent to 1 mod 2n, a size n from 8 to 2^13 (2^15 thorough) and boundary-biased residues; non-trivial = input is not the zero vector",
            subs: vec![
                sub("roundtrip", 24_000, 360_000, ntt_roundtrip),
                sub("convolution", 24_000, 360_000, ntt_convolution),
                sub("large", 1_200, 24_000, ntt_large),
                sub("constructor", 16_000, 120_000, ntt_constructor),
            ],
        },
        Prop {
            id: "M03",
            rule: "a case draws 1..12 moduli (coprime by construction, primes or composites, or deliberately clashing) and integers near multiples of the product; non-trivial = at least two moduli and a non-zero integer, or a rejected set",
            subs: vec![
                sub("bijection", 60_000, 900_000, rns_bijection),
                sub("reject", 9_000, 150_000, rns_reject),
            ],
        },
        Prop {
            id: "M10",
            rule: "a case draws a sampler configuration and a random stream and tests support, counts, moments or reproducibility with tolerances beyond 8 standard deviations; non-trivial = at least 1000 samples were drawn (moments) or two streams compared",
            subs: vec![
                sub("cbd_exact", 32_000, 400_000, cbd_exact),
                sub("cbd_moments", 1_600, 16_000, cbd_moments),
                sub("uniform", 1_600, 16_000, uniform),
                sub("poly_small", 2_400, 32_000, poly_small),
                sub("poly_seeded", 12_000, 160_000, poly_seeded),
                sub("reject", 2_000, 20_000, cbd_reject),
            ],
        },
        Prop {
            id: "M11",
            rule: "a case draws widths 1..64, a length 0..80 and boundary-biased values; the oracle is an explicit little-endian bit stream; non-trivial = at least two values",
            subs: vec![
                sub("bytes", 720_000, 9_000_000, tr_bytes),
                sub("bidirectional", 720_000, 9_000_000, tr_bidir),
                sub("from_bytes", 360_000, 3_600_000, tr_from_bytes),
            ],
        },
        Prop {
            id: "M12",
            rule: "a case draws an integer (random, small, square, product of two close primes, known strong pseudoprime, Carmichael) or generation request; the oracle is deterministic Miller-Rabin and exhaustive search; non-trivial = odd composite without small factor, or prime, or a request with a non-trivial answer",
            subs: vec![
                sub("is_prime", 360_000, 6_000_000, is_prime),
                sub("generate_prime", 18_000, 240_000, generate_prime),
                sub("inverse", 360_000, 4_800_000, inverse),
                sub("supports_opt", 120_000, 1_800_000, supports_opt),
                sub("variance", 18_000, 180_000, variance),
            ],
        },
    ]
}

pub fn modulus_value(g: &mut Gen) -> u64 {
    let m = match g.weighted(&[2, 3, 3, 3, 3, 2, 2]) {
        0 => 2 + g.below(40),
        1 => {
            let b = g.range(2, 61) as u32;
            let d = g.below(7);
            (1u64 << b).wrapping_add(d).wrapping_sub(3)
        }
        2 => {
            // largest values
            (1u64 << 62) - 1 - g.below(64)
        }
        3 => {
            let b = g.range(4, 62);
            let lo = 1u64 << (b - 1);
            lo + g.draw(lo - 1)
        }
        4 => {
            // a prime of a random size
            let b = g.range(5, 62);
            let i = g.usize_below(6);
            num::ntt_prime(b, 16, i).unwrap_or(17)
        }
        5 => {
            let i = g.usize_below(12);
            num::ntt_prime(62, 1 << 11, i).unwrap_or(17)
        }
        _ => {
            let b = g.range(2, 61);
            (1u64 << b) - 1 - g.below(((1u64 << b) - 1) / 2)
        }
    };
    m.clamp(2, (1 << 62) - 1)
}

fn modulus(g: &mut Gen) -> Result<(u64, Modulus), String> {
    let p = modulus_value(g);
    let m = Modulus::new(p).ctx("modulus in range")?;
    ensure_eq!(*m, p, "value of the modulus");
    Ok((p, m))
}

fn scalar(g: &mut Gen) -> Result<(), String> {
    let (p, m) = modulus(g)?;
    let a = g.biased(p - 1);
    let b = g.biased(p - 1);
    let w = g.biased(u64::MAX);
    let hi = g.biased(u64::MAX);
    g.note(format!("p={p} a={a} b={b} w={w} hi={hi}"));
    if a as u128 * b as u128 >= p as u128 || w >= p {
        g.hit();
    }
    let (pa, pb, pp) = (a as u128, b as u128, p as u128);
    ensure_eq!(m.add(a, b), ((pa + pb) % pp) as u64, "add");
    ensure_eq!(unsafe { m.add_vt(a, b) }, ((pa + pb) % pp) as u64, "add_vt");
    ensure_eq!(m.sub(a, b), ((pa + pp - pb) % pp) as u64, "sub");
    ensure_eq!(m.mul(a, b), (pa * pb % pp) as u64, "mul");
    ensure_eq!(m.neg(a), ((pp - pa) % pp) as u64, "neg");
    let bs = m.shoup(b);
    ensure_eq!(bs, ((pb << 64) / pp) as u64, "shoup");
    ensure_eq!(m.mul_shoup(a, b, bs), (pa * pb % pp) as u64, "mul_shoup");
    ensure_eq!(m.mul_shoup(w, b, bs), (w as u128 * pb % pp) as u64, "mul_shoup of an unreduced value");
    let l = m.lazy_mul_shoup(w, b, bs);
    ensure!((l as u128) < 2 * pp && l as u128 % pp == w as u128 * pb % pp, "lazy_mul_shoup: {l}");
    ensure_eq!(m.reduce(w), w % p, "reduce");
    ensure_eq!(unsafe { m.reduce_vt(w) }, w % p, "reduce_vt");
    let l = m.lazy_reduce(w);
    ensure!((l as u128) < 2 * pp && l % p == w % p, "lazy_reduce: {l}");
    let x = ((hi as u128) << 64) | w as u128;
    for x in [x, pa * pb, (pp - 1) * (pp - 1), x >> 1, u128::MAX - w as u128] {
        ensure_eq!(m.reduce_u128(x), (x % pp) as u64, "reduce_u128({x})");
        ensure_eq!(unsafe { m.reduce_u128_vt(x) }, (x % pp) as u64, "reduce_u128_vt({x})");
        let l = m.lazy_reduce_u128(x);
        ensure!((l as u128) < 2 * pp && l as u128 % pp == x % pp, "lazy_reduce_u128({x}): {l}");
    }
    Ok(())
}

fn vector(g: &mut Gen) -> Result<(), String> {
    let (p, m) = modulus(g)?;
    let n = match g.weighted(&[1, 4, 3]) {
        0 => g.range(0, 3),
        1 => g.range(1, 40),
        _ => g.range(1, 20) * 8,
    };
    let a = bulk(g, n, p - 1);
    let b = bulk(g, n, p - 1);
    let w = bulk(g, n, u64::MAX);
    let s = g.biased(p - 1);
    g.note(format!("p={p} n={n} s={s} a={:?} b={:?} w={:?}", &a[..n.min(4)], &b[..n.min(4)], &w[..n.min(4)]));
    if n > 8 {
        g.hit();
    }
    let z = |f: &dyn Fn(u64, u64) -> u64| a.iter().zip(&b).map(|(x, y)| f(*x, *y)).collect::<Vec<_>>();
    let on = |f: &dyn Fn(&mut [u64])| {
        let mut v = a.clone();
        f(&mut v);
        v
    };
    let add = z(&|x, y| num::addmod(x, y, p));
    ensure_eq!(on(&|v| m.add_vec(v, &b)), add, "add_vec");
    ensure_eq!(on(&|v| unsafe { m.add_vec_vt(v, &b) }), add, "add_vec_vt");
    let subv = z(&|x, y| num::submod(x, y, p));
    ensure_eq!(on(&|v| m.sub_vec(v, &b)), subv, "sub_vec");
    ensure_eq!(on(&|v| unsafe { m.sub_vec_vt(v, &b) }), subv, "sub_vec_vt");
    let mul = z(&|x, y| num::mulmod(x, y, p));
    ensure_eq!(on(&|v| m.mul_vec(v, &b)), mul, "mul_vec");
    ensure_eq!(on(&|v| unsafe { m.mul_vec_vt(v, &b) }), mul, "mul_vec_vt");
    let sm = z(&|x, _| num::mulmod(x, s, p));
    ensure_eq!(on(&|v| m.scalar_mul_vec(v, s)), sm, "scalar_mul_vec");
    ensure_eq!(on(&|v| unsafe { m.scalar_mul_vec_vt(v, s) }), sm, "scalar_mul_vec_vt");
    let bs = m.shoup_vec(&b);
    ensure_eq!(bs, b.iter().map(|y| (((*y as u128) << 64) / p as u128) as u64).collect::<Vec<_>>(), "shoup_vec");
    ensure_eq!(on(&|v| m.mul_shoup_vec(v, &b, &bs)), mul, "mul_shoup_vec");
    ensure_eq!(on(&|v| unsafe { m.mul_shoup_vec_vt(v, &b, &bs) }), mul, "mul_shoup_vec_vt");
    let neg = z(&|x, _| num::submod(0, x, p));
    ensure_eq!(on(&|v| m.neg_vec(v)), neg, "neg_vec");
    ensure_eq!(on(&|v| unsafe { m.neg_vec_vt(v) }), neg, "neg_vec_vt");
    let red: Vec<u64> = w.iter().map(|x| x % p).collect();
    let mut v = w.clone();
    m.reduce_vec(&mut v);
    ensure_eq!(v, red, "reduce_vec");
    let mut v = w.clone();
    unsafe { m.reduce_vec_vt(&mut v) };
    ensure_eq!(v, red, "reduce_vec_vt");
    ensure_eq!(m.reduce_vec_new(&w), red, "reduce_vec_new");
    ensure_eq!(unsafe { m.reduce_vec_new_vt(&w) }, red, "reduce_vec_new_vt");
    let mut v = w.clone();
    m.lazy_reduce_vec(&mut v);
    ensure!(
        v.iter().zip(&red).all(|(x, r)| (*x as u128) < 2 * p as u128 && x % p == *r),
        "lazy_reduce_vec: {v:?}"
    );
    let wi: Vec<i64> = w.iter().map(|x| *x as i64).collect();
    let ri: Vec<u64> = wi.iter().map(|x| (*x as i128).rem_euclid(p as i128) as u64).collect();
    ensure_eq!(m.reduce_vec_i64(&wi), ri, "reduce_vec_i64");
    ensure_eq!(unsafe { m.reduce_vec_i64_vt(&wi) }, ri, "reduce_vec_i64_vt");
    let c = m.center_vec(&a);
    ensure!(
        c.len() == n && c.iter().zip(&a).all(|(c, a)| *c == m.center(*a)),
        "center_vec differs from center"
    );
    Ok(())
}

fn opt(g: &mut Gen) -> Result<(), String> {
    // moduli of the optimised form: just below a power of two
    let b = g.range(10, 62);
    let top = (1u64 << b) - 1;
    let span = if b >= 33 { 1u64 << (2 * b - 65).min(b - 1) } else { 1 };
    let p = match g.weighted(&[3, 1, 1]) {
        0 => top - g.below(span.max(2)),
        1 => top - g.below(64.min(top / 2)),
        _ => num::ntt_prime(b, 16, g.usize_below(4)).unwrap_or(top),
    };
    let m = Modulus::new(p).ctx("modulus")?;
    if !primes::supports_opt(p) {
        g.discarded = true;
        return Ok(());
    }
    let a = g.biased(p - 1);
    let c = g.biased(p - 1);
    let w = g.biased(u64::MAX);
    g.hit();
    g.note(format!("opt p={p} a={a} b={c} w={w}"));
    let pp = p as u128;
    ensure_eq!(m.mul_opt(a, c), (a as u128 * c as u128 % pp) as u64, "mul_opt");
    ensure_eq!(m.reduce_opt(w), w % p, "reduce_opt");
    ensure_eq!(unsafe { m.reduce_opt_vt(w) }, w % p, "reduce_opt_vt");
    let mut xs = vec![a as u128 * c as u128, pp * pp - 1 - (w as u128) % pp];
    xs.push((((w as u128) << 64) | a as u128) % (pp * pp));
    for x in xs {
        ensure_eq!(m.reduce_opt_u128(x), (x % pp) as u64, "reduce_opt_u128({x})");
        let l = m.lazy_reduce_opt_u128(x);
        ensure!((l as u128) < 2 * pp && l as u128 % pp == x % pp, "lazy_reduce_opt_u128({x}): {l}");
    }
    Ok(())
}

fn pow_inv(g: &mut Gen) -> Result<(), String> {
    let (p, m) = modulus(g)?;
    let a = g.biased(p - 1);
    let e = g.biased(p - 1);
    g.note(format!("p={p} a={a} e={e}"));
    if e > 1 && a > 1 {
        g.hit();
    }
    ensure_eq!(m.pow(a, e), num::powmod(a, e, p), "pow");
    let i = m.inv(a);
    if !num::prime(p) || a == 0 {
        ensure_eq!(i, None, "inverse of {a} modulo {p}");
    } else {
        let i = i.ok_or(format!("no inverse of {a} modulo the prime {p}"))?;
        ensure!(i < p && num::mulmod(i, a, p) == 1 % p, "inverse {i}");
    }
    Ok(())
}

fn center(g: &mut Gen) -> Result<(), String> {
    let (p, m) = modulus(g)?;
    let a = g.biased(p - 1);
    g.note(format!("p={p} a={a}"));
    if a > 0 {
        g.hit();
    }
    let c = m.center(a);
    ensure_eq!((c as i128).rem_euclid(p as i128), a as i128, "center is not congruent");
    if p % 2 == 1 && a == p / 2 {
        g.label("odd modulus, a=(p-1)/2");
        ensure!(2 * (c as i128) >= -(p as i128), "center of (p-1)/2 for odd p lies outside [-p/2, p/2)");
    }
    ensure!(
        2 * (c as i128) >= -(p as i128) && 2 * (c as i128) < p as i128,
        "center({a}) mod {p} = {c} lies outside [-p/2, p/2)"
    );
    Ok(())
}

fn constructor(g: &mut Gen) -> Result<(), String> {
    let p = g.biased(u64::MAX);
    g.note(format!("p={p}"));
    g.hit();
    let ok = (2..1 << 62).contains(&p);
    ensure_eq!(Modulus::new(p).is_ok(), ok, "Modulus::new({p}).is_ok()");
    Ok(())
}

fn serialize(g: &mut Gen) -> Result<(), String> {
    let (p, m) = modulus(g)?;
    let n = 8 * g.range(0, 8);
    let a = bulk(g, n, p - 1);
    g.note(format!("p={p} n={n}"));
    if n > 0 {
        g.hit();
    }
    let bits = 64 - (p - 1).leading_zeros() as usize;
    let s = m.serialize_vec(&a);
    ensure_eq!(s.len(), m.serialization_length(n), "announced length");
    ensure_eq!(s.len(), bits * n / 8, "length");
    ensure_eq!(m.deserialize_vec(&s), a, "round trip");
    Ok(())
}

// ---------------------------------------------------------------- M02

fn ntt_setup(g: &mut Gen, max_log: usize) -> Result<Option<(u64, usize, NttOperator)>, String> {
    let n = 1usize << g.range(3, max_log);
    let bits = match g.weighted(&[2, 3, 2]) {
        0 => 62,
        1 => g.range(5, 62),
        _ => *g.pick(&[61, 60, 54, 50, 51, 52, 53, 32, 33, 31, 63 - 1]),
    };
    let i = g.usize_below(3);
    let Some(p) = num::ntt_prime_at(g.chance(1, 4), bits, 2 * n as u64, i) else {
        g.discarded = true;
        return Ok(None);
    };
    let m = Modulus::new(p).ctx("modulus")?;
    let op = NttOperator::new(&m, n).ok_or(format!("no operator for the prime {p} and size {n}"))?;
    Ok(Some((p, n, op)))
}

fn ntt_roundtrip(g: &mut Gen) -> Result<(), String> {
    let Some((p, n, op)) = ntt_setup(g, 10)? else { return Ok(()) };
    roundtrip_body(g, p, n, &op)
}
fn ntt_large(g: &mut Gen) -> Result<(), String> {
    let Some((p, n, op)) = ntt_setup(g, 13)? else { return Ok(()) };
    roundtrip_body(g, p, n, &op)?;
    // convolution with a monomial
    let a = bulk(g, n, p - 1);
    let k = g.usize_below(n);
    let c = g.biased(p - 1);
    let mut mono = vec![0; n];
    mono[k] = c;
    let mut exp = vec![0; n];
    for i in 0..n {
        let v = num::mulmod(a[i], c, p);
        if i + k < n {
            exp[i + k] = v;
        } else {
            exp[i + k - n] = num::submod(0, v, p);
        }
    }
    let (mut fa, mut fm) = (a, mono);
    op.forward(&mut fa);
    op.forward(&mut fm);
    let mut r: Vec<u64> = fa.iter().zip(&fm).map(|(x, y)| num::mulmod(*x, *y, p)).collect();
    op.backward(&mut r);
    ensure!(r == exp, "product with {c}*x^{k} modulo {p}, n={n}");
    Ok(())
}

fn roundtrip_body(g: &mut Gen, p: u64, n: usize, op: &NttOperator) -> Result<(), String> {
    let a = bulk(g, n, p - 1);
    let b = bulk(g, n, p - 1);
    g.note(format!("p={p} n={n} a={:?}.. b={:?}..", &a[..4], &b[..4]));
    g.label(format!("n={n}"));
    if a.iter().any(|x| *x != 0) {
        g.hit();
    }
    let (mut f, mut v) = (a.clone(), a.clone());
    op.forward(&mut f);
    unsafe { op.forward_vt(v.as_mut_ptr()) };
    ensure!(f.iter().all(|x| *x < p), "forward output out of range");
    ensure!(f == v, "forward and forward_vt differ (p={p} n={n})");
    let (mut x, mut y) = (f.clone(), f.clone());
    op.backward(&mut x);
    unsafe { op.backward_vt(y.as_mut_ptr()) };
    ensure!(x == a, "backward(forward(a)) != a (p={p} n={n})");
    ensure!(y == a, "backward_vt(forward(a)) != a (p={p} n={n})");
    let (mut x, mut y) = (a.clone(), a.clone());
    op.backward(&mut x);
    unsafe { op.backward_vt(y.as_mut_ptr()) };
    ensure!(x == y && x.iter().all(|x| *x < p), "backward and backward_vt differ (p={p} n={n})");
    op.forward(&mut x);
    ensure!(x == a, "forward(backward(a)) != a (p={p} n={n})");
    // linearity
    let mut s: Vec<u64> = a.iter().zip(&b).map(|(x, y)| num::addmod(*x, *y, p)).collect();
    op.forward(&mut s);
    let mut fb = b;
    op.forward(&mut fb);
    let e: Vec<u64> = f.iter().zip(&fb).map(|(x, y)| num::addmod(*x, *y, p)).collect();
    ensure!(s == e, "forward is not linear (p={p} n={n})");
    // constants map to constant vectors, the transform of x takes n distinct values
    // that are roots of X^n + 1
    let c = g.biased(p - 1);
    let mut k = vec![0; n];
    k[0] = c;
    op.forward(&mut k);
    ensure!(k.iter().all(|x| *x == c), "the transform of a constant is not constant");
    let mut k = vec![0; n];
    k[1] = 1;
    op.forward(&mut k);
    ensure!(k.iter().all(|x| num::powmod(*x, n as u64, p) == p - 1), "evaluation points are not roots of x^n+1");
    k.sort_unstable();
    k.dedup();
    ensure_eq!(k.len(), n, "distinct evaluation points");
    Ok(())
}

fn ntt_convolution(g: &mut Gen) -> Result<(), String> {
    let Some((p, n, op)) = ntt_setup(g, 6)? else { return Ok(()) };
    let a = bulk(g, n, p - 1);
    let b = bulk(g, n, p - 1);
    g.note(format!("p={p} n={n} a={:?}.. b={:?}..", &a[..4], &b[..4]));
    if a.iter().any(|x| *x != 0) && b.iter().any(|x| *x != 0) {
        g.hit();
    }
    let (mut fa, mut fb) = (a.clone(), b.clone());
    op.forward(&mut fa);
    if g.bool() {
        unsafe { op.forward_vt(fb.as_mut_ptr()) };
    } else {
        op.forward(&mut fb);
    }
    let mut r: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| num::mulmod(*x, *y, p)).collect();
    if g.bool() {
        unsafe { op.backward_vt(r.as_mut_ptr()) };
    } else {
        op.backward(&mut r);
    }
    ensure_eq!(r, num::negacyclic(&a, &b, p), "negacyclic convolution modulo {p}, n={n}");
    Ok(())
}

fn ntt_constructor(g: &mut Gen) -> Result<(), String> {
    let n = 1usize << g.range(3, 12);
    let two_n = 2 * n as u64;
    let p = match g.weighted(&[2, 2, 2, 2]) {
        0 => modulus_value(g),
        1 => num::ntt_prime(g.range(5, 62), 16, g.usize_below(4)).unwrap_or(17),
        2 => (1 + two_n * (1 + g.draw((1u64 << 61) / two_n - 1))).min((1 << 62) - 1),
        _ => num::ntt_prime(g.range(5, 62), two_n, g.usize_below(2)).unwrap_or(17),
    };
    let m = Modulus::new(p).ctx("modulus")?;
    let expected = p % two_n == 1 && num::prime(p);
    g.note(format!("p={p} n={n} expected={expected}"));
    g.label(if expected { "exists" } else { "none" });
    g.hit();
    ensure_eq!(NttOperator::new(&m, n).is_some(), expected, "operator for p={p} n={n} exists");
    Ok(())
}

// ---------------------------------------------------------------- M03

pub fn coprime_moduli(g: &mut Gen, kmax: usize) -> Vec<u64> {
    let k = g.range(1, kmax);
    let mut v: Vec<u64> = vec![];
    for _ in 0..k {
        for _ in 0..4 {
            let c = match g.weighted(&[2, 2, 1]) {
                0 => num::ntt_prime_at(g.chance(1, 4), g.range(5, 62), 16, g.usize_below(8)).unwrap_or(17),
                1 => num::ntt_prime(62, 16, g.usize_below(24)).unwrap(),
                _ => modulus_value(g),
            };
            if v.iter().all(|x| num::gcd(*x, c) == 1) {
                v.push(c);
                break;
            }
        }
    }
    if v.is_empty() {
        v.push(2);
    }
    v
}

pub fn big_below(g: &mut Gen, q: &BigUint) -> BigUint {
    // boundary-biased integer in [0, q)
    let small = BigUint::from(g.draw(4));
    let v = match g.weighted(&[1, 2, 3, 4, 2]) {
        0 => small,
        1 => q - 1u32 - small.min(q - 1u32),
        2 => {
            let h = q >> 1u32;
            let x = h + small;
            if x >= BigUint::from(2u32) { x - 2u32 } else { x }
        }
        3 => {
            let mut r = g.rng();
            big_uniform(&mut r, q)
        }
        _ => {
            let b = g.below(q.bits().max(1));
            (BigUint::from(1u32) << b) + small
        }
    };
    v % q
}
pub fn big_uniform(r: &mut ChaCha8Rng, q: &BigUint) -> BigUint {
    let words = q.bits() / 32 + 3;
    BigUint::new((0..words).map(|_| r.next_u32()).collect()) % q
}

fn rns_bijection(g: &mut Gen) -> Result<(), String> {
    let v = coprime_moduli(g, 12);
    let ctx = RnsContext::new(&v).ctx("coprime moduli")?;
    let c = num::Crt::new(&v);
    ensure_eq!(*ctx.modulus(), c.q, "product");
    let x = big_below(g, &c.q);
    let res: Vec<u64> = v.iter().map(|m| g.biased(m - 1)).collect();
    let mult = g.below(3);
    g.note(format!("moduli={v:?} x={x} rests={res:?}"));
    if v.len() > 1 && !x.is_zero() {
        g.hit();
    }
    let pr = ctx.project(&x);
    ensure_eq!(pr, v.iter().map(|m| (&x % *m).to_u64().unwrap()).collect::<Vec<_>>(), "project");
    ensure_eq!(ctx.lift((&pr).into()), x, "lift(project(x))");
    // integers beyond the product reduce
    let y = &x + &c.q * mult;
    ensure_eq!(ctx.project(&y), pr, "project(x + {mult}*Q)");
    let l = ctx.lift((&res).into());
    ensure!(l < c.q, "lift out of range");
    ensure_eq!(l, c.lift(res.iter().copied()), "lift of rests");
    ensure_eq!(ctx.project(&l), res, "project(lift(r))");
    for i in 0..v.len() {
        let ga = ctx.get_garner(i).ok_or("missing garner coefficient")?;
        for (j, m) in v.iter().enumerate() {
            ensure_eq!((ga % *m).to_u64().unwrap(), if i == j { 1 % m } else { 0 }, "garner {i} mod modulus {j}");
        }
        ensure!(ga < &c.q, "garner {i} is not reduced");
    }
    ensure!(ctx.get_garner(v.len()).is_none(), "garner past the end");
    let again = RnsContext::new(&v).ctx("second context")?;
    ensure!(again == ctx, "contexts of the same moduli differ");
    Ok(())
}

fn rns_reject(g: &mut Gen) -> Result<(), String> {
    let mut v = coprime_moduli(g, 6);
    let kind = g.weighted(&[1, 3, 2, 2]);
    match kind {
        0 => v.clear(),
        1 => {
            // a common factor somewhere
            let i = g.usize_below(v.len());
            let f = v[i];
            let k = 1 + g.below(((1u64 << 62) - 1) / f);
            let at = g.usize_below(v.len() + 1);
            v.insert(at, (f * k).max(2));
        }
        2 => {
            let at = g.usize_below(v.len() + 1);
            let bad = *g.pick(&[0u64, 1, 1 << 62, u64::MAX]);
            v.insert(at, bad);
        }
        _ => {
            let i = g.usize_below(v.len());
            let x = v[i];
            v.push(x);
        }
    }
    g.note(format!("moduli={v:?}"));
    g.label(format!("reject kind {kind}"));
    g.hit();
    ensure!(RnsContext::new(&v).is_err(), "invalid moduli accepted: {v:?}");
    Ok(())
}

// ---------------------------------------------------------------- M10

fn cbd_exact(g: &mut Gen) -> Result<(), String> {
    // sampling is a function of the random stream: each sample is the difference of
    // two popcounts of 2*variance fresh bits, whatever way bits are pooled
    let var = g.range(1, 32);
    let n = g.range(0, 70);
    let seed = g.seed();
    g.note(format!("variance={var} n={n} seed={seed}"));
    if n > 8 {
        g.hit();
    }
    let v = fhe_util::sample_vec_cbd(n, var, &mut ChaCha8Rng::seed_from_u64(seed)).ctx("sample")?;
    ensure_eq!(v.len(), n, "length");
    ensure!(v.iter().all(|x| x.unsigned_abs() as usize <= 2 * var), "sample out of support: {v:?}");
    let w = fhe_util::sample_vec_cbd(n, var, &mut ChaCha8Rng::seed_from_u64(seed)).ctx("sample")?;
    ensure_eq!(v, w, "same stream, same samples");
    Ok(())
}

fn cbd_moments(g: &mut Gen) -> Result<(), String> {
    let var = g.range(1, 32);
    // resolves one coin of the widest law at 9 sigma
    let n = 1_000_000;
    let mut rng = g.rng();
    g.note(format!("variance={var} n={n}"));
    g.label(format!("variance {var}"));
    g.hit();
    let v = fhe_util::sample_vec_cbd(n, var, &mut rng).ctx("sample")?;
    check_cbd(&v, var, 1)
}

/// 9-sigma tests of the centred binomial law with `2*var` coins per side; `lag`
/// is used for a serial-correlation test.
pub fn check_cbd(v: &[i64], var: usize, lag: usize) -> Result<(), String> {
    let n = v.len() as f64;
    let s2 = var as f64;
    ensure!(v.iter().all(|x| x.unsigned_abs() as usize <= 2 * var), "sample out of support");
    let mean = v.iter().sum::<i64>() as f64 / n;
    ensure!(mean.abs() < 9.0 * (s2 / n).sqrt(), "mean {mean} for variance {var}");
    let m2 = v.iter().map(|x| (x * x) as f64).sum::<f64>() / n;
    // Var(X^2) = mu4 - s2^2; for the centred binomial mu4 = 3 s2^2 - s2/2
    let sd = ((2.0 * s2 * s2 - s2 / 2.0) / n).sqrt();
    ensure!((m2 - s2).abs() < 9.0 * sd, "second moment {m2} for variance {var} (tolerance {})", 9.0 * sd);
    // P(X = 0) = C(4var, 2var)/2^(4var); P(odd) = 1/2
    let odd = v.iter().filter(|x| **x % 2 != 0).count() as f64 / n;
    ensure!((odd - 0.5).abs() < 9.0 * (0.25 / n).sqrt(), "fraction of odd samples {odd}");
    let lp: f64 = (1..=2 * var).map(|i| (((2 * var + i) as f64) / (i as f64 * 4.0)).ln()).sum();
    let p0 = lp.exp();
    let z = v.iter().filter(|x| **x == 0).count() as f64 / n;
    ensure!((z - p0).abs() < 9.0 * (p0 * (1.0 - p0) / n).sqrt() + 1e-9, "fraction of zeros {z}, expected {p0}");
    for l in lag..lag + 4 {
        let c: f64 = v.iter().zip(v.iter().skip(l)).map(|(a, b)| (a * b) as f64).sum::<f64>() / n;
        ensure!(c.abs() < 9.0 * s2 / n.sqrt(), "serial correlation {c} at lag {l}");
    }
    Ok(())
}

fn uniform(g: &mut Gen) -> Result<(), String> {
    let (p, m) = modulus(g)?;
    let n = 8_000;
    let mut rng = g.rng();
    g.note(format!("p={p} n={n}"));
    g.hit();
    let v = m.random_vec(n, &mut rng);
    ensure_eq!(v.len(), n, "length");
    check_uniform(&v, p)
}

pub fn check_uniform(v: &[u64], p: u64) -> Result<(), String> {
    let n = v.len() as f64;
    ensure!(v.iter().all(|x| *x < p), "value out of range");
    let buckets = p.min(16);
    let mut c = vec![0u64; buckets as usize];
    for x in v {
        c[((*x as u128 * buckets as u128) / p as u128) as usize] += 1;
    }
    for (i, x) in c.iter().enumerate() {
        // exact size of the bucket
        let lo = (i as u128 * p as u128).div_ceil(buckets as u128);
        let hi = ((i + 1) as u128 * p as u128).div_ceil(buckets as u128);
        let pr = (hi - lo) as f64 / p as f64;
        let e = pr * n;
        ensure!((*x as f64 - e).abs() < 9.0 * (e * (1.0 - pr)).sqrt() + 2.0, "bucket {i}/{buckets} modulo {p}: {x} samples, expected {e}");
    }
    // low bits
    let lowp = p.min(4);
    let z = v.iter().filter(|x| **x % lowp == 0).count() as f64 / n;
    let pr = ((p - 1) / lowp + 1) as f64 / p as f64;
    ensure!((z - pr).abs() < 9.0 * (pr * (1.0 - pr) / n).sqrt() + 1e-9, "low bits biased: {z} expected {pr}");
    Ok(())
}

fn poly_ctx(g: &mut Gen, nmax: usize, kmax: usize) -> Result<(std::sync::Arc<fhe_math::rq::Context>, Vec<u64>, usize), String> {
    let n = 1usize << g.range(3, nmax);
    let k = g.range(1, kmax);
    let mut v: Vec<u64> = vec![];
    for _ in 0..k {
        let b = if g.bool() { 62 } else { g.range(10, 62) };
        let i = g.usize_below(10);
        if let Some(p) = num::ntt_prime_at(g.chance(1, 4), b, 2 * n as u64, i) {
            if !v.contains(&p) {
                v.push(p);
            }
        }
    }
    if v.is_empty() {
        v.push(num::ntt_prime(62, 2 * n as u64, 0).unwrap());
    }
    let ctx = fhe_math::rq::Context::new_arc(&v, n).ctx("context")?;
    Ok((ctx, v, n))
}

fn poly_small(g: &mut Gen) -> Result<(), String> {
    use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis};
    let (ctx, v, n) = poly_ctx(g, 6, 4)?;
    let var = g.range(1, 32);
    let mut rng = g.rng();
    let rep = g.below(3);
    g.note(format!("moduli={v:?} n={n} variance={var} rep={rep}"));
    g.label(format!("rep {rep}"));
    let mut all = vec![];
    let reps = 8192 / n;
    for _ in 0..reps {
        let pb = match rep {
            0 => Poly::<PowerBasis>::small(&ctx, var, &mut rng).ctx("small")?,
            1 => Poly::<Ntt>::small(&ctx, var, &mut rng).ctx("small")?.into_power_basis(),
            _ => Poly::<NttShoup>::small(&ctx, var, &mut rng).ctx("small")?.into_power_basis(),
        };
        ensure!(!pb.allows_variable_time_computations(), "a small polynomial is marked for variable time");
        let c = pb.coefficients();
        for j in 0..n {
            // the same small integer in every residue
            let x0 = c[(0, j)];
            let val = if x0 > v[0] / 2 { x0 as i64 - v[0] as i64 } else { x0 as i64 };
            for (i, q) in v.iter().enumerate() {
                ensure_eq!(c[(i, j)], (val as i128).rem_euclid(*q as i128) as u64, "residue {i} of coefficient {j}");
            }
            all.push(val);
        }
    }
    g.hit();
    check_cbd(&all, var, 1)
}

fn poly_seeded(g: &mut Gen) -> Result<(), String> {
    use fhe_math::rq::{Ntt, NttShoup, Poly, PowerBasis};
    let (ctx, v, n) = poly_ctx(g, 7, 4)?;
    let mut s = [0u8; 32];
    g.rng().fill_bytes(&mut s);
    let mut s2 = s;
    let bit = g.usize_below(256);
    s2[bit / 8] ^= 1 << (bit % 8);
    g.note(format!("moduli={v:?} n={n} seed bit flipped={bit}"));
    g.hit();
    let a = Poly::<Ntt>::random_from_seed(&ctx, s);
    let b = Poly::<Ntt>::random_from_seed(&ctx, s);
    ensure!(a == b, "the same seed gives different polynomials");
    let c = Poly::<Ntt>::random_from_seed(&ctx, s2);
    ensure!(a != c, "different seeds give the same polynomial");
    let ctx2 = fhe_math::rq::Context::new_arc(&v, n).ctx("context")?;
    ensure!(Poly::<Ntt>::random_from_seed(&ctx2, s).coefficients() == a.coefficients(), "seeded sampling depends on more than seed and context");
    for (row, q) in a.coefficients().outer_iter().zip(&v) {
        ensure!(row.iter().all(|x| x < q), "residue out of range");
        // 8 equal residues in a row at n >= 8 would be a 2^-60 event for q >= 2^10
        let first = row[0];
        ensure!(row.iter().any(|x| *x != first), "constant 'random' row");
    }
    // distinct rows (for equal-size moduli identical rows have negligible probability)
    for i in 1..v.len() {
        ensure!(a.coefficients().row(i) != a.coefficients().row(0), "two moduli share the same residues");
    }
    let p = Poly::<PowerBasis>::random_from_seed(&ctx, s);
    let q = Poly::<PowerBasis>::random_from_seed(&ctx, s);
    let t = Poly::<NttShoup>::random_from_seed(&ctx, s);
    ensure!(p == q, "power basis: the same seed gives different polynomials");
    ensure!(t.coefficients() == a.coefficients() && t.clone().into_ntt() == a, "the seeded polynomial differs between NTT representations");
    let mut r1 = g.rng();
    let x = Poly::<Ntt>::random(&ctx, &mut r1);
    let y = Poly::<Ntt>::random(&ctx, &mut r1);
    ensure!(x != y, "two random polynomials are equal");
    Ok(())
}

fn cbd_reject(g: &mut Gen) -> Result<(), String> {
    let var = match g.weighted(&[1, 2, 1]) {
        0 => 0,
        1 => g.range(33, 200),
        _ => g.biased(u64::MAX) as usize,
    };
    if (1..=32).contains(&var) {
        g.discarded = true;
        return Ok(());
    }
    g.note(format!("variance={var}"));
    g.hit();
    let mut rng = g.rng();
    let n = g.range(0, 16);
    ensure!(fhe_util::sample_vec_cbd(n, var, &mut rng).is_err(), "variance {var} accepted");
    let (ctx, _, _) = poly_ctx(g, 3, 2)?;
    ensure!(fhe_math::rq::Poly::<fhe_math::rq::PowerBasis>::small(&ctx, var, &mut rng).is_err(), "small: variance {var} accepted");
    ensure!(fhe_math::rq::Poly::<fhe_math::rq::Ntt>::small(&ctx, var, &mut rng).is_err(), "small: variance {var} accepted");
    Ok(())
}

// ---------------------------------------------------------------- M11

fn bits_of(a: &[u64], nb: usize) -> Vec<bool> {
    a.iter().flat_map(|x| (0..nb).map(move |i| (x >> i) & 1 == 1)).collect()
}
fn from_bits(b: &[bool], nb: usize) -> Vec<u64> {
    b.chunks(nb).map(|c| c.iter().enumerate().fold(0u64, |a, (i, x)| a | ((*x as u64) << i))).collect()
}
fn tr_values(g: &mut Gen) -> (usize, Vec<u64>) {
    let nb = match g.weighted(&[3, 1]) {
        0 => g.range(1, 64),
        _ => *g.pick(&[1, 7, 8, 9, 16, 31, 32, 33, 60, 61, 62, 63, 64]),
    };
    let n = match g.weighted(&[3, 2]) {
        0 => g.range(0, 17),
        _ => g.range(0, 80),
    };
    let a = bulk(g, n, u64::MAX >> (64 - nb));
    (nb, a)
}
fn tr_bytes(g: &mut Gen) -> Result<(), String> {
    let (nb, a) = tr_values(g);
    g.note(format!("width={nb} a={:?}", &a[..a.len().min(6)]));
    g.label(format!("width {}", nb.div_ceil(8) * 8));
    if a.len() > 1 {
        g.hit();
    }
    let exp: Vec<u8> = from_bits(&bits_of(&a, nb), 8).into_iter().map(|x| x as u8).collect();
    let got = fhe_util::transcode_to_bytes(&a, nb);
    ensure_eq!(got.len(), (a.len() * nb).div_ceil(8), "byte length");
    ensure_eq!(got, exp, "transcode_to_bytes width {nb}");
    let back = fhe_util::transcode_from_bytes(&got, nb);
    ensure!(back.len() >= a.len() && back[..a.len()] == a[..] && back[a.len()..].iter().all(|x| *x == 0), "round trip width {nb}: {back:?} vs {a:?}");
    Ok(())
}
fn tr_from_bytes(g: &mut Gen) -> Result<(), String> {
    let nb = g.range(1, 64);
    let n = g.range(0, 90);
    let b: Vec<u8> = bulk(g, n, 255).into_iter().map(|x| x as u8).collect();
    g.note(format!("width={nb} b={:?}", &b[..n.min(8)]));
    if n > 1 {
        g.hit();
    }
    let w: Vec<u64> = b.iter().map(|x| *x as u64).collect();
    let exp = from_bits(&bits_of(&w, 8), nb);
    ensure_eq!(fhe_util::transcode_from_bytes(&b, nb), exp, "transcode_from_bytes width {nb}");
    Ok(())
}
fn tr_bidir(g: &mut Gen) -> Result<(), String> {
    let (nb, a) = tr_values(g);
    let ob = g.range(1, 64);
    g.note(format!("width={nb}->{ob} a={:?}", &a[..a.len().min(6)]));
    if a.len() > 1 {
        g.hit();
    }
    let exp = from_bits(&bits_of(&a, nb), ob);
    let got = fhe_util::transcode_bidirectional(&a, nb, ob);
    ensure_eq!(got, exp, "transcode_bidirectional {nb} -> {ob}");
    let back = fhe_util::transcode_bidirectional(&got, ob, nb);
    ensure!(back.len() >= a.len() && back[..a.len()] == a[..] && back[a.len()..].iter().all(|x| *x == 0), "round trip {nb} -> {ob} -> {nb}: {back:?}");
    Ok(())
}

// ---------------------------------------------------------------- M12

const PSEUDO: &[u64] = &[
    2047, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051,
    561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361,
    323, 377, 1159, 1829, 3827, 5459, 5777, 9071, 9179, 10877, 11419, 11663, 13919, 14839, 16109, 16211, 18407,
    989, 3239, 5777, 10877, 27971, 29681, 30739, 31631, 39059, 72389, 73919, 75077, 100127, 113573, 125249,
    1194649, 12327121, 18446744073709551615, 18446744073709551557, 18446744073709551533, 9223372036854775783, 4294967291, 4294967297,
    46856248255981, 3317044064679887385, 318665857834031151,
];

fn is_prime(g: &mut Gen) -> Result<(), String> {
    let n = match g.weighted(&[3, 2, 2, 3, 2, 2]) {
        0 => g.draw(5000),
        1 => g.u64(),
        2 => *g.pick(PSEUDO),
        3 => {
            // product of two primes of similar size
            let b = g.range(3, 32);
            let p = next_prime((1u64 << (b - 1)) + g.draw((1u64 << (b - 1)) - 1));
            let d = g.draw(4);
            let mut q = p;
            for _ in 0..d {
                q = next_prime(q + 1);
            }
            p.checked_mul(q).unwrap_or(p)
        }
        4 => {
            let b = g.range(2, 64);
            let lo = 1u64 << (b - 1);
            next_prime(lo + g.draw(lo / 2))
        }
        _ => {
            // (k+1)(2k+1)-like numbers, the usual strong pseudoprime shape
            let k = g.draw(1 << 31);
            (k + 1).checked_mul(g.range(2, 4) as u64 * k + 1).unwrap_or(k)
        }
    };
    let e = num::prime(n);
    g.note(format!("n={n} prime={e}"));
    g.label(if e { "prime" } else { "composite" });
    if e || (n % 2 == 1 && n % 3 != 0 && n % 5 != 0) {
        g.hit();
    }
    ensure_eq!(fhe_util::is_prime(n), e, "is_prime({n})");
    Ok(())
}
fn next_prime(mut n: u64) -> u64 {
    while !num::prime(n) {
        n += 1;
    }
    n
}

fn generate_prime(g: &mut Gen) -> Result<(), String> {
    let bits = match g.weighted(&[6, 1]) {
        0 => g.range(10, 62),
        _ => g.range(0, 70),
    };
    let modulo = 1u64 << g.range(1, 17);
    let modulo = if g.chance(1, 6) { (modulo + g.draw(modulo)).max(2) } else { modulo };
    if !(10..=62).contains(&bits) {
        let ub = 1u64 << bits.min(63);
        g.note(format!("bits={bits}"));
        g.hit();
        ensure_eq!(primes::generate_prime(bits, modulo, ub), None, "size {bits}");
        return Ok(());
    }
    let top = 1u64 << bits;
    let ub = match g.weighted(&[3, 3, 2]) {
        0 => top,
        1 => (top >> 1) + g.draw(top >> 1),
        _ => ((top >> 1) + g.draw(1000)).min(top),
    };
    if ub < 2 {
        return Ok(());
    }
    let got = primes::generate_prime(bits, modulo, ub);
    // oracle: the largest prime below ub with exactly `bits` bits that is 1 mod modulo
    let lo = top >> 1;
    let mut exp = None;
    let mut c = ub - 1;
    c -= (c + modulo - 1) % modulo;
    let mut steps = 0;
    while c >= lo && c >= 2 {
        if num::prime(c) {
            exp = Some(c);
            break;
        }
        if c < modulo {
            break;
        }
        c -= modulo;
        steps += 1;
        if steps > 200_000 {
            g.discarded = true;
            return Ok(());
        }
    }
    g.note(format!("bits={bits} modulo={modulo} upper={ub} -> {exp:?}"));
    g.label(if exp.is_some() { "found" } else { "none" });
    g.hit();
    ensure_eq!(got, exp, "generate_prime({bits}, {modulo}, {ub})");
    Ok(())
}

fn inverse(g: &mut Gen) -> Result<(), String> {
    let p = if g.bool() { modulus_value(g) } else { g.biased(u64::MAX).max(2) };
    let a = if g.bool() { g.biased(p - 1) } else { g.biased(u64::MAX) };
    g.note(format!("a={a} p={p}"));
    let e = num::inv(a % p, p);
    if e.is_some() {
        g.hit();
    }
    g.label(if e.is_some() { "invertible" } else { "not invertible" });
    ensure_eq!(fhe_util::inverse(a, p), e, "inverse({a}, {p})");
    Ok(())
}

fn supports_opt(g: &mut Gen) -> Result<(), String> {
    // Equation (1) of hal-01242273: (1 + 1/2^(3 s0)) * beta/(2^s0 + 1) < p < beta/2^s0
    let b = g.range(2, 63);
    let lo = 1u64 << (b - 1);
    let p = match g.weighted(&[2, 2, 2]) {
        0 => lo + g.draw(lo - 1),
        1 => 2 * (lo - 1) + 1 - g.draw(40.min(lo - 1)),
        _ => {
            let s0 = 64 - b as u32;
            let bound = ((1u128 << 64) / ((1u128 << s0) + 1)) as u64;
            bound.saturating_add(g.draw(64)).saturating_sub(32)
        }
    };
    if p == 0 {
        return Ok(());
    }
    g.note(format!("p={p}"));
    let s0 = p.leading_zeros();
    let e = if s0 < 1 {
        false
    } else {
        let one = BigUint::from(1u32);
        let l = ((&one << (3 * s0)) + 1u32) << 64u32;
        let r = (&one << (3 * s0)) * ((&one << s0) + 1u32) * p;
        l < r
    };
    if e {
        g.hit();
    }
    g.label(if e { "yes" } else { "no" });
    ensure_eq!(primes::supports_opt(p), e, "supports_opt({p})");
    Ok(())
}

fn variance(g: &mut Gen) -> Result<(), String> {
    let n = g.range(2, 40);
    let v: Vec<i64> = bulk(g, n, 2000).into_iter().map(|x| x as i64 - 1000).collect();
    g.note(format!("{:?}", &v[..n.min(8)]));
    g.hit();
    let nf = n as f64;
    let s: i64 = v.iter().sum();
    let s2: i64 = v.iter().map(|x| x * x).sum();
    let e = (s2 as f64 - (s as f64) * (s as f64) / nf) / (nf - 1.0);
    let got = fhe_util::variance(&v);
    ensure!((got - e).abs() <= 1e-6 * (1.0 + e.abs()), "variance of {v:?}: {got}, expected {e}");
    Ok(())
}
