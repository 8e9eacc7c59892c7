use crate::choice::Gen;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet, hash_map::DefaultHasher};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

pub type CaseFn = fn(&mut Gen) -> Result<(), String>;

/// One generator/oracle pair of a property.
pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}
pub fn sub(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Sub {
    Sub { name, quick, thorough, f }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

/// Run a closure, turning a panic into `Err(description)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

fn run_case(f: CaseFn, g: &mut Gen) -> Result<(), String> {
    match no_panic(AssertUnwindSafe(|| f(g))) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn mix(parts: &[u64]) -> u64 {
    let mut h = 0x9E3779B97F4A7C15u64;
    for p in parts {
        h ^= *p;
        h = h.wrapping_mul(0xBF58476D1CE4E5B9);
        h ^= h >> 29;
        h = h.wrapping_mul(0x94D049BB133111EB);
        h ^= h >> 32;
    }
    h
}
fn hstr(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub struct Failure {
    pub sub: &'static str,
    pub choices: Vec<u64>,
    pub msg: String,
    pub notes: Vec<String>,
    pub original_len: usize,
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub discarded: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
}

const RETRIES: usize = 3;
pub const HANG_S: u64 = 240;

/// Internal shrinking on the choice sequence.
fn shrink(f: CaseFn, start: Vec<u64>, msg: String, budget_s: f64) -> (Vec<u64>, String, Vec<String>) {
    let t0 = Instant::now();
    let mut best = start;
    let mut best_msg = msg;
    let mut notes = vec![];
    let attempt = |cand: &Vec<u64>| -> Option<(Vec<u64>, String, Vec<String>)> {
        for _ in 0..RETRIES {
            let mut g = Gen::replay(cand.clone());
            if let Err(m) = run_case(f, &mut g) {
                return Some((g.choices, m, g.notes));
            }
        }
        None
    };
    if let Some((c, m, n)) = attempt(&best) {
        best = c;
        best_msg = m;
        notes = n;
    }
    let simpler = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a) < (b.len(), b);
    let mut improved = true;
    while improved && t0.elapsed().as_secs_f64() < budget_s {
        improved = false;
        // delete chunks
        let mut k = best.len().min(16);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                if t0.elapsed().as_secs_f64() > budget_s {
                    break;
                }
                let mut c = best.clone();
                c.drain(i..i + k);
                if let Some((c2, m, n)) = attempt(&c) {
                    if simpler(&c2, &best) {
                        best = c2;
                        best_msg = m;
                        notes = n;
                        improved = true;
                        continue;
                    }
                }
                i += 1;
            }
            k /= 2;
        }
        // lower individual values
        let mut i = 0;
        while i < best.len() {
            if t0.elapsed().as_secs_f64() > budget_s {
                break;
            }
            let v = best[i];
            if v > 0 {
                let mut tried = vec![0, 1, v / 2, v.wrapping_sub(v / 8), v - 1];
                tried.retain(|x| *x < v);
                tried.dedup();
                for x in tried {
                    let mut c = best.clone();
                    c[i] = x;
                    if let Some((c2, m, n)) = attempt(&c) {
                        if simpler(&c2, &best) {
                            best = c2;
                            best_msg = m;
                            notes = n;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    (best, best_msg, notes)
}

/// A violation is ignored iff a listed known finding's signature matches:
/// same property, same sub-check, and the message contains the signature.
pub struct Known {
    pub property: String,
    pub sub: String,
    pub sig: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let Ok(s) = std::fs::read_to_string(path) else { return vec![] };
    let mut v = vec![];
    for l in s.lines() {
        // known: property=<id> sub=<name> sig="<text>" <what fails>
        let Some(rest) = l.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(2, ' ');
        let property = it.next().unwrap_or("").to_string();
        let rest = it.next().unwrap_or("");
        let Some(rest) = rest.strip_prefix("sub=") else { continue };
        let mut it = rest.splitn(2, ' ');
        let subn = it.next().unwrap_or("").to_string();
        let rest = it.next().unwrap_or("");
        let Some(rest) = rest.strip_prefix("sig=\"") else { continue };
        let mut it = rest.splitn(2, "\" ");
        let sig = it.next().unwrap_or("").to_string();
        let what = it.next().unwrap_or("").to_string();
        v.push(Known { property, sub: subn, sig, what });
    }
    v
}

pub struct Outcome {
    pub stats: BTreeMap<&'static str, Stats>,
    pub failure: Option<Failure>,
    pub known_hits: BTreeMap<String, u64>,
}

pub fn run_prop(p: &Prop, tier: &str, seed: u64, variant: &str, scale: f64, only: Option<&str>, known: &[Known], inflight: Option<&std::fs::File>, on_hang: impl Fn(&'static str, u64) + Send + 'static) -> Outcome {
    let threads = std::env::var("FV_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
    });
    let mut out = Outcome { stats: BTreeMap::new(), failure: None, known_hits: BTreeMap::new() };
    // watchdog: cases take milliseconds (seconds at most), so one that has not ended
    // after HANG_S seconds is reported as a failure of the property
    let beats: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
    let beats: &'static Vec<(AtomicU64, AtomicU64)> = Box::leak(Box::new(beats));
    let current: &'static Mutex<&'static str> = Box::leak(Box::new(Mutex::new("")));
    static CLOCK: AtomicU64 = AtomicU64::new(1);
    let done: &'static AtomicBool = Box::leak(Box::new(AtomicBool::new(false)));
    std::thread::spawn(move || {
        while !done.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = CLOCK.fetch_add(1, Ordering::Relaxed) + 1;
            for b in beats.iter() {
                let v = b.0.load(Ordering::Relaxed);
                if v != 0 && now.saturating_sub(v) > HANG_S {
                    on_hang(*current.lock().unwrap(), b.1.load(Ordering::Relaxed));
                }
            }
        }
    });
    for (sub_ix, s) in p.subs.iter().enumerate() {
        if let Some(o) = only {
            if o != s.name {
                continue;
            }
        }
        *current.lock().unwrap() = s.name;
        let n = ((if tier == "thorough" { s.thorough } else { s.quick }) as f64 * scale).ceil() as u64;
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let st = Mutex::new(Stats::default());
        let fails: Mutex<Vec<(u64, Vec<u64>, String, Vec<String>)>> = Mutex::new(vec![]);
        let khits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let base = mix(&[seed, hstr(p.id), hstr(s.name), hstr(variant)]);
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for tid in 0..threads {
                let (next, stop, st, fails, khits) = (&next, &stop, &st, &fails, &khits);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let mut local = Stats::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let case_seed = mix(&[base, i]);
                            beats[tid].1.store(case_seed, Ordering::Relaxed);
                            beats[tid].0.store(CLOCK.load(Ordering::Relaxed), Ordering::Relaxed);
                            if let Some(f) = inflight {
                                // read by check.py if the process dies by a signal
                                use std::os::unix::fs::FileExt;
                                let mut b = [0u8; 16];
                                b[..8].copy_from_slice(&(sub_ix as u64 + 1).to_le_bytes());
                                b[8..].copy_from_slice(&case_seed.to_le_bytes());
                                f.write_all_at(&b, 16 * tid as u64).expect("write");
                            }
                            let mut g = Gen::random(case_seed);
                            let r = run_case(s.f, &mut g);
                            local.evals += 1;
                            if g.discarded {
                                local.discarded += 1;
                            }
                            for l in &g.labels {
                                *local.labels.entry(l.clone()).or_insert(0) += 1;
                            }
                            if g.nontrivial {
                                let mut h = DefaultHasher::new();
                                g.choices.hash(&mut h);
                                if local.nontrivial.insert(h.finish()) && local.samples.len() < 2 && !g.notes.is_empty() {
                                    local.samples.push(json!({"sub": s.name, "case": i, "what": g.notes}));
                                }
                            }
                            if let Err(m) = r {
                                if let Some(k) = known.iter().find(|k| {
                                    k.property == p.id && k.sub == s.name && m.contains(&k.sig)
                                }) {
                                    *khits.lock().unwrap().entry(k.what.clone()).or_insert(0) += 1;
                                    continue;
                                }
                                fails.lock().unwrap().push((i, g.choices, m, g.notes));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        beats[tid].0.store(0, Ordering::Relaxed);
                        let mut s0 = st.lock().unwrap();
                        s0.evals += local.evals;
                        s0.discarded += local.discarded;
                        s0.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.labels {
                            *s0.labels.entry(k).or_insert(0) += v;
                        }
                        for x in local.samples {
                            if s0.samples.len() < 2 {
                                s0.samples.push(x);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        for (k, v) in khits.into_inner().unwrap() {
            *out.known_hits.entry(k).or_insert(0) += v;
        }
        let st = st.into_inner().unwrap();
        eprintln!(
            "  {}/{} [{}] {} cases, {} non-trivial, {} discarded, {:.1}s",
            p.id, s.name, variant, st.evals, st.nontrivial.len(), st.discarded, t0.elapsed().as_secs_f64()
        );
        out.stats.insert(s.name, st);
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|f| f.0);
        if let Some((_, choices, msg, notes0)) = fails.into_iter().next() {
            let original_len = choices.len();
            eprintln!("  {}/{}: failed: {}; shrinking", p.id, s.name, msg);
            let (c, m, n) = shrink(s.f, choices, msg, 25.0);
            out.failure = Some(Failure {
                sub: s.name,
                choices: c,
                msg: m,
                notes: if n.is_empty() { notes0 } else { n },
                original_len,
            });
            break;
        }
    }
    done.store(true, Ordering::Relaxed);
    out
}

/// Runs the case a seed generates (how a case that hangs is replayed).
pub fn replay_seed(p: &Prop, subname: &str, seed: u64) -> Result<(), String> {
    let s = p.subs.iter().find(|s| s.name == subname).expect("unknown sub-check");
    let mut g = Gen::random(seed);
    run_case(s.f, &mut g)
}

pub fn replay(p: &Prop, subname: &str, choices: Vec<u64>, tries: usize) -> Result<(), String> {
    let s = p.subs.iter().find(|s| s.name == subname).expect("unknown sub-check");
    for _ in 0..tries {
        let mut g = Gen::replay(choices.clone());
        let r = run_case(s.f, &mut g);
        for n in &g.notes {
            println!("  {n}");
        }
        r?;
    }
    Ok(())
}
