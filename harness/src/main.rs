#![allow(dead_code)]
#[macro_use]
mod choice;
mod num;
mod runner;
mod model;
mod p_bfv;
mod p_mem;
mod p_misuse;
mod p_mp;
mod p_ops;
mod p_poly;
mod p_port;
mod p_pure;
mod p_wire;
mod p_zq;

use runner::*;

use serde_json::{Value, json};
use std::time::Instant;

#[global_allocator]
static ALLOC: p_mem::Watch = p_mem::Watch;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(p_zq::props());
    v.extend(p_poly::props());
    v.extend(p_bfv::props());
    v.extend(p_ops::props());
    v.extend(p_wire::props());
    v.extend(p_misuse::props());
    v.extend(p_mp::props());
    v.extend(p_mem::props());
    v.extend(p_pure::props());
    v.extend(p_port::props());
    v
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_hook();
    let usage = || -> ! {
        eprintln!("usage: fv list | fv check ID --tier quick|thorough --seed N --variant V --out F --known F [--sub S] [--scale X] | fv replay FILE");
        std::process::exit(2)
    };
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props() {
                println!("{}: {}", p.id, p.subs.iter().map(|s| s.name).collect::<Vec<_>>().join(" "));
            }
        }
        Some("check") => {
            let Some(id) = args.get(1) else { usage() };
            let ps = props();
            let Some(p) = ps.iter().find(|p| p.id == id) else {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            };
            let tier = arg(&args, "--tier").unwrap_or("quick".into());
            let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let variant = arg(&args, "--variant").unwrap_or("dev".into());
            let scale: f64 = arg(&args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let only = arg(&args, "--sub");
            let known = load_known(&arg(&args, "--known").unwrap_or("/verif/known_findings.txt".into()));
            let inflight = arg(&args, "--inflight").map(|f| std::fs::File::create(f).expect("create"));
            let t0 = Instant::now();
            let out = arg(&args, "--out");
            let hang = {
                let (id, tier, variant, rule, out) = (p.id, tier.clone(), variant.clone(), p.rule, out.clone());
                move |sub: &'static str, case_seed: u64| {
                    let msg = format!("a case has not terminated after {HANG_S} s");
                    let doc = json!({"property": id, "tier": tier, "seed": seed, "variant": variant, "rule": rule, "subs": {}, "known": {},
                        "failure": {"property": id, "sub": sub, "variant": variant, "message": msg, "case_seed": case_seed},
                        "wall_s": t0.elapsed().as_secs_f64()});
                    if let Some(out) = &out {
                        std::fs::write(out, serde_json::to_string_pretty(&doc).unwrap()).expect("write");
                    }
                    println!("FAILED {id}/{sub} [{variant}]: {msg}");
                    std::process::exit(1)
                }
            };
            let o = run_prop(p, &tier, seed, &variant, scale, only.as_deref(), &known, inflight.as_ref(), hang);
            let subs: serde_json::Map<String, Value> = o
                .stats
                .iter()
                .map(|(k, s)| {
                    (
                        k.to_string(),
                        json!({"evaluations": s.evals, "distinct_nontrivial": s.nontrivial.len(),
                           "discarded": s.discarded, "labels": s.labels, "samples": s.samples}),
                    )
                })
                .collect();
            let failure = o.failure.as_ref().map(|f| {
                json!({"property": p.id, "sub": f.sub, "variant": variant, "message": f.msg,
                       "case": f.notes, "choices": f.choices, "choices_before_shrinking": f.original_len})
            });
            let doc = json!({"property": p.id, "tier": tier, "seed": seed, "variant": variant, "rule": p.rule,
                "subs": subs, "known": o.known_hits, "failure": failure, "wall_s": t0.elapsed().as_secs_f64()});
            if let Some(out) = out {
                std::fs::write(out, serde_json::to_string_pretty(&doc).unwrap()).expect("write");
            }
            if let Some(f) = &o.failure {
                println!("FAILED {}/{} [{}]: {}", p.id, f.sub, variant, f.msg);
                for n in &f.notes {
                    println!("    {n}");
                }
                std::process::exit(1)
            }
        }
        // the other build of B23, driven through its standard input
        Some("peer") => p_port::serve_stdin(),
        // one case by its seed (how check.py finds the case that killed a run)
        Some("case") if args.len() >= 4 => {
            let ps = props();
            let p = ps.iter().find(|p| p.id == args[1]).expect("property");
            let s = &p.subs[args[2].parse::<usize>().expect("number")];
            println!("{}", s.name);
            let _ = replay_seed(p, s.name, args[3].parse().expect("number"));
        }
        Some("replay") => {
            p_mem::trace_from_env();
            let Some(f) = args.get(1) else { usage() };
            let v: Value = serde_json::from_str(&std::fs::read_to_string(f).expect("read")).expect("json");
            let ps = props();
            let p = ps.iter().find(|p| p.id == v["property"].as_str().unwrap()).expect("property");
            if let Some(seed) = v["case_seed"].as_u64() {
                println!("running the case that did not terminate or ended the process");
                println!("{:?}", replay_seed(p, v["sub"].as_str().unwrap(), seed));
                return;
            }
            let choices = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            match replay(p, v["sub"].as_str().unwrap(), choices, 3) {
                Ok(()) => println!("the case passes"),
                Err(m) => {
                    println!("the case fails: {m}");
                    std::process::exit(1)
                }
            }
        }
        _ => usage(),
    }
}
