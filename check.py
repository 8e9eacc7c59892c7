#!/usr/bin/env python3
"""check.py ID [quick|thorough]: rebuild the harness against /repo's working tree
in both build variants, run the generated checks of one property, merge the
evidence. Exit 0: held; 1: VIOLATION line printed; anything else: error."""
import json, os, subprocess, sys, threading, time
V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
T = os.path.join(V, "target")
# native NTT backend, release code; tfhe-ntt backend, debug assertions and overflow checks on
VARIANTS = {
    "native-release": (["--release"], "release"),
    "tfhe-checked": (["--profile", "checked", "--features", "tfhe-ntt"], "checked"),
}
def build(name, res):
    flags, d = VARIANTS[name]
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(T, d), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"] + flags, cwd=H, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res[name] = (p.returncode, p.stdout, os.path.join(T, d, d, "fv"))
def build_all(names):
    res = {}
    ths = [threading.Thread(target=build, args=(n, res)) for n in names]
    [t.start() for t in ths]; [t.join() for t in ths]
    return res
def crashed(fv, pid, variant, fl, rc):
    """The run died by a signal: find the in-flight case that does it on its own."""
    try: b = open(fl, "rb").read()
    except OSError: return None
    for i in range(0, len(b) - 15, 16):
        sub, cs = int.from_bytes(b[i:i+8], "little"), int.from_bytes(b[i+8:i+16], "little")
        if not sub: continue
        try: q = subprocess.run([fv, "case", pid, str(sub - 1), str(cs)], stdout=subprocess.PIPE, text=True, timeout=240)
        except subprocess.TimeoutExpired: continue
        if q.returncode < 0:
            return {"property": pid, "sub": q.stdout.split("\n")[0], "variant": variant, "case_seed": cs,
                    "message": f"the process was ended by signal {-q.returncode} while running this case"}
    return None
def main():
    if sys.argv[1:] == ["--build"]:
        r = build_all(VARIANTS)
        for n, (rc, out, _) in r.items():
            if rc: print(out[-4000:], file=sys.stderr)
        sys.exit(2 if any(x[0] for x in r.values()) else 0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = os.path.join(V, "evidence"); rp = os.path.join(ev, "replays")
    os.makedirs(rp, exist_ok=True)
    r = build_all(VARIANTS)
    for n, (rc, out, _) in r.items():
        if rc:
            print(f"error: the {n} variant does not build\n{out[-6000:]}", file=sys.stderr); sys.exit(2)
    tb = time.time() - t0
    docs, bad = [], None
    for n in VARIANTS:
        part = os.path.join(ev, f".{pid}.{n}.json")
        if os.path.exists(part): os.remove(part)
        fl = os.path.join(ev, f".{pid}.{n}.inflight")
        cmd = [r[n][2], "check", pid, "--tier", tier, "--seed", str(seed), "--variant", n, "--inflight", fl,
               "--out", part, "--known", os.path.join(V, "known_findings.txt")]
        p = subprocess.run(cmd)
        if p.returncode < 0:
            bad = crashed(r[n][2], pid, n, fl, p.returncode)
            if bad:
                docs.append({"variant": n, "rule": "(the run did not end)", "subs": {}, "known": {}}); break
            p = subprocess.run(cmd)  # not due to a case (memory shortage of the machine, say)
        if os.path.exists(fl): os.remove(fl)
        if p.returncode not in (0, 1) or not os.path.exists(part):
            print(f"error: {pid} [{n}] ended with status {p.returncode}", file=sys.stderr)
            sys.exit(p.returncode if p.returncode > 1 else 3)
        d = json.load(open(part)); os.remove(part); docs.append(d)
        if p.returncode == 1:
            bad = d["failure"]; break
    subs, samples, ev_n, nt = {}, [], 0, 0
    for d in docs:
        for s, x in d["subs"].items():
            ev_n += x["evaluations"]; nt += x["distinct_nontrivial"]
            samples += [dict(y, variant=d["variant"]) for y in x.pop("samples")[:1]]
            subs[f"{s} [{d['variant']}]"] = x
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {"evaluations": ev_n, "distinct_nontrivial": nt, "rule": docs[0]["rule"],
                        "samples": samples[:12], "per_generator": subs,
                        "build_variants": [d["variant"] for d in docs], "build_s": round(tb, 1)},
           "assumptions": ["parameters restricted to small ring degrees unless a generator says otherwise (the algebra is degree-generic)",
                           "the encryption mask comes from the operating system's generator, so bits of a case that depend on it differ between runs"],
           "wall_s": round(time.time() - t0, 2), "violations": 1 if bad else 0}
    json.dump(doc, open(os.path.join(ev, f"{pid}.json"), "w"), indent=1)
    known = {}
    for d in docs:
        for k in d["known"]: known[k] = 1
    # every listed finding is reported, whether or not this run's cases met it
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            if l.startswith(f"known: property={pid} "): known.setdefault(l.split('" ', 1)[-1].strip(), 0)
    except FileNotFoundError: pass
    for k in known: print(f"KNOWN-FINDING: property={pid} {k}")
    if bad:
        path = os.path.join(rp, f"{pid}.json")
        json.dump(bad, open(path, "w"), indent=1)
        print(f"  {bad['sub']} [{bad['variant']}]: {bad['message']}")
        print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    print(f"{pid}: held on {ev_n} cases ({nt} distinct non-trivial), {doc['wall_s']} s")
main()
