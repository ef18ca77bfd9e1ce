#!/usr/bin/env python3
"""One check: python3 check.py Pnn [--tier quick|thorough]

V  the deciding step: contracts over the compiler's MIR of /repo's current
   source, every obligation discharged by z3 (vlib/).
B  a bounded stand-in for what V leaves open, and the search for a failing
   input when V reports a failed obligation (harness/, for P17 also miri/).
"""
import json, os, subprocess, sys, time, hashlib, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
PY = "/opt/veriftools/pyvenv/bin/python3"

def env():
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf-8", "replace"), (e.stderr or b"").decode("utf-8", "replace")

class Broken(Exception):
    pass

# ---------------------------------------------------------------- B: harness
def build_harness(profiles):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "h")
    out = {}
    for prof in profiles:
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml")]
        if prof == "release":
            cmd.append("--release")
        rc, so, se = run(cmd, 600, env=e)
        if rc != 0:
            raise Broken("harness does not build (%s):\n%s" % (prof, se[-3000:]))
        out[prof] = os.path.join(BUILD, "h", "debug" if prof == "dev" else prof, "harness")
    return out

def shard(exe, prop, seed, tier, i, n, budget, fam=None):
    j = os.path.join(BUILD, "journal", "%s.%s.%d" % (prop, os.path.basename(os.path.dirname(exe)), i))
    os.makedirs(os.path.dirname(j), exist_ok=True)
    cmd = [exe, "--property", prop, "--seed", str(seed), "--tier", tier, "--shard", str(i), "--shards", str(n),
           "--budget", str(budget), "--journal", j]
    rc, so, se = run(cmd, budget * 3 + 90)
    last = so.strip().splitlines()[-1] if so.strip() else ""
    if rc == 0 and last.startswith("{"):
        return json.loads(last)
    if rc == 1 and last.startswith("{"):
        return json.loads(last)
    case = open(j).read().strip() if os.path.exists(j) else "?"
    return {"failed": case, "msg": "killed: time limit" if rc is None else "process ended with status %s: %s" % (rc, se[-400:]), "trace": "", "crash": True}

def confirm(exe, prop, tier, case):
    """Run one case again, alone."""
    rc, so, se = run([exe, "--property", prop, "--tier", tier, "--case", case], 120)
    return rc, so[-6000:], se[-2000:]

def run_harness(prop, tier, seed, budget=None):
    t0 = time.time()
    profiles = ["dev"] if tier == "quick" else ["dev", "release"]
    exes = build_harness(profiles)
    stats = {"cases": 0, "distinct": 0, "nontrivial": 0, "samples": [], "families": {}, "build_s": round(time.time() - t0, 1), "unconfirmed": []}
    fails = []
    budget = budget or (7 if tier == "quick" else 240)
    n = 8 if prop != "P17" else 2
    for prof in profiles:
        with cf.ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda i: shard(exes[prof], prop, seed, tier, i, n, budget), range(n)))
        for r in rs:
            if "failed" in r:
                rc, so, se = confirm(exes[prof], prop, tier, r["failed"]) if ":" in r["failed"] else (1, "", "")
                if rc == 0 and r.get("crash"):
                    # once more: some crashes depend on what ran before
                    stats["unconfirmed"].append(r)
                    continue
                r["replay_output"] = so
                r["profile"] = prof
                r["confirmed"] = rc != 0
                fails.append(r)
                continue
            stats["cases"] += r["cases"]
            stats["distinct"] += r["distinct"]
            stats["nontrivial"] += r["nontrivial"]
            stats["samples"] += r["samples"][:1]
            for f in r["families"]:
                k = f["family"]
                a = stats["families"].setdefault(k, {"cases": 0, "complete": True})
                a["cases"] += f["cases"]
                a["complete"] = a["complete"] and f["complete"]
    # a shard that died twice for the same reason is a crash even if no single case reproduces it alone
    if not fails and stats["unconfirmed"]:
        r0 = stats["unconfirmed"][0]
        again = shard(exes["dev"], prop, seed, tier, 0, n, budget)
        for i in range(n):
            again = shard(exes["dev"], prop, seed, tier, i, n, budget)
            if "failed" in again:
                again["profile"] = "dev"
                again["confirmed"] = True
                fails.append(again)
                break
    return stats, fails

# ---------------------------------------------------------------- B: miri (P17)
def run_miri(tier, seed):
    t0 = time.time()
    seeds = 8 if tier == "quick" else 64
    cases = 12 if tier == "quick" else 40
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "miri")
    e["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-many-seeds=0..%d" % seeds
    rc, so, se = run(["cargo", "+nightly", "miri", "run", "--offline", "--manifest-path", os.path.join(HERE, "miri/Cargo.toml"),
                      "--", str(seed * 1000), str(cases)], 400 if tier == "quick" else 3000, env=e)
    stats = {"schedules": so.count("HELD"), "cases_each": cases, "secs": round(time.time() - t0, 1)}
    if rc == 0 and so.count("HELD") == seeds:
        return stats, None
    txt = so + se
    for mark in ("Undefined Behavior", "memory leaked", "panicked at", "deadlock", "Data race"):
        if mark in txt:
            i = txt.index(mark)
            return stats, {"msg": "under Miri: " + txt[i:i + 300].splitlines()[0], "trace": txt[max(0, i - 1500):i + 4000], "failed": "miri:%d:%d" % (seed * 1000, seed), "confirmed": True, "profile": "miri"}
    stats["undecided"] = "Miri gave no answer (rc=%s): %s" % (rc, se[-500:])
    return stats, None

# ---------------------------------------------------------------- known findings
def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                out.append(dict(x.split("=", 1) for x in l[8:].split(" ; ")[0].split() if "=" in x) | {"text": l})
    return out

def write_replay(prop, what):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(what, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    json.dump(what, open(p, "w"), indent=1)
    return os.path.relpath(p, HERE)

def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    # V runs in its own process (z3, python3-vt) next to B
    vout = os.path.join(BUILD, "v.%s.json" % prop)
    if os.path.exists(vout):
        os.remove(vout)
    vp = None
    if "--no-v" not in a and os.path.exists(os.path.join(HERE, "vlib", "run.py")):
        vp = subprocess.Popen([PY, os.path.join(HERE, "vlib", "run.py"), prop, tier, vout], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(env(), PYTHONHASHSEED="0"))
    miri, mfail = None, None
    try:
        stats, fails = run_harness(prop, tier, seed)
        if prop == "P17" and not fails:
            miri, mfail = run_miri(tier, seed)
            if mfail:
                fails.append(mfail)
    except Broken as b:
        if vp:
            vp.kill()
        print("ERROR: " + str(b))
        sys.exit(2)
    v = {"functions": [], "obligations": 0, "discharged": 0, "failed": [], "undecided": [], "trusted": [], "secs": 0}
    if vp:
        try:
            vo, _ = vp.communicate(timeout=(500 if tier == "quick" else 3000))
        except subprocess.TimeoutExpired:
            vp.kill()
            vo = b"time limit"
        if os.path.exists(vout):
            v = json.load(open(vout))
        else:
            v["undecided"] = [{"name": "verifier", "reason": "no answer: " + vo.decode("utf-8", "replace")[-1500:]}]
    if v["failed"] and not fails and tier == "quick" and "--no-search" not in a:
        # a failed obligation: look longer, and elsewhere, for an input that shows it
        try:
            stats2, fails = run_harness(prop, "thorough", seed + 7919, 45)
            for k in ("cases", "distinct", "nontrivial"):
                stats[k] += stats2[k]
        except Broken:
            pass
    kf = [k for k in known() if k.get("property") == prop]
    violations = []
    for f in fails:
        hit = [k for k in kf if k.get("case") == f["failed"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["text"]))
            continue
        violations.append(f)
    rc = 0
    if violations:
        f = violations[0]
        rp = write_replay(prop, {"property": prop, "case": f["failed"], "message": f["msg"], "steps": f.get("trace", ""), "profile": f.get("profile"),
                                 "replay_output": f.get("replay_output", ""),
                                 "rerun": "build/h/debug/harness --property %s --tier %s --case %s" % (prop, tier, f["failed"]),
                                 "failed_obligations": v["failed"]})
        print("failing input %s: %s" % (f["failed"], f["msg"][:600]))
        for o in v["failed"][:5]:
            print("failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        rc = 1
    elif v["failed"]:
        rp = write_replay(prop, {"property": prop, "failed_obligations": v["failed"], "note": "the bounded search found no failing input",
                                 "bounded": {k: stats[k] for k in ("cases", "distinct")}})
        for o in v["failed"][:8]:
            print("failed obligation: %s" % o["name"])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        rc = 1
    for u in v["undecided"]:
        print("UNDECIDED: %s: %s" % (u["name"], str(u["reason"])[:300]))
    from vlib.levels import LEVEL
    level = LEVEL.get(prop, "other")
    allproved = v["obligations"] > 0 and v["obligations"] == v["discharged"] and not v["undecided"]
    if level == "proof" and not allproved:
        level = "other"
    bounded = {"what": "bounded stand-in and search for failing inputs: never counted as proved",
               "evaluations": stats["cases"], "distinct_nontrivial": stats["nontrivial"], "families": stats["families"], "samples": stats["samples"][:4]}
    if miri:
        bounded["miri"] = miri
    cov = {"obligations": v["obligations"], "discharged": v["discharged"],
           "checker_cmd": "python3-vt vlib/run.py %s %s (z3 %s over MIR of /repo dumped by rustc +nightly)" % (prop, tier, v.get("z3", "?")),
           "trusted_base": v["trusted"] or ["see DESIGN.md"], "functions_under_contract": v["functions"], "solver_s": v.get("solver_s", 0),
           "vacuity_checks": v.get("vacuity", {}), "undecided": v["undecided"], "failed": v["failed"], "outside_reach": v.get("outside", []),
           "bounded": bounded,
           "evaluations": stats["cases"], "distinct_nontrivial": stats["nontrivial"],
           "rule": "deterministic per (family, index, seed): special trees, all small trees up to a size, random trees / histories / byte strings; a case is non-trivial when its description has at least 8 characters and it was not generated before",
           "samples": stats["samples"][:4],
           "explanation": "obligations over the real code's MIR (counts above) plus the bounded search (counts under 'bounded')"}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": v.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations) or len(v["failed"])}
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d/%d obligations discharged, %d undecided, %d failed; bounded: %d cases; %.1fs" % (
        prop, "VIOLATED" if rc else "held", v["discharged"], v["obligations"], len(v["undecided"]), len(v["failed"]), stats["cases"], time.time() - t0))
    sys.exit(rc)

if __name__ == "__main__":
    main()
