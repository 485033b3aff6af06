#!/usr/bin/env python3
"""Build the simulator for one property from /repo's working tree, run it, write evidence/<id>.json.
usage: check.py P02 [quick|thorough]     environment: VERIF_SEED, VERIF_TIER"""
import json, os, subprocess, sys, time, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from config import PROPS, VARIANTS, ASSUMPTIONS
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def build(variant, prop):
    v = VARIANTS[variant]; b = os.path.join(VERIF, "build", variant)
    os.makedirs(b, exist_ok=True)
    with open(os.path.join(b, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ); env.update(v.get("env", {}))
        r = sh(["cmake", "-S", os.path.join(VERIF, "sim"), "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DSIM_VARIANT=" + variant, "-DREPO=" + REPO] + v["cmake"], env=env)
        if r.returncode: print(r.stdout); sys.exit("cmake failed")
        r = sh(["ninja", "-C", b, "sim_" + prop], env=env)
        if r.returncode: print(r.stdout[-6000:]); print("error: build failed"); sys.exit(2)
    return os.path.join(b, "sim_" + prop)
def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1); t0 = time.time()
    cfg = PROPS[prop]; outs = []; viol = None; code = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True); os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for variant, caps in cfg["variants"].items():
        exe = build(variant, prop); tb = time.time() - t0
        out = os.path.join(VERIF, "build", "%s-%s.json" % (prop, variant))
        if os.path.exists(out): os.remove(out)
        cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--tier", tier, "--time", str(caps[tier == "thorough"]), "--jobs", str(cfg.get("jobs", 8)), "--scale", "1" if tier == "thorough" else "4",
               "--known", os.path.join(VERIF, "known_findings.txt"), "--replays", os.path.join(VERIF, "replays"), "--out", out]
        env = dict(os.environ); env.update(VARIANTS[variant].get("run_env", {}))
        p = subprocess.run(cmd, env=env)
        d = json.load(open(out)) if os.path.exists(out) else {}
        d["_variant"] = variant; outs.append(d)
        if p.returncode: code = 1 if p.returncode == 1 else 2; viol = d.get("violation"); break
    ok = [d for d in outs if "runs" in d and "stats" in d]; wall = time.time() - t0; runs = sum(d["runs"] for d in outs if "runs" in d)
    simwall = sum(d.get("wall", 0) for d in outs)
    stats = {}
    for d in ok:
        for k, n in d["stats"].items(): stats[k] = stats.get(k, 0) + n
    scen = [s for d in ok for s in d.get("scenarios", [])]
    uniq = lambda l: list(dict.fromkeys(l))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 1), "violations": 1 if code == 1 else 0,
      "assumptions": ASSUMPTIONS + cfg.get("assumptions", []),
      "coverage": {
        "evaluations": runs, "distinct_nontrivial": sum(d.get("distinct_nontrivial", 0) for d in ok),
        "rule": "; ".join(uniq("%s: %s" % (s["name"], s["rule"]) for s in scen)) + ". A run is non-trivial when it reached the behaviour the scenario is about (by the scenario's own test); distinct means a distinct log of everything the simulated system did.",
        "samples": [x for d in ok for x in d.get("samples", [])][:4] or ["-"],
        "runs_per_hour": int(runs / simwall * 3600) if simwall else 0, "seeds_per_hour": int(runs / simwall * 3600) if simwall else 0,
        "simulated_time": {"value": sum(d.get("simtime", 0) for d in ok), "unit": cfg.get("simtime", "guest instructions")},
        "events": sum(d.get("events", 0) for d in ok), "distinct_states": sum(d.get("distinct_states", 0) for d in ok), "state_measure": "; ".join(uniq(s["measure"] for s in scen)),
        "faults_and_events_injected": stats, "determinism_rechecks": sum(d.get("rechecks", 0) for d in ok),
        "components_real": uniq(x for s in scen for x in s["real"]), "components_stubbed": uniq(x for s in scen for x in s["stub"]),
        "variants": [{"variant": d["_variant"], "runs": d.get("runs"), "planned": d.get("planned"), "stopped_at_time_cap": d.get("truncated"), "wall_s": d.get("wall")} for d in outs],
        "known_findings_hit": {k: n for d in ok for k, n in d.get("known", {}).items()}}}
    if viol: ev["coverage"]["violation"] = viol
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    sys.exit(code)
main()
