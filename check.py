#!/usr/bin/env python3
"""usage: check.py ID [--tier quick|thorough]

Builds what the check needs from /repo's working tree, runs the generated-input search, writes
evidence/<ID>.json and ends with 0 (held on everything explored), 1 (VIOLATION line printed) or 2 (error)."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    conf = json.load(open(os.path.join(VERIF, "checks.json")))
    c = conf["checks"][pid]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    t0 = time.time()
    results, rc, lines = [], 0, []
    env = dict(os.environ, MX_VERIF=VERIF, VERIF_SEED=str(seed), VERIF_TIER=tier)
    runs = c["runs"] + (c.get("thorough_runs", []) if tier == "thorough" else [])
    done = {}
    for r in runs:
        done.setdefault(r["variant"], [])
        if r["harness"] not in done[r["variant"]]:
            done[r["variant"]].append(r["harness"])
    for v, hs in done.items():
        if build.build(v, hs) != 0:
            print("ERROR: %s: the tree or the harness did not compile (variant %s)" % (pid, v))
            return 2
    tb = time.time() - t0
    budget = 700 - tb if tier == "quick" else 0
    for k, r in enumerate(runs):
        out = os.path.join(VERIF, "out", "%s-%d-result.json" % (pid, k))
        if os.path.exists(out):
            os.unlink(out)
        cmd = [os.path.join(build.OUT, r["variant"], r["harness"]), pid, "--tier", tier, "--seed", str(seed), "--out", out]
        if "sub" in r:
            cmd += ["--sub", r["sub"]]
        if budget:
            # a safety net far above the normal running time: every tier has a fixed number of cases
            cmd += ["--seconds", str(int(max(20, budget)))]
        p = subprocess.run(cmd, env=env, cwd=VERIF, stdout=subprocess.PIPE, text=True, errors="replace")
        sys.stdout.write(p.stdout)
        sys.stdout.flush()
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print("ERROR: %s: %s ended with %s" % (pid, r["harness"], p.returncode))
            return 2
        rc = max(rc, p.returncode)
        results.append((r, json.load(open(out))))
    subs = []
    for r, j in results:
        for s in j["subs"]:
            s["variant"] = r["variant"]
            subs.append(s)
    cov = {
        "evaluations": sum(j["evaluations"] for _, j in results),
        "distinct_nontrivial": sum(j["distinct_nontrivial"] for _, j in results),
        "rule": " | ".join("%s: %s" % (s["name"], s["rule"]) for s in subs),
        "samples": [x for s in subs for x in s["samples"][:2]][:12],
        "parts": [{k: s[k] for k in ("name", "variant", "planned", "cases", "evaluations", "distinct_nontrivial", "wall_s", "cut_short", "tags", "known_seen")} for s in subs],
        "build_s": round(tb, 1),
    }
    if all(s.get("exhaustive") for s in subs) and subs:
        cov["exhaustive"] = True
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": c.get("assumptions", []) + conf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": sum(j["violations"] for _, j in results),
    }
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    print("%s: %s, %d evaluations, %d distinct non-trivial, %.0f s (build %.0f s)" %
          (pid, "violated" if rc else "held", cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb))
    return rc


if __name__ == "__main__":
    sys.exit(main())
