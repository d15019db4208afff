#!/usr/bin/env python3
"""run.py PROPERTY quick|thorough : build, explore, report, write evidence."""
import atexit, json, os, sys, time, subprocess, shutil, pathlib, tempfile
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import vbuild
from registry import TARGETS, PROPS

VERIF = vbuild.VERIF
STATE = pathlib.Path(os.environ.get("VERIF_STATE", str(VERIF)))  # where evidence/ and replay/ are written


def known_findings():
    out = {}
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = line[len("finding:"):].strip().split(None, 2)
            prop = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1]
            out[(prop, key)] = parts[2] if len(parts) > 2 else ""
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    spec = PROPS[prop]
    targets = spec["targets"]
    budget = 780 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "14000"))
    san = {}
    for t in targets + spec.get("tools", []):
        san.setdefault(TARGETS[t].get("san", ""), []).append(t)
    for s, ts in san.items():
        if not vbuild.build({t: TARGETS[t] for t in ts}, s):
            print(f"ERROR property={prop} the harness does not build against /repo", flush=True)
            return 2
    tb = time.time() - t0
    replay_dir = STATE / "replay" / prop
    if replay_dir.exists():
        shutil.rmtree(replay_dir)
    replay_dir.mkdir(parents=True)
    known = known_findings()
    results, viols, hit = [], [], {}
    scratch = tempfile.mkdtemp(prefix="verif-run-")
    atexit.register(shutil.rmtree, scratch, True)
    for t in targets:
        out = replay_dir / t
        out.mkdir(exist_ok=True)
        left = max(30.0, budget - (time.time() - t0))
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:detect_odr_violation=0",
                   UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1", GLOG_minloglevel="3", LC_ALL="C", TZ="UTC",
                   VERIF_REPO=str(vbuild.REPO), VERIF_DIR=str(VERIF), VERIF_SCRATCH=scratch)
        r = subprocess.run([str(vbuild.OUT / "bin" / t), "--property", prop, "--tier", tier, "--out", str(out),
                            "--workers", vbuild.JOBS, "--deadline", str(left)], env=env, cwd=str(out))
        rj = out / "result.json"
        if r.returncode != 0 or not rj.exists():
            print(f"ERROR property={prop} harness {t} ended with status {r.returncode}", flush=True)
            return 2
        res = json.loads(rj.read_text(errors="replace"))
        res["target"] = t
        results.append(res)
        for v in res["violations"]:
            if (prop, v["key"]) in known:
                hit[v["key"]] = known[(prop, v["key"])]
            else:
                viols.append(v)
    tot = lambda k: sum(r[k] for r in results)
    scen = [dict(s, harness=r["target"]) for r in results for s in r["scenarios"]]
    complete = all(r["complete"] for r in results)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "model_checking",
        "coverage": {
            "states": tot("states") + tot("distinct_outcomes"), "transitions": tot("transitions"),
            "traces_validated_against_impl": tot("executions"),
            "states_are": "distinct canonical states (stateful scenarios) plus distinct final outcomes (stateless scenarios)",
            "pruned_revisits": tot("pruned"),
            "nontrivial_executions": tot("nontrivial"),
            "rule": spec.get("rule", "every choice sequence of every scenario, depth first; each execution runs the code of /repo and is compared with the reference model"),
            "exhaustive": complete,
            "scenarios": [{k: s[k] for k in ("harness", "name", "executions", "transitions", "new_states", "new_outcomes", "complete", "wall_s")} for s in scen],
            "samples": [s["sample"] for s in scen if s["sample"]][:12] or ["see scenarios"],
            "build_s": round(tb, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viols),
    }
    (STATE / "evidence").mkdir(exist_ok=True)
    (STATE / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
    print(f"{prop} {tier}: executions={tot('executions')} states={tot('states')} transitions={tot('transitions')} outcomes={tot('distinct_outcomes')} "
          f"{'complete' if complete else 'CAPPED'} build={tb:.0f}s total={time.time()-t0:.0f}s", flush=True)
    for k, d in sorted(hit.items()):
        print(f"KNOWN-FINDING: property={prop} {k}: {d}", flush=True)
    for v in viols:
        print(f"  {v['kind']} {v['key']}: {v['msg'][:1500]}")
        print(f"VIOLATION property={prop} replay={v['replay']}", flush=True)
    return 1 if viols else 0


sys.exit(main())
