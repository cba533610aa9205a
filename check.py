#!/usr/bin/env python3
"""Runs the model checking scenarios of one property.

    check.py <property> [--tier quick|thorough] [--only scenario] [--all]

Exit 0: the property held on everything explored (known findings are listed);
exit 1: VIOLATION line; exit 2: the check itself failed.
"""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "xmc"))
import build as B  # noqa: E402


def known_findings():
    """known: property=<id> scenario=<name> signature=<text> :: <what fails>"""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            body, _, what = line[len("known:"):].partition(" :: ")
            prop = body.split("property=")[1].split()[0]
            sc = body.split("scenario=")[1].split()[0]
            sig = body.split("signature=", 1)[1].strip()
            res.append((prop, sc, sig, what.strip()))
    return res


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only, extra, bound, capopt = None, [], None, None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--all":
            extra.append("--all")
        elif a == "--bound":
            bound = args.pop(0)
        elif a == "--cap":
            capopt = float(args.pop(0))
        else:
            sys.exit("unknown option " + a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    try:
        unit = prop
        qt5 = os.path.exists(os.path.join(VERIF, "harness", prop + ".qt5"))
        exe = B.build(unit, qt5)
    except B.BuildError as e:
        print("build failed: %s" % e)
        return 2
    conf = None
    if qt5:
        r = subprocess.run(["sh", os.path.join(VERIF, "tools", "qt_conformance.sh")], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        conf = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "conformance: failed"
        print(conf)
        if r.returncode not in (0, 3):
            print("ERROR the model of QtCore does not behave like QtCore:\n" + r.stdout)
            return 2
    tbuild = time.time() - t0
    scen = [json.loads(x) for x in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
    scen = [s for s in scen if s["property"] == prop and (not only or s["name"] == only)]
    # a negative bound: thorough tier only
    scen = [s for s in scen if tier == "thorough" or only or s["bound"] >= 0]
    scen.reverse()
    replay_dir = os.path.join(B.BUILD, "replay", prop)
    os.makedirs(replay_dir, exist_ok=True)
    for f in os.listdir(replay_dir):
        os.unlink(os.path.join(replay_dir, f))
    kf = known_findings()
    results, violations, errors, known_hit = [], [], [], []
    budget = 600.0 if tier == "quick" else 3 * 3600.0
    print("%s: %d scenarios, tier %s (build %.1fs)" % (prop, len(scen), tier, tbuild), flush=True)
    for i, s in enumerate(scen):
        left = budget - (time.time() - t0)
        default_cap = 90 if tier == "quick" else 1500
        cap = s["cap"] if s["cap"] and tier == "quick" else default_cap
        if capopt:
            cap = capopt
        cap = max(5.0, min(cap, left / max(1, len(scen) - i) * 3, left))
        kfile = os.path.join(replay_dir, "known-" + s["name"])
        with open(kfile, "w") as f:
            for (p, sc, sig, _) in kf:
                if p == prop and sc in (s["name"], "*"):
                    f.write(sig + "\n")
        out = os.path.join(replay_dir, s["name"] + ".json")
        cmd = [exe, "run", s["name"], "--tier", tier, "--cap", "%.1f" % cap, "--known", kfile, "--out", out,
               "--replay-dir", replay_dir, "--jobs", str(min(8, os.cpu_count() or 8))] + extra
        if bound:
            cmd += ["--bound", bound]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout, end="", flush=True)
        if not os.path.exists(out):
            errors.append("%s: no result (exit %d)" % (s["name"], r.returncode))
            continue
        res = json.load(open(out))
        res["about"] = s["about"]
        results.append(res)
        if r.returncode == 2 or res["error"]:
            errors.append("%s: %s" % (s["name"], res["error"]))
        for v in res["violations"]:
            if v["known"]:
                known_hit.append((s["name"], v["sig"]))
            else:
                violations.append((s["name"], v, os.path.join(replay_dir, v["replay"])))
        if violations and not extra:
            break
    wall = time.time() - t0
    complete = bool(results) and all(r["completed_bound"] == r["bound"] for r in results) and len(results) == len(scen)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["states"] for r in results),
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "executions": sum(r["executions"] for r in results),
            "replayed_operations": sum(r["steps"] for r in results),
            "exhaustive": complete,
            "explanation": "Every execution runs the real code under the controlled scheduler; all schedules, timer/timeout orders and "
                           "injected faults with at most 'completed_bound' deviations were enumerated per scenario (state caching on the "
                           "happens-before hash). traces_validated counts executions whose prefix was re-executed and matched the "
                           "recorded state signatures.",
            "scenarios": [{k: r[k] for k in ("scenario", "about", "bound", "completed_bound", "stop", "executions", "states", "transitions",
                                             "outcomes", "max_steps", "threads", "max_virtual_ms", "by_cost", "wall_s")} for r in results],
            "samples": [{"scenario": r["scenario"], "executions": r["sample"]} for r in results],
        },
        "assumptions": [
            "sequentially consistent memory (weaker orders only through the happens-before race detector where enabled)",
            "the bounds listed per scenario: number of deviations from the default schedule, threads and operations of the scenario",
            "moodycamel::ConcurrentQueue calls are atomic except in the scenarios of C26",
        ],
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if conf:
        ev["coverage"]["qt_model"] = conf + " identical for the model of QtCore (qtstub/) and the installed Qt"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    if not only:
        for (p, sc, sig, what) in kf:
            if p == prop and any(sc in (h[0], "*") and sig == h[1] for h in known_hit):
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for (sc, v, path) in violations:
        print("scenario %s: %s" % (sc, v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR " + e)
        return 2
    if not scen:
        print("ERROR no scenarios")
        return 2
    print("%s: held on everything explored (%.1fs)%s" % (prop, wall, "" if complete else " - some bounds were not completed in time"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
