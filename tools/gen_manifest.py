#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a harness is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Stateless model checking of the real, unmodified sources: every schedule, timeout order and injected fault of the listed "
        "scenarios with at most the stated number of deviations is executed. Assumes sequential consistency (data races are reported "
        "where the race detector is on), the bounds of the scenarios, and the controlled runtime's model of pthread, select and time.")
SPECIAL = {
    "C26": NOTE + " Unlike elsewhere the internals of the lock-free queue are scheduling points here.",
    "C28": NOTE + " QtCore is replaced by a model of the classes the adaptors use (qtstub/); a conformance program observes "
                  "the same behaviour on the model and on the installed QtCore.",
    "C27": NOTE + " QtCore is replaced by the conformance-tested model in qtstub/. Mostly an enumeration of all combinations of backends.",
}
REASON = {}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "harness", i + ".cpp")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "stateless model checking of the implementation: exhaustive deviation-bounded enumeration of thread schedules, "
                         "timing and fault choices under a controlled scheduler, with happens-before state caching",
            "level": "model_checking",
            "level_note": SPECIAL.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": REASON.get(i, "no check has been built yet")})
json.dump({"version": 1, "setup_cmd": "sh tools/selftest.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks compile /repo's sources with -fsanitize=thread instrumentation against their own runtime (xmc/). "
                    "See DESIGN.md; genuine defects are listed in known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
