#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
import props
H = os.path.dirname(os.path.abspath(__file__))
NA = {x["id"]: x for x in props.NOT_APPLICABLE}
with open(H + "/properties.jsonl", "w") as f:
    allp = dict(props.PROPS)
    allp.update(NA)
    for i in sorted(allp):
        p = allp[i]
        f.write(json.dumps({"id": i, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["anchors"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                                                   "observe_at": p["obs"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, i
checks = []
for i in sorted(props.PROPS):
    p = props.PROPS[i]
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": "symbolic execution of the real Python functions with CrossHair/z3 (bounded, all inputs within the bounds)" if p["py"] else "symbolic execution of the real code's LLVM IR with z3 (bounded, all inputs within the bounds)",
                   "level": p["level"],
                   "level_note": (p["claim"] + ". Bounds: " + "; ".join(p["bounds"]) + ". Counterexamples are replayed " + ("on the plain interpreter" if p["py"] else "natively under ASan/UBSan") + " before they are reported. " + p["note"]).strip()})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks,
           "not_applicable": [{"property": i, "reason": NA[i]["reason"]} for i in sorted(NA)],
           "notes": "Generated by gen.py from props.py. No hooks in /repo: harnesses under /verif/harness call the public API."}, open(H + "/MANIFEST.json", "w"), indent=1)
