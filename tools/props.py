"""The property list: generates properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the compiler's MIR (term-valued dataflow over all inputs)"
TRUST = ("Decided from the MIR that rustc produces from /repo's working tree. Trusts rustc's lowering, the extraction driver, the term algebra and the "
         "models of standard library functions; a violation is reported with a determined input for which the rule fails, or a construct that may "
         "abort. Constructs outside the analysed fragment are listed in the evidence as undecided.")
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=AI, note="", observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append((d, technique, (note + " " if note else "") + TRUST))


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech)
    d = P.pop()[0]
    NA.append((d, reason))


exec(open(os.path.join(ROOT, "tools", "proplist.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d in sorted([x[0] for x in P] + [x[0] for x in NA], key=lambda d: d["id"]):
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for d, tech, note in sorted(P, key=lambda x: x[0]["id"]):
        i = d["id"]
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --thorough",
                       "technique": tech, "level": "other", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
         "not_applicable": [{"property": d["id"], "reason": r} for d, r in NA],
         "notes": "One analysis engine (kv/), one extraction driver (driver/main.rs), one module per area (checks/). See DESIGN.md."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)


main()
