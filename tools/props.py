#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="proof", note=None, na=None):
    e = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                     "observe_at": list(observe), "hook_needed": None}}
    P.append((e, level, note, na))


def bounded(id):
    """The bounds of a property's contracts, and whether all of them have one."""
    out, every = [], True
    for f in sorted(glob.glob(os.path.join(ROOT, "contracts", "**", id + ".go"), recursive=True)):
        text = open(f).read()
        for m in re.finditer(r"((?://.*\n)*)func contract_\w+", text):
            b = re.findall(r"//verif:bounded (.*)", m.group(1))
            out += [x for x in b if x not in out]
            every = every and bool(b)
    return out, every and bool(out)


exec(open(os.path.join(ROOT, "tools", "list.py")).read())

NOTE = ("Every obligation generated from /repo's current source by the contracts of this property is discharged by an SMT back end, "
        "for all inputs unless bounded. Trusts go/ssa, the verifier in vgo, the solvers and the library contracts listed in the evidence.")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for e, _, _, _ in P:
        assert len(e["title"]) <= 80, e["id"]
        f.write(json.dumps(e) + "\n")
BOUNDED = {e["id"]: bounded(e["id"]) for e, _, _, _ in P}


def level(id, lv):
    return "other" if BOUNDED[id][1] else lv


def notes(id, note):
    b, every = BOUNDED[id]
    text = ""
    if b:
        text = ("Bounded check, not a proof: " if every else "Bounded, not counted as proved: ") + "; ".join(b) + ". "
    return text + (note + " " if note else "") + NOTE


m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "Contracts are added to the packages through the loader's source overlay; /repo carries no hooks.", "source_commits": []},
     "checks": [{"property": e["id"], "quick_cmd": "bash check.sh " + e["id"], "evidence_file": "evidence/%s.json" % e["id"],
                 "technique": "contract-based deductive verification (SSA verification conditions, SMT)",
                 "level": level(e["id"], lv), "level_note": notes(e["id"], note)} for e, lv, note, na in P if not na],
     "not_applicable": [{"property": e["id"], "reason": na} for e, _, _, na in P if na],
     "notes": "See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
