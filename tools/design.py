#!/usr/bin/env python3
"""Writes DESIGN.md from design.head.md, the property list, the contracts and the last evidence."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="proof", note=None, na=None):
    P.append((id, title, text, why, mech, observe, note, na))


exec(open(os.path.join(ROOT, "tools", "list.py")).read())


def comment(lines):
    return " ".join(l[3:].strip() for l in lines if l.startswith("// "))


def section(id, title, text, why, mech, observe, note, na):
    out = ["### %s: %s" % (id, title), ""]
    if na:
        return out + ["Not applicable: " + na, ""]
    files = sorted(glob.glob(os.path.join(ROOT, "contracts", "**", id + ".go"), recursive=True))
    out += ["Code: " + "; ".join("%s (`%s`)" % m for m in mech) + ".", ""]
    sums, bounds, syncgo = [], [], False
    for f in files:
        src = open(f).read()
        head = re.search(r"^// %s: ((?:.*\n)(?://.*\n)*)" % id, src, re.M)
        if head:
            out += [" ".join(l.strip("/ ").strip() for l in head.group(1).splitlines()).strip().capitalize() if False else
                    " ".join(re.sub(r"^// ?", "", l).strip() for l in head.group(1).splitlines()).strip(), ""]
        for m in re.finditer(r"((?://.*\n)*)func contract_(\w+)", src):
            doc = comment(m.group(1).splitlines())
            names = []
            body = src[m.end():]
            end = body.find("\n}\n")
            for n in re.findall(r'vpEnsures\("([^"]+)"', body[:end]):
                if n not in names:
                    names.append(n)
            line = "- `%s`" % m.group(2)
            if doc:
                line += ": " + doc
            if names:
                line += (" " if doc else ": ") + "Ensures: " + ", ".join(names[:12]) + (", ..." if len(names) > 12 else "") + "."
            out.append(line)
            sums += [u for u in re.findall(r"//verif:use (\S+)=", m.group(1)) if u not in sums]
            bounds += [b for b in re.findall(r"//verif:bounded (.*)", m.group(1)) if b not in bounds]
        sums += [u for u in re.findall(r"//verif:for (\S+)", src) if u not in sums]
    out.append("")
    out.append("Quantified over: %s." % text)
    if sums:
        out.append("Callees replaced by their summaries: " + ", ".join("`%s`" % s.replace("github.com/sttp/goapi/sttp/", "") for s in sums) + ".")
    if bounds:
        out.append("Bounded, not counted as proved: " + "; ".join(bounds) + ".")
    if note:
        out.append(note)
    out.append("Out of reach of tests because: " + why)
    ev = os.path.join(ROOT, "evidence", id + ".json")
    if os.path.exists(ev):
        c = json.load(open(ev))["coverage"]
        out.append("Cost: %d obligations (%d by simplification), %d solver queries, about %d s of solver time, %d functions of /repo under contract." % (
            c["obligations"], c["discharged_by_simplifier"], c["solver_queries"], max(1, round(c["solver_seconds"])), len(c["functions_under_contract"])))
    return out + [""]


props = "\n".join("\n".join(section(*p)) for p in P)
caught = {}
f = os.path.join(ROOT, "tools", "caught.txt")
if os.path.exists(f):
    for l in open(f):
        k, _, v = l.rstrip("\n").partition(" ")
        caught[k] = v
seeds = ["| bug | property | what it breaks | caught |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "\\|"), caught.get(n, "?").replace("|", "\\|")))
text = open(os.path.join(ROOT, "tools", "design.head.md")).read()
r = os.path.join(ROOT, "tools", "refactor.md")
text = text.replace("@@PROPERTIES@@\n", props).replace("@@SEEDS@@", "\n".join(seeds)).replace("@@REFACTOR@@\n", open(r).read() if os.path.exists(r) else "")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text)
