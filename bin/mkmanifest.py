#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from spec/*.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/spec")
import props
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPS:
        over = p.get("over", ["inputs"])
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=over, text=p["forall"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[
                     dict(name=n, where=w) for n, w in p["mech"]]))
        f.write(json.dumps(d) + "\n")
def engines(pid):
    import re
    use = set()
    for f in os.listdir(V + "/harness"):
        t = open(V + "/harness/" + f).read()
        if f.endswith(".c") and re.search(r"//@ property.*\b" + pid + r"\b", t):
            use.add("sx" if "//@ engine sx" in t else "cbmc")
    names = dict(cbmc="CBMC bounded model checking (SAT)",
                 sx="path-wise symbolic execution of LLVM IR with Z3")
    return [names[u] for u in sorted(use)]
checks = []
for p in props.PROPS:
    if p.get("na"):
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd="python3 bin/vc.py " + p["id"],
        thorough_cmd="VERIF_TIER=thorough python3 bin/vc.py " + p["id"],
        technique="solver-based symbolic execution of the real C: "
                  + " and ".join(engines(p["id"])) + "; counterexamples "
                  "replayed on a native build",
        level="other",
        level_note=p["note"],
        evidence_file="evidence/%s.json" % p["id"],
    ))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks,
         not_applicable=[dict(property=p["id"], reason=p["na"])
                         for p in props.PROPS if p.get("na")] +
         props.EXTRA_NA)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(props.PROPS), "properties,", len(checks), "checks")

# DESIGN.md from DESIGN.in.md
import glob
def harnesses(pid):
    r = []
    for f in sorted(os.listdir(V + "/harness")):
        t = open(V + "/harness/" + f).read()
        if f.endswith(".c") and re.search(r"//@ property.*\b" + pid + r"\b", t):
            r.append((f, t))
    return r
import re
txt = open(V + "/DESIGN.in.md").read()
o = ""
for p in props.PROPS:
    if p.get("na"):
        continue
    o += "### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    o += "Why tests cannot settle it: %s.\n\n" % p["why"]
    for f, t in harnesses(p["id"]):
        eng = "sx" if "//@ engine sx" in t else "cbmc"
        head = " ".join(x[3:] for x in re.match(r"((?:// .*\n)+)", t).group(1).splitlines()) if t.startswith("// ") else ""
        n = len(re.findall(r"^//@ entry", t, re.M))
        nt = len(re.findall(r"^//@ entry.*tier=thorough", t, re.M))
        src = " ".join(re.findall(r"^//@ src (.*)", t, re.M))
        o += "* `harness/%s` (engine %s, %d entries quick, %d more thorough): %s. Sources encoded: %s.\n" % (f, eng, n - nt, nt, head, src)
        for b in re.findall(r"^//@ bounds:? (.*)", t, re.M):
            o += "  Bounds: %s.\n" % b
        for b in re.findall(r"^//@ assume:? (.*)", t, re.M):
            o += "  Assumption: %s.\n" % b
    if p.get("design"):
        o += "\n" + p["design"] + "\n"
    o += "\n"
kf = json.load(open(V + "/known_findings.json"))
fx = "".join("* %s\n" % x for x in kf["fixed"])
sd = ""
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    sd += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/"), props.CAUGHT.get(os.path.basename(os.path.dirname(d)), m["property"]))
na = "".join("* %s %s: %s\n" % (p["id"], p["title"], p["na"]) for p in props.PROPS if p.get("na")) or "None of the listed properties.\n"
na += "\n" + props.SCOPE
open(V + "/DESIGN.md", "w").write(txt.replace("@@PROPS@@\n", o).replace("@@FIXED@@\n", fx).replace("@@SEEDS@@\n", sd).replace("@@NA@@\n", na))
