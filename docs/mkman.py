#!/usr/bin/env python3
import json, os, re, glob, sys
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(D)
sys.path.insert(0, D)
sys.dont_write_bytecode = True
from props import PROPS
TRUST = ("Bounded: the solver's verdict covers every value of the symbolic inputs within the bounds in DESIGN.md; nothing is claimed beyond them. "
         "Trusts clang's IR generation, the executor and its libc/libstdc++ models (spot-checked by replaying traces natively) and z3.")
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        for x in p["files"]: assert os.path.exists("/repo/" + x), x
checks, na = [], []
sect = []
for p in PROPS:
    hs = sorted(glob.glob(V + "/harness/" + p["id"] + "_*.cpp"))
    sect.append("### %s — %s\n" % (p["id"], p["title"]))
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        sect.append("Not applicable: " + p["na"] + "\n")
        continue
    assert hs, p["id"]
    b, a, o, cfg, src = [], [], [], set(), []
    n = 0
    for h in hs:
        t = open(h).read()
        b += re.findall(r"^//@ bound (.*)", t, re.M); a += re.findall(r"^//@ assume (.*)", t, re.M); o += re.findall(r"^//@ outside (.*)", t, re.M)
        for c in re.findall(r"^//@ config (\S+)", t, re.M): cfg |= set(c.split(","))
        n += len(set(re.findall(r"^HARNESS\((\w+)\)", t, re.M)) | set(re.findall(r"^//@ entry (\w+)", t, re.M)))
    checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="python3 check.py " + p["id"] + " --tier thorough",
        technique="symbolic execution of the compiled LLVM IR, decided by z3, replayed natively", level="model_checking",
        level_note=TRUST + (" " + p["note"] if p["note"] else "")))
    sect.append("Harness: `%s` (builds: %s). %s" % ("`, `".join(os.path.relpath(h, V) for h in hs), ", ".join(sorted(cfg)) or "rel", p["note"]))
    sect.append("- Quantifier: " + p["text"] + ".")
    sect.append("- Why tests cannot: " + p["why"])
    for k, l in (("Bounds", b), ("Assumes", a), ("Outside", o)):
        for x in l: sect.append("- %s: %s." % (k, x.rstrip(".")))
    sect.append("")
m = dict(version=1, setup_cmd="bash engine/build.sh", checks=checks, not_applicable=na,
         notes="All checks: python3 check.py ID. No hooks are needed in /repo: environment calls are replaced inside the harnesses.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
body = open(D + "/DESIGN.head.md").read()
tail = open(D + "/DESIGN.tail.md").read() if os.path.exists(D + "/DESIGN.tail.md") else ""
open(V + "/DESIGN.md", "w").write(body + "\n## Per property\n\n" + "\n".join(sect) + "\n" + tail)
import subprocess
subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", """
import json, jsonschema
jsonschema.validate(json.load(open('%s/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('%s/properties.jsonl'): jsonschema.validate(json.loads(l), s)
""" % (V, V)], check=True)
print(len(checks), "checks", len(na), "not applicable")
