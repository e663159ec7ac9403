#!/usr/bin/env python3
"""Regenerates properties.jsonl, MANIFEST.json and DESIGN.md from the META tables of checks/*.py and tools/*.md."""
import glob, importlib, json, os, re, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.na import NA

props, checks, na = [], [], []
design = []
mods = {}
for f in sorted(glob.glob(V + "/checks/c[0-9][0-9].py")):
    pid = os.path.basename(f)[:-3].upper()
    m = importlib.import_module("checks." + pid.lower())
    if hasattr(m, "META"):
        mods[pid] = m.META
for pid in sorted(set(mods) | set(NA)):
    m = mods.get(pid) or NA[pid]
    props.append(dict(id=pid, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"],
                      anchors=dict(files=m["files"], mechanism=[dict(name=n, where=w) for n, w in m["mechanism"]], hook_needed=None)))
    assert len(m["title"]) <= 80, pid
    if pid in mods:
        checks.append(dict(property=pid, quick_cmd="python3 run.py %s" % pid, thorough_cmd="python3 run.py %s --thorough" % pid, evidence_file="evidence/%s.json" % pid,
                           technique=m["technique"], level="other", level_note=m["note"]))
        design.append("### %s — %s\n\n%s\n\n*Decided by:* %s\n\n*Assurance and limits:* %s\n" % (pid, m["title"], m["statement"], m["how"], m["note"]))
    else:
        na.append(dict(property=pid, reason=m["reason"]))
        design.append("### %s — %s (not applicable)\n\n%s\n\n*Why not:* %s\n" % (pid, m["title"], m["statement"], m["reason"]))
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
                   notes="Static analysis only: see DESIGN.md. No hooks in /repo."), f, indent=1, ensure_ascii=False)
    f.write("\n")
head = open(V + "/tools/design_head.md").read()
tail = open(V + "/tools/design_tail.md").read()
seeds = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(f))
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), j["property"], j["what_it_breaks"].replace("|", "\\|")))
tail = tail.replace("@SEEDS@", "| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(seeds))
with open(V + "/DESIGN.md", "w") as f:
    f.write(head + "\n## Properties\n\n" + "\n".join(design) + "\n" + tail)
print(len(checks), "checks,", len(na), "not applicable")
