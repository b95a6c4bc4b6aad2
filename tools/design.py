#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, props.py, the rules in mc/props, known_findings.json and notes.json."""
import glob, json, os, re, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
import props
rules, assume, files = {}, {}, {}
for f in sorted(glob.glob(os.path.join(root, "mc/props/*.go"))):
    s = open(f).read()
    for m in re.finditer(r'eng\.Register\(&eng\.Prop\{(.*?)\}\)\n', s, re.S):
        t = m.group(1)
        i = re.search(r'ID:\s*"(C\d\d)"', t).group(1)
        r = re.search(r'Rule:\s*"((?:[^"\\]|\\.)*)"', t)
        rules[i] = json.loads('"' + r.group(1) + '"') if r else ""
        a = re.search(r'Assume:\s*\[\]string\{(.*?)\}', t + "}", re.S)
        assume[i] = [json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', a.group(1))] if a else []
        files[i] = os.path.basename(f)
kf = json.load(open(os.path.join(root, "known_findings.json")))
out = [open(os.path.join(here, "design_head.md")).read().rstrip() + "\n"]
out.append("## Planted bugs\n\nKept in `seeded/`. Each was written from the text of its property; `vcheck` confirms that the demonstration "
           "and the check of the property fail with it and pass without it. (Bugs planted by others and those of the sweep are not kept.)\n\n"
           "| bug | property | needs | what it breaks | caught by |\n|---|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    cell = lambda t: t.replace("|", "/").replace("\n", " ")
    out[-1] += "\n| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], cell(m["needs"]), cell(m["what_it_breaks"]), m["property"])
out[-1] += "\n"
out.append("## Properties\n")
for p in props.PROPS:
    i = p["id"]
    tech, note = props.CLAIMED[i]
    note = note.replace(props.STD, "")
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Specified:* %s\n" % p["statement"])
    out.append("*Decided by* %s (`mc/props/%s`): %s.\n" % (tech, files[i], rules[i].rstrip(".")))
    out.append("*Bounds:* %s%s\n" % (note, "".join(" %s." % (a[0].upper() + a[1:]).rstrip(".") for a in assume[i])))
    out.append("*Beyond the tests:* %s; here: %s.\n" % (p["why"], p["q"]))
    fx = [k for k in kf if k["property"] == i and k.get("fixed")]
    if fx:
        out.append("*Repaired:*\n" + "".join("- %s (%s)\n" % (k["what"], k["fixed"].split()[2]) for k in fx))
    for k in kf:
        if k["property"] == i and not k.get("fixed"):
            out.append("*Known finding:* %s.\n" % k["what"])
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(out))
