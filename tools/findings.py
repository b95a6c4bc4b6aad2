#!/usr/bin/env python3
"""Writes /verif/known_findings.json. Run by hand when a defect is repaired or recorded; no check runs it."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (properties, start of the fix commit's subject after "fix: ", what failed)
FIXED = [
 ("C01", "refuse to add attributes to a group once", "adding an attribute to a named group of an allocated grid shifted the stored cells of that group"),
 ("C02 C03", "row-mapped views iterate", "MapOverRows of a row-mapped view iterated over the source's rows, not the mapped ones"),
 ("C02", "match view class attributes by equality", "a view lost its class attribute when an equal attribute object was given"),
 ("C03", "Mat64Instances.MapOverRows stops", "iteration over a matrix-backed grid went on after the callback reported an error"),
 ("C04", "pass unfiltered attributes through", "row iteration of a filtered grid filtered (and crashed on) unfiltered attributes"),
 ("C04", "match filtered attributes by equality", "a filtered grid resolved attributes by pointer and returned the wrong source cell"),
 ("C04", "LazilyFilteredInstances.Size counts", "Size reported the source's column count"),
 ("C04", "removing a filtered class attribute", "removing a class attribute left the attributes made from it as class"),
 ("C04", "match class attributes of filtered grids", "a filtered grid lost its class attribute when an equal attribute object was used"),
 ("C09", "class distributions count every row", "GetClassDistributionAfterSplit counted only the first row"),
 ("C08", "LazyShuffle produces", "LazyShuffle duplicated and dropped rows"),
 ("C08", "SampleWithReplacement returns", "SampleWithReplacement showed unsampled rows"),
 ("C06", "CheckStrictlyCompatible compares", "CheckStrictlyCompatible crashed or accepted groups of different length"),
 ("C06", "InstancesAreEqual compares", "InstancesAreEqual compared the grid with itself"),
 ("C07", "sort numbers numerically", "sorting used the raw bytes of numbers: wrong order for negative values"),
 ("C36", "bagged predictions no longer break", "ties between classes were broken by map iteration order"),
 ("C30 C38", "tree predictions for unseen values", "predicting a value without a branch took a child by map iteration order"),
 ("C38", "ID3DecisionTree.Save finishes", "Save left the file unfinished"),
]
KNOWN = []
exec(open(os.path.join(root, "tools", "findings_more.py")).read()) if os.path.exists(os.path.join(root, "tools", "findings_more.py")) else None
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
out = list(KNOWN)
for ps, subj, what in FIXED:
    h = [a for a, s in log if s.startswith("fix: " + subj)]
    assert len(h) == 1, (subj, h)
    for p in ps.split():
        out.append({"property": p, "what": what, "inputs": [], "fixed": "fixed: property=%s %s %s" % (p, h[0], what)})
n = sum(1 for a, s in log if s.startswith("fix:"))
assert n == len(FIXED), (n, len(FIXED))
json.dump(out, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
open(os.path.join(root, "known_findings.json"), "a").write("\n")
print(len(FIXED), "fixed,", len(KNOWN), "known")
