#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from the fix commits of /repo and this table of properties."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
PROP = """
miss the last thread's completion signal|K06
threads outlive the objects|K20
tasks of a pruned k-means thread leak|K20
can start a round before wake|K06
pruned k-means used the wrong centre movement|K02
prunes with Euclidean bounds whatever the metric|K02
aborts for a single cluster|K02
whole pairwise distance matrix|K16
OpenMP k-means runs one iteration too few|K03
reports one iteration more than it ran|K01
exceeds the requested number of clusters|K14
null partition for clusters of one row|K14
aborts on an empty child cluster|K14
x-means partition means|K14
never stops at convergence|K14
off by one in thd_safe_bool_vector|K16
g-means aborts on constant projections|K14
x-means split decisions race|K06
fuzzy c-means ignores NUMA|K05
no membership in the center it equals|K11
argmax ignores values|K19
zero as the maximum of a negative feature|K12
divides by zero for a constant feature|K12
cosine distance of a zero vector|K19
k-medoids uses the Euclidean distance|K13
k-means++ does not choose centers in proportion|K09
parallel vectors can be negative|K19
threads leak NUMA blocks|K20
distributed process without rows|K04
task queue without rows|K08
reinit() leaves no cluster assignments|K09
mini-batch k-means reports one iteration too few|K10
clusters lose their finalised state|K15
vmap reads past its end|K16
two zero vectors is not zero|K19
ignores a batch size below|K10
pairwise squared Euclidean|K16
erasing a key beyond the end|K16
matrix readers write past|K17
short data files go unnoticed|K17
not written to the output directory|K17
"""
tab = [l.split("|") for l in PROP.strip().splitlines() + (open(V + "/fixed_extra.txt").read().strip().splitlines() if os.path.exists(V + "/fixed_extra.txt") else [])]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
out = []
for l in log:
    c, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    m = [p for t, p in tab if t in s]
    if len(m) != 1: sys.exit("no property for: " + l)
    out.append(f"fixed: property={m[0]} {c} {s[5:]}")
fn = V + "/known_findings.txt"
keep = [l for l in (open(fn).read().splitlines() if os.path.exists(fn) else []) if not l.startswith("fixed:")]
open(fn, "w").write("\n".join(keep + out) + "\n")
