#!/usr/bin/env python3
"""Development helper: which repository sources a harness needs to link. usage: closure.py harness.cpp [repo sources...]"""
import os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault("VERIF_OBJ_CACHE", "/tmp/vcache")
import run
from concurrent.futures import ThreadPoolExecutor
w = tempfile.mkdtemp()
b = run.Builder(w, run.SAN)
files = [os.path.join(run.REPO, s) for s in run.all_sources()] + [os.path.join(run.VERIF, s) for s in run.SHIM]
with ThreadPoolExecutor(8) as ex:
    objs = dict(zip(files, ex.map(b.obj, files)))
def syms(o):
    d, u = set(), set()
    for l in subprocess.run(["nm", "-P", o], capture_output=True, text=True).stdout.splitlines():
        p = l.split()
        if p[1] == "U": u.add(p[0])
        elif p[1] in "TDBRVW": d.add((p[0], p[1]))
    return d, u
tab = {f: syms(o) for f, o in objs.items()}
owner = {}
for f, (d, u) in tab.items():
    for n, k in d:
        if k in "TDBR" or n not in owner:
            owner[n] = f
own = [os.path.join(run.VERIF, "harness", a) for a in sys.argv[1:] if not a.startswith("src/")]
need = set(os.path.join(run.REPO, a) for a in sys.argv[1:] if a.startswith("src/"))
have = set(); und = set()
for o in own:
    d, u = syms(b.obj(o)); und |= u; have |= {n for n, _ in d}
todo = list(need)
while True:
    for f in todo:
        d, u = tab[f]; have |= {n for n, _ in d}; und |= u
    todo = []
    for n in und - have:
        f = owner.get(n)
        if f and f not in need:
            need.add(f); todo.append(f)
    if not todo: break
r = sorted(os.path.relpath(f, run.REPO) for f in need if f.startswith(run.REPO))
print(len(r), "of", len(run.all_sources())); print(r)
