#!/usr/bin/env python3
"""trymut.py SPEC.py: run checks on scratch copies with textual edits (development only).
SPEC defines M = [(name, props, expect, [(file, old, new[, count])...])], expect in {"V","Q"}."""
import os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
exec(open(sys.argv[1]).read())
only = sys.argv[2:]


def one(m):
    name, props, exp, edits = m
    w = "/tmp/mut_" + name
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s; cp /repo/Cargo.lock %s/" % (w, w), shell=True)
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(w, f)
        s = open(p).read()
        if old not in s:
            return name, "EDIT NOT FOUND " + old[:50]
        s = s.replace(old, new, e[3] if len(e) > 3 else 1)
        open(p, "w").write(s)
    out = []
    for pr in props:
        r = subprocess.run(["python3", "/verif/check.py", pr], env=dict(os.environ, SA_REPO=w), capture_output=True, text=True)
        l = [x for x in r.stdout.splitlines() if "broken:" in x]
        got = "V" if r.returncode == 1 else "Q" if r.returncode == 0 else "?"
        out.append("%s %s %s%s" % ("ok " if got == exp else "BAD", pr, got, " " + l[0][:230] if l else ""))
    shutil.rmtree(w, ignore_errors=True)
    return name, " || ".join(out)


ms = [m for m in M if not only or m[0] in only]
with ThreadPoolExecutor(3) as ex:
    for n, r in ex.map(one, ms):
        print(n, r, flush=True)
