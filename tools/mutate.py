#!/usr/bin/env python3
"""tools/mutate.py C03 [qual-prefix ...]: which AST mutants of the analysed
functions go unnoticed by the check (development aid, in memory only)."""
import importlib
import os
import sys
from multiprocessing import Pool

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from run import load_known  # noqa: E402
from sa.mutants import apply, mutants_of  # noqa: E402
from sa.project import Project  # noqa: E402
from sa.rules import Analysis, Report  # noqa: E402

PARTS = {}
ROOT = os.environ.get("REPO", "/repo")


def one(job):
    props, rel, src, desc, qual = job
    out = []
    for prop in props:
        try:
            p = Project(ROOT, overlay={rel: src})
            a = Analysis(p, load_known())
            a.tier = "quick"
            if prop in PARTS:
                a.only_parts = {n for n, fs in enumerate(PARTS[prop]) if qual in fs}
            r = Report(prop)
            try:
                importlib.import_module("checks." + prop).check(a, r)
            except Exception:
                if not r.violations:
                    raise
            vs = sorted({f"{o[0]}" for o in r.violations})
            out.append((prop, "VIOL" if vs else "quiet", vs))
        except Exception as e:
            out.append((prop, "ERR", [f"{type(e).__name__}: {e}"[:100]]))
    return desc, out


def main():
    props = sys.argv[1].split(",")
    pref = sys.argv[2:]
    p = Project(ROOT)
    jobs = []
    for f in p.all_functions():
        if not any(x in f.qual for x in pref):
            continue
        m = f.module
        for desc, line, new in mutants_of(f.node):
            try:
                src = apply(m.source, m.tree, f.node, new)
                compile(src, "x", "exec")
            except Exception:
                continue
            jobs.append((props, m.relpath, src, f"{f.qual.split('.')[-2]}.{f.name}:{line} {desc}", f.qual))
    print(len(jobs), "mutants")
    for prop in props:
        a = Analysis(Project(ROOT), load_known())
        a.tier = "quick"
        importlib.import_module("checks." + prop).check(a, Report(prop))
        if hasattr(a, "part_functions"):
            PARTS[prop] = a.part_functions
    n = {"VIOL": 0, "quiet": 0, "ERR": 0}
    with Pool(8) as pool:
        for desc, out in pool.imap(one, jobs):
            st = "VIOL" if any(o[1] == "VIOL" for o in out) else "ERR" if any(o[1] == "ERR" for o in out) else "quiet"
            n[st] += 1
            if st != "VIOL" or os.environ.get("V"):
                print(st, desc, [o[2] for o in out] if st != "quiet" else "")
    print(n)


if __name__ == "__main__":
    main()
