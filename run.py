#!/usr/bin/env python3
"""Run one static check:  python3 run.py C05   (reads REPO, default /repo)."""
import importlib
import json
import os
import sys
import time
import traceback

if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") is None:
    # the order of sets of names must not depend on the process
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def load_known():
    fn = os.path.join(HERE, "known_names.txt")
    if not os.path.exists(fn):
        return None
    with open(fn) as f:
        return set(x.strip() for x in f if x.strip())


def load_findings(prop):
    """Entries  'finding: property=<id> key=<rule>|<construct> <what fails>'."""
    out = {}
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("finding: property=" + prop + " key="):
                rest = line.split(" key=", 1)[1]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what.strip()
    return out


def run_check(prop, root, tier="quick"):
    from sa.project import Project
    from sa.rules import Analysis, Report

    p = Project(root)
    a = Analysis(p, load_known())
    a.tier = tier
    r = Report(prop)
    mod = importlib.import_module("checks." + prop)
    err = None
    try:
        mod.check(a, r)
    except Exception as e:
        err = e
    return mod, a, r, err


def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    root = os.environ.get("REPO", "/repo")
    t0 = time.time()
    try:
        mod, a, r, err = run_check(prop, root, tier)
        if err is not None and not r.violations:
            raise err
    except Exception as e:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={prop} {type(e).__name__}: {e}")
        return 2
    known = load_findings(prop)
    viol, findings = [], []
    for rule, construct, ok, loc, msg in r.obl:
        if ok:
            continue
        key = f"{rule}|{construct}"
        (findings if key in known else viol).append((rule, construct, loc, msg))
    by_rule = {}
    for rule, construct, ok, loc, msg in r.obl:
        d = by_rule.setdefault(rule, {"instances": 0, "discharged": 0})
        d["instances"] += 1
        d["discharged"] += bool(ok)
    extra = {}
    if tier == "thorough" and os.environ.get("VERIF_NO_SELFTEST") != "1":
        try:
            from sa import selftest

            extra["sensitivity"] = selftest.sensitivity(prop, root, a)
        except ImportError:
            pass
    nl = chr(10)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": (mod.__doc__ or "").strip().replace(nl, " "),
            "obligations": len(r.obl),
            "discharged": sum(1 for o in r.obl if o[2]),
            "functions_analysed": len(a.functions),
            "effect_events": a.nevents,
            "by_rule": by_rule,
            "undecided": [f"{x} [{y}]: {z}" for x, y, z in r.undecided],
            "known_findings": [f"{x[0]} [{x[1]}]" for x in findings],
            "samples": [f"{o[0]} [{o[1]}] {o[3]}" for o in r.obl[:: max(1, len(r.obl) // 12)]],
            **extra,
        },
        "assumptions": getattr(
            mod,
            "ASSUMPTIONS",
            ["no monkey patching of the analysed classes at run time",
             "third party (torch, numpy, scipy) calls behave as documented"],
        ),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    if root == "/repo" or "--evidence" in argv:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print(f"{prop}: {len(r.obl)} obligations over {len(a.functions)} functions, "
          f"{len(viol)} violations, {len(findings)} known, {len(r.undecided)} undecided, {ev['wall_s']}s")
    for rule, d in by_rule.items():
        print(f"  rule {rule}: {d['discharged']}/{d['instances']}")
    for rule, construct, loc in dict.fromkeys((f[0], f[1], f[2]) for f in findings):
        print(f"KNOWN-FINDING: property={prop} {rule} [{construct}] {loc} {known[f'{rule}|{construct}']}")
    for rule, construct, loc, msg in viol:
        print(f"VIOLATION property={prop} replay={loc or construct} rule={rule} construct={construct}: {msg}")
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
