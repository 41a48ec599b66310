"""Stale structure refused. Effect analysis of the version counter: every
structural write in Objective.add / erase is covered by a strictly increasing
version bump and by turning vectorization off; constructors snapshot the
counter of the objective they use; and the run entry points of every optimizer
and of the layer are dominated by the equality test, which raises otherwise."""
import re

from sa.rules import *  # noqa: F401,F403

STRUCT = (
    "optim_vars", "cost_weight_optim_vars", "aux_vars", "_all_variables", "cost_functions",
    "cost_functions_for_weights", "functions_for_optim_vars", "functions_for_aux_vars",
)


def version_of(t):
    return t.kind == "attr" and t.args[1] == "current_version"


def structural_writes(v):
    out = []
    for e in v.events:
        if e.kind in ("setitem", "del", "mutcall", "setattr") or (e.kind == "call" and e.term is not None):
            b = e.base if e.kind != "call" else call_recv(e.term)
            if b is None:
                continue
            if e.kind == "call" and call_name(e.term) not in ("pop", "popitem", "clear", "setdefault", "__setitem__", "update"):
                continue
            if e.kind == "mutcall" and e.name not in ("pop", "popitem", "clear", "setdefault", "update"):
                continue
            if e.kind == "setattr":
                if b.kind == "self" and e.name in STRUCT:
                    out.append(e)
                continue
            if any(self_attr(n)(b) for n in STRUCT):
                out.append(e)
    return out


def check_bumps(a, r):
    for meth in ("add", "erase"):
        v = a.view("Objective", meth)
        bumps = []
        for e in v.sets("current_version", is_self):
            val_ = e.value
            up = (
                val_ is not None and val_.kind == "bin" and val_.args[0] == "+"
                and any(version_of(x) for x in val_.args[1:])
                and any(is_const(x) and isinstance(x.args[0], int) and x.args[0] > 0 for x in val_.args[1:])
            )
            up = up or (mentions_call(val_, "next"))
            r.check(up, "version-strictly-increases", f"Objective.{meth}", e,
                    f"the version is set to {show(val_)} which is not an increment")
            if up:
                bumps.append(e)
        writes = structural_writes(v)
        r.check(writes, "structural-writes-found", f"Objective.{meth}", v, "no structural write found")
        bad = [w for w in writes if not covers(w.guards, [b.guards for b in bumps])]
        r.check(bumps and not bad, "structure-change-bumps-version", f"Objective.{meth}", bad[0] if bad else v,
                "the structure can change without a new version number")
        off = v.calls("disable_vectorization") + [e for e in v.sets("_vectorized", is_self) if is_const(e.value, False)]
        bad = [w for w in writes if not covers(w.guards, [b.guards for b in off])]
        r.check(off and not bad, "structure-change-disables-vectorization", f"Objective.{meth}", bad[0] if bad else v,
                "a vectorization built for the old structure stays enabled")
    v = a.view("Objective", "copy")
    r.check(not [e for e in v.sets("current_version")], "version-not-overwritten", "Objective.copy", v, "")


def check_disable(a, r):
    v = a.view("Objective", "disable_vectorization")
    en = a.view("Objective", "_enable_vectorization")
    init = a.view("Objective", "__init__")
    # what enabling leaves at its initial value needs no reset
    def text(e):
        return re.sub(r"(new<[^,>]*), \d+>", r"\1>", show(e.value))
    first = {e.name: text(e) for e in init.sets(base=is_self)}
    want = {e.name for e in en.sets(base=is_self) if text(e) != first.get(e.name)}
    have = {e.name for e in v.sets(base=is_self)}
    r.check(want and want <= have, "disable-resets-every-callback", "Objective.disable_vectorization", v,
            f"not reset: {sorted(want - have)}")
    for n in sorted(want & have):
        evs = [e for e in v.sets(n, is_self)]
        iv = [e for e in init.sets(n, is_self)]
        r.check(v.always(evs), "disable-resets-every-callback", f"Objective.disable_vectorization/{n}", v, "conditional reset")
        if iv:
            r.check(all(x.value is iv[-1].value for x in evs), "disable-restores-initial-value",
                    f"Objective.disable_vectorization/{n}", evs[0],
                    f"reset to {show(evs[0].value)} instead of {show(iv[-1].value)}")


def version_eq(t):
    """(snapshot, current) of an equality test against a current_version."""
    if t.kind == "cmp" and t.args[0] in ("==", "is"):
        for x, y in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
            if version_of(x) and y.kind == "attr" and y.args[0].kind == "self":
                return y, x
    if t.kind == "cmp" and t.args[0] == "<":
        # snapshot < current  (the counter never decreases)
        x, y = t.args[1], t.args[2]
        if version_of(y) and x.kind == "attr" and x.args[0].kind == "self":
            return x, y
    return None


def gated(v, e):
    """The version test that dominates event e, or None."""
    for x in guard_atoms(e):
        p = version_eq(x)
        if p:
            same = x.args[0] != "<"
            if not sat(list(e.guards) + [(x, not same)]):
                return p
    return None


def check_entry(a, r, cls, meth, run_calls):
    v = a.view(cls, meth)
    cn = v.cls.name
    evs = v.calls(*run_calls)
    r.check(evs, "run-calls-found", f"{cn}.{meth}", v, "no run call found")
    snap = None
    for e in evs:
        p = gated(v, e)
        r.check(p, "run-requires-same-version", f"{cn}.{meth}/{call_name(e.term)}", e,
                "runs although the objective was modified after construction")
        snap = p or snap
    # nothing is written before the test
    early = [
        e for e in v.events
        if e.kind in ("setattr", "setitem", "del", "mutcall") and not gated(v, e)
    ]
    early = [e for e in early if e.base is None or e.base.kind not in ("new", "make", "coll", "inst")]
    r.check(not early, "test-before-side-effects", f"{cn}.{meth}", early[0] if early else v,
            "state is modified before the staleness test")
    ra = []
    for e in v.raises():
        for x in guard_atoms(e):
            p = version_eq(x)
            if p and not sat(list(e.guards) + [(x, x.args[0] != "<")]):
                ra.append(e)
                snap = snap or p
    r.check(ra, "stale-run-raises", f"{cn}.{meth}", v, "no error raised for a modified objective")
    for e in ra:
        t = e.term if e.term is not None else e.value
        r.check(t is not None and contains(t, lambda x: x.kind in ("builtin", "global", "name", "func", "class")
                                            and "RuntimeError" in str(x.args)) or "RuntimeError" in show(t),
                "stale-run-raises-runtime-error", f"{cn}.{meth}", e, "error type changed")
        extra = [g for g, p in e.guards if not version_eq(g) and not (g.kind == "un" and version_eq(g.args[1]))
                 and not any(version_eq(x) for x in subterms(g))]
        r.check(not extra, "stale-run-always-raises", f"{cn}.{meth}", e,
                f"only raised under the extra condition {[show(x)[:80] for x in extra]}")
    return snap


def check_snapshot(a, r, cls, snap):
    v = a.view(cls, "__init__")
    name = snap[0].args[1]
    evs = v.sets(name, is_self)
    cn = v.cls.name
    r.check(evs and v.always(evs), "snapshot-taken-at-construction", cn, v, "version snapshot not always stored")
    for e in evs:
        r.check(version_of(e.value), "snapshot-taken-at-construction", f"{cn}/value", e,
                f"snapshot is {show(e.value)}, not the objective's version")
        if version_of(e.value):
            src = e.value.args[0]
            obj = [x.value for x in v.sets("objective", is_self)]
            r.check(src in obj or self_attr("objective")(src) or any(strip(o) is strip(src) for o in obj),
                    "snapshot-of-own-objective", cn, e, "snapshot of another objective")


def who_writes(a, r):
    """The counter is written only by Objective, the snapshots only by constructors."""
    import ast

    n = 0
    for f in a.p.all_functions():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                if x.attr == "current_version":
                    n += 1
                    ok = f.cls is not None and f.cls.name == "Objective" and isinstance(x.value, ast.Name) and x.value.id == "self"
                    r.check(ok, "version-owned-by-objective", f.qual, f"{f.module.relpath}:{x.lineno}",
                            "the version is modified from outside the objective")
                elif x.attr == "_objectives_version":
                    n += 1
                    v = a.view_of(f, f.cls)
                    ok = f.name == "__init__" or all(version_of(e.value) is False for e in v.sets("_objectives_version"))
                    r.check(ok, "snapshot-written-at-construction-only", f.qual, f"{f.module.relpath}:{x.lineno}",
                            "the snapshot is refreshed after construction, hiding the modification")


def check(a, r):
    check_bumps(a, r)
    check_disable(a, r)
    who_writes(a, r)
    opt = a.p.cls("Optimizer")
    seen = set()
    for c in [opt] + a.p.subclasses(opt):
        f = a.p.method(c, "optimize")
        key = f.qual
        if key in seen:
            continue
        seen.add(key)
        owner = f.cls
        snap = check_entry(a, r, owner, "optimize", ("_optimize_impl",))
        if snap:
            check_snapshot(a, r, "Optimizer", snap)
    snap = check_entry(a, r, "TheseusLayer", "forward", ("_forward", "apply", "update", "optimize"))
    if snap:
        check_snapshot(a, r, "TheseusLayer", snap)
    # every concrete optimizer constructor reaches the base constructor
    for c in a.p.subclasses(opt):
        if "__init__" in c.methods:
            v = a.view(c, "__init__")
            sup = [e for e in v.events if e.kind == "call" and call_name(e.term) == "__init__"]
            snapw = v.sets("_objectives_version")
            r.check(sup or snapw, "constructor-reaches-base", c.name, v, "base constructor not called")
