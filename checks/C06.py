"""Update contract. A client objective holding variables of every role is followed symbolically through valid, masked, invalid,
unknown and empty updates: what each variable holds afterwards, what was refused, what was counted and which batch size results
are compared with the contract. A guarded-effect analysis of Objective.update shows that every registry is covered for every
name and that batch size and vectorization are refreshed afterwards; a who-may-write analysis shows that nothing else replaces
values."""
import ast

from sa import state
from sa.rules import *  # noqa: F401,F403

REGS = ("optim_vars", "aux_vars", "cost_weight_optim_vars")


def check_objective(a, r):
    v = a.view("Objective", "update")
    P = {n: T("param", v.func.qual, n) for n in v.func.params[1:]}
    inp, mask, uv = P["input_tensors"], P["batch_ignore_mask"], P["_update_vectorization"]
    stores = [e for e in v.calls("update") if not is_self(call_recv(e.term) or NONE)]
    allv = [e for e in stores if mentions_attr(call_recv(e.term), "_all_variables")]
    found = {}
    for e in stores:
        for n in REGS:
            if mentions_attr(call_recv(e.term), n):
                found.setdefault(n, []).append(e)
    for n in REGS:
        r.check(found.get(n) or allv, "every-registry-updated", f"Objective.update/{n}", v,
                f"variables of {n} are never updated")
    for e in stores:
        which = next((n for n in REGS if mentions_attr(call_recv(e.term), n)), "all")
        tag = f"Objective.update/{which}"
        x = get_arg(e.term, 0, "data")
        name = next((y for y in subterms(call_recv(e.term)) if y.kind in ("key", "elem", "idx")), None)
        if not (x is not None and (contains(x, lambda y: y.kind == "val") or mentions_param(x, "input_tensors"))):
            r.check(False, "stores-given-tensor", tag, e, f"stores {show(x) if x is not None else None}")
            continue
        r.check(x.kind in ("val", "idx", "elem", "getitem", "sub") or not is_call(x), "stores-given-tensor", tag, e,
                f"stores {show(x)[:100]} instead of the given tensor")
        if name is not None and x.kind == "val" and name.kind == "key":
            r.check(name.args[0] is x.args[0], "tensor-of-own-name", tag, e, "tensor stored under another name")
        m = get_arg(e.term, 1, "batch_ignore_mask")
        r.check(m is mask, "mask-applied", tag, e, "the batch mask is not passed on")
    # every known name is stored
    if stores:
        loop = [e for e in stores if e.loops]
        base = [g for g in (loop or stores)[0].guards]
        keyterm = None
        memb = {}
        for e in stores:
            for y in guard_atoms(e):
                for n in REGS + ("_all_variables",):
                    if cmp_of(y, "in", ANY, self_attr(n)):
                        memb[n] = y
        valid = [(g, p) for g, p in base if not any(g is m for m in memb.values())
                 and not any(contains(g, val(m)) for m in memb.values())]
        for n in REGS:
            if n in memb:
                ok = covers(valid + [(memb[n], True)], [e.guards for e in stores])
                r.check(ok, "every-known-name-updated", f"Objective.update/{n}", stores[0],
                        f"a valid tensor for a variable in {n} can be skipped")
        for e in stores:
            loops = [l for l in e.loops]
            r.check(loops and any(contains(v.c(l[1]), val(inp)) for l in loops if isinstance(l[1], Term)),
                    "every-known-name-updated", f"Objective.update/loop{len(loops)}", e, "does not range over the given tensors")
    # batch size and vectorization afterwards
    res = v.calls("_resolve_batch_size") + [e for e in v.sets("_batch_size", is_self)]
    r.check(res and v.always(res), "batch-size-resolved", "Objective.update", v, "batch size not resolved on every exit")
    for s in stores:
        r.check(any(x.seq > s.seq and not x.loops for x in res), "batch-size-resolved-after-stores", "Objective.update", s,
                "batch size resolved before the variables are updated")
    vec = v.calls("update_vectorization_if_needed")
    r.check(vec and v.always(vec, ((uv, True),)), "vectorization-refreshed", "Objective.update", v,
            "vectorization not refreshed after the update")
    for e in vec:
        r.check(implies_guard(e, val(uv), True), "vectorization-refresh-optional", "Objective.update", e,
                "vectorization refreshed although not requested")
        r.check(all(s.seq < e.seq for s in stores) and any(x.seq < e.seq for x in res), "vectorization-refreshed-last",
                "Objective.update", e, "vectorization refreshed before values and batch size are final")
    r.check(default_of(v.func, "_update_vectorization") is True, "vectorization-refreshed", "Objective.update/default", v,
            "vectorization is not refreshed by default")
    # unknown names are reported, not silently dropped and not an error
    warn = [e for e in v.calls("warn") if e.loops]
    un = [e for e in warn if all(implies_guard(e, lambda t, n=n: cmp_of(t, "in", ANY, self_attr(n)), False) for n in REGS)
          or implies_guard(e, lambda t: cmp_of(t, "in", ANY, self_attr("_all_variables")), False)]
    r.check(un, "unknown-name-warned", "Objective.update", v, "no warning for unknown names")


def who_writes(a, r):
    """Values are replaced through update() only (the update counter keys every cache)."""
    base = a.p.cls("Variable")
    fam = {base.name} | {c.name for c in a.p.subclasses(base)}
    n = 0
    for f in a.p.all_functions():
        if not f.module.relpath.startswith("theseus/") or "/utils/examples" in f.module.relpath:
            continue
        own = {x.arg for x in f.node.args.args}
        fresh = {t.id for x in ast.walk(f.node) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call)
                 for t in x.targets if isinstance(t, ast.Name)}
        for x in ast.walk(f.node):
            if isinstance(x, ast.Attribute) and x.attr == "_num_updates" and isinstance(x.ctx, ast.Store):
                n += 1
                r.check(f.cls is not None and f.cls.name in fam, "counter-owned-by-variable", f.qual,
                        f"{f.module.relpath}:{x.lineno}", "update counter written from outside")
            if isinstance(x, ast.Attribute) and x.attr == "tensor" and isinstance(x.ctx, ast.Store):
                n += 1
                ok = f.cls is not None and f.cls.name in fam or f.name == "__init__" or (
                    isinstance(x.value, ast.Name) and x.value.id in fresh) or same_value_reshape(f, x)
                ok = ok or f.qual in ALLOWED
                r.check(ok, "values-replaced-through-update", f.qual, f"{f.module.relpath}:{x.lineno}",
                        "writes a variable's tensor without counting the update")
    r.check(n >= 3, "values-replaced-through-update", "project", "", "no writer found")


# reverts values changed by a function traced with functorch: counting these
# temporary writes is not needed because the same tensors are put back
ALLOWED = {"theseus.core.cost_function._tmp_tensors"}


def same_value_reshape(f, node):
    """x.tensor = x.tensor.view(...): normalises the shape, keeps the values."""
    for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and any(t is node for t in s.targets):
            return any(isinstance(y, ast.Attribute) and y.attr == "tensor" and ast.dump(y.value) == ast.dump(node.value)
                       for y in ast.walk(s.value)) or isinstance(s.value, ast.IfExp)
    return False


def check(a, r):
    check_objective(a, r)
    who_writes(a, r)
    r.parallel(a, [(f, ()) for f in (state.updates, state.batch_sizes, state.variable_updates)])
