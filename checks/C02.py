"""Copies share nothing mutable with the original. For every copyable class the
arguments of the constructor call made by its copy implementation are traced: a
registered variable, weight, inner cost function or tensor of the original may
only be passed through copy()/clone(); the generic copy refuses reused variables
of both roles; Objective.copy makes one copy per weight and one variable per name
and adds only copies."""
from sa import copies
from sa.rules import *  # noqa: F401,F403
from checks.C01 import bare, copyable, core, later_attrs, made, roots
from checks.C12 import registered

FRESH = ("copy", "clone", "deepcopy", "new_tensor", "detach_copy")
SHARED = {"tensor", "weight", "cost_function", "optim_vars", "aux_vars", "cost_weight", "cost_fn"}
TYPES = {"Variable", "LieGroup", "Manifold", "Vector", "Point2", "Point3", "SE2", "SE3", "SO2", "SO3", "Tensor", "CostWeight", "CostFunction"}


def held(a, cls):
    """names of attributes / parameters that hold variables, weights, cost functions or tensors"""
    import ast
    out = set(SHARED)
    for c in a.p.mro(cls):
        f = c.methods.get("__init__")
        if f is None:
            continue
        for n, p in f.param_nodes().items():
            an = ast.unparse(p.annotation) if p.annotation is not None else ""
            toks = set("".join(ch if ch.isalnum() or ch == "_" else " " for ch in an).split())
            if toks & TYPES and not toks & {"Type", "Callable"}:
                out.add(n)
        if c.name not in ("RobustCostFunction", "GNCRobustCostFunction", "AutoDiffCostFunction"):
            reg = None
            try:
                reg = registered(a, c.name) if not a.p.is_abstract(c) else None
            except Exception:
                reg = None
            if reg:
                out |= set(reg[0]) | set(reg[1])
    return {bare(x) for x in out}


def module_copy(t):
    """copy.copy(x): a shallow copy"""
    return is_call(t, "copy") and call_recv(t) is not None and call_recv(t).kind == "module"


def exposed(t, names):
    """sub-terms of t that are held objects of self not passed through a copy"""
    out = []

    def go(x):
        if x.kind == "call" and call_name(x) in FRESH and not module_copy(x):
            return
        if x.kind == "call" and call_name(x) in ("type", "isinstance", "len", "dof", "size", "dim", "getattr"):
            return
        if x.kind == "attr" and x.args[1] in ("name", "shape", "dtype", "device", "ndim", "__class__"):
            return
        if x.kind == "attr" and is_self(x.args[0]):
            if bare(x.args[1]) in names:
                out.append(x)
            return
        if x.kind == "elem" and roots(x) and {bare(y) for y in roots(x)} & names:
            out.append(x)
            return
        for c in children(x):
            go(c)
        for y in x.args:
            if isinstance(y, tuple):
                for z in flat(y):
                    go(z)
    go(t)
    return out


def flat(y):
    for z in y:
        if hasattr(z, "kind"):
            yield z
        elif isinstance(z, tuple):
            yield from flat(z)


def check_class(a, r, cls, f):
    v = a.view_of(f, cls)
    n = cls.name
    names = held(a, cls)
    for e, cn, kw, tgt in made(a, v, cls):
        if cn == "?":
            if tgt.kind == "self" or is_self(tgt) or is_call(tgt, "copy") and module_copy(tgt):
                r.check(False, "copy-is-new", n, e, "the copy is the object itself or a shallow copy")
            else:
                r.skip("copy-is-new", n, show(tgt)[:80])
            continue
        for p, t in kw.items():
            if p in ("name", "new_name"):
                continue
            t = v.c(t)
            es = entries(t)
            if es is not None and es:
                for x in es:
                    bad = exposed(x.value, names | {"optim_vars", "aux_vars"})
                    r.check(not bad, "held-objects-copied", f"{n}.{p}", e, f"{p} of the copy shares {show(x.value)[:60]} with the original")
                continue
            bad = exposed(t, names)
            if not bad and bare(p) not in names:
                continue
            r.check(not bad, "held-objects-copied", f"{n}.{p}", e, f"{p} of the copy shares {show(t)[:60]} with the original")
        for nm, evs in later_attrs(v, tgt).items():
            for e2, t in evs:
                bad = exposed(t, names)
                r.check(not bad, "held-objects-copied", f"{n}.{nm}", e2, f"{nm} of the copy shares {show(t)[:60]} with the original")


def check_generic(a, r):
    m = made(a, a.view("Variable", "copy"), a.p.cls("Variable"))
    for e, cn, kw, tgt in m:
        t = kw.get("tensor")
        if t is not None:
            r.check(not exposed(t, {"tensor"}), "held-objects-copied", "Variable.tensor", e, f"the copy shares {show(t)[:60]}")
    v = a.view("TheseusFunction", "copy")
    where = "TheseusFunction.copy"
    impl = [e.term for e in v.events if e.kind == "call" and is_call(e.term, "_copy_impl")]
    new_terms = [v.c(x) for x in impl]
    rs = [e for e in v.raises() if any(contains(v.c(g), lambda x: x in impl) for g, _ in e.guards)]
    r.check(rs, "reuse-refused", where, v, "a copy that shares variables with the original is accepted")
    for e in rs:
        g, p = [(g, p) for g, p in e.guards if contains(v.c(g), lambda x: x in impl)][-1]
        t = v.c(g)
        for role in ("optim_vars", "aux_vars"):
            own = contains(t, lambda x: x.kind == "attr" and x.args[1] == role and is_self(x.args[0]))
            new = contains(t, lambda x: x.kind == "attr" and x.args[1] == role and x.args[0] in impl)
            r.check(own and new, "reuse-refused", f"{where}/{role}", e, f"reused {role} are not noticed")
        t0 = rebuild(t, lambda x: NONE if x in impl or x in new_terms else x)
        r.check(not contains(t0, lambda x: x.kind == "attr" and x.args[1] in ("name", "tensor", "_num_updates")), "reuse-refused", where + "/identity", e, "variables are not compared by identity")
        # polarity: raise when something is shared
        bad = polarity_bad(t, p)
        r.check(not bad, "reuse-refused", where + "/polarity", e, f"refuses when {show(t)[:80]} is {p}")
    before = [x for x in v.returns() if not rs or x.seq < min(e.seq for e in rs)]
    r.check(not before, "reuse-refused", where + "/always", v, "some copies are returned without the test")


def polarity_bad(t, p):
    if t.kind in ("or",) or t.kind == "bin" and t.args[0] == "|":
        ops = t.args[0] if t.kind == "or" else t.args[1:]
        return any(polarity_bad(x, p) for x in ops)
    if t.kind == "and" or t.kind == "bin" and t.args[0] == "&" and contains(t, lambda x: is_call(x, "len", "bool", "any")):
        return True
    if t.kind == "not":
        return polarity_bad(t.args[0], not p)
    if t.kind == "cmp" and t.args[0] == "<" and is_const(t.args[1], 0):
        return not p
    if t.kind == "cmp" and t.args[0] in ("<", "<=") and is_const(t.args[2]):
        return p and not contains(t, lambda x: x.kind == "bin" and x.args[0] == "-")
    if t.kind == "cmp" and t.args[0] == "==" and any(is_const(x, 0) for x in t.args[1:]):
        return p
    if is_call(t, "isdisjoint"):
        return p
    return False


def check_objective(a, r):
    v = a.view("Objective", "copy", opaque=("add", "to", "set_optim_var_at", "set_aux_var_at"))
    where = "Objective.copy"
    rets = v.returns()
    new = rets[0].value if rets else NONE
    r.check(not is_self(new), "copy-is-new", where, v, "returns itself")
    for e in v.events:
        if e.kind == "call" and is_call(e.term, "add") and call_recv(e.term) is new:
            x = v.c(get_arg(e.term, 0, "cost_function"))
            top = x
            ok = contains(top, lambda y: is_call(y, "copy") and not module_copy(y))
            if not ok:
                r.check(False, "held-objects-copied", where + "/cost_function", e, f"adds the original {show(x)[:60]}")
            else:
                r.ok("held-objects-copied", where + "/cost_function")
            # sharing is resolved before the cost function is registered
            sets = [s for s in v.events if s.kind == "call" and is_call(s.term, "set_optim_var_at", "set_aux_var_at")]
            r.check(not [s for s in sets if s.seq > e.seq], "shared-before-adding", where, e, "variables are replaced after the cost function was added")
    ws = v.sets("weight")
    for e in ws:
        t = v.c(e.value)
        fresh = contains(e.value, lambda y: is_call(y, "copy"))
        if e.value.kind == "sub":
            m = e.value.args[0]
            st = [s for s in v.events if s.kind == "setitem" and s.base is m]
            if st:
                for s in st:
                    r.check(is_call(s.value, "copy") and not module_copy(s.value), "held-objects-copied", where + "/weight", s, f"the copy uses the weight {show(s.value)[:60]}")
                    src = s.loops[-1][1] if s.loops else NONE
                    r.check(contains(v.c(src), lambda y: y.kind == "attr" and y.args[1] in ("cost_functions_for_weights", "cost_functions")), "one-weight-per-weight", where + "/source", s, f"weights of {show(src)[:60]}")
            else:
                es = entries(v.c(m))
                for x in es or []:
                    r.check(x.value is not None and contains(x.value, lambda y: is_call(y, "copy")), "held-objects-copied", where + "/weight", e, f"the copy uses the weight {show(x.value)[:60]}")
        else:
            r.check(fresh or is_call(e.value, "setdefault", "get"), "held-objects-copied", where + "/weight", e, f"the copy uses the weight {show(e.value)[:60]}")
            if is_call(e.value, "copy"):
                r.check(False, "one-weight-per-weight", where, e, "cost functions sharing a weight get separate ones")
    # one variable per name over all functions of the copy
    for m in ("set_optim_var_at", "set_aux_var_at"):
        for e in v.events:
            if e.kind != "call" or not is_call(e.term, m):
                continue
            x = get_arg(e.term, 1, "variable")
            for gs, t in cases(x):
                if is_call(t, "setdefault") or is_call(t, "get"):
                    d = call_recv(t)
                elif t.kind == "sub":
                    d = t.args[0]
                else:
                    continue
                while d.kind in ("upd", "loopout", "loopvar"):
                    d = d.args[0]
                if contains(d, lambda y: y is new):
                    r.check(False, "one-variable-per-name", f"{where}/{m}-registry", e, "the registry consulted only knows variables of cost functions added before: "
                            "a variable used twice by one cost function or by it and its weight gets two copies")
                if d.kind == "new":
                    # created once: not inside the loop over cost functions
                    r.check(not created_in_loop(v, d), "one-variable-per-name", f"{where}/{m}", e, "variables are only shared within one cost function")
                if is_call(t, "setdefault") and len(call_pos(t)) == 2:
                    dv = call_pos(t)[1]
                    r.check(not contains(dv, lambda y: y.kind == "attr" and y.args[1] == "_all_variables"), "held-objects-copied", f"{where}/{m}", e, "an original variable is used")
                    r.check(dv.kind == "elem" and call_pos(t)[0].kind == "attr" and call_pos(t)[0].args[0] is dv, "one-variable-per-name", f"{where}/{m}-key", e, f"{show(dv)[:40]} is filed under {show(call_pos(t)[0])[:40]}")


def created_in_loop(v, d):
    """the container is made again for every iteration of a loop"""
    return v.e.alloc_birth.get(d.args[1], (0, 0))[1] > 0


def check(a, r):
    for cls, f in copyable(a):
        check_class(a, r, cls, f)
    r.floor("held-objects-copied", 40)
    check_generic(a, r)
    check_objective(a, r)
    r.parallel(a, copies.jobs(a, "apart"))
