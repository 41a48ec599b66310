"""Cached vectorized results are never stale: must-precede analysis of the refresh
over every serving point, exactness of the staleness test, and separation of the
permanent containers from those of error-only evaluations."""
import ast

from sa.rules import *  # noqa: F401,F403
from sa import vector
from checks.C40 import method_loc
from checks.C07 import callbacks, inlined_known


def obj_known(a, *public):
    """Inline every helper of Objective (public ones too) except `public`."""
    keep = {"update", "error", "error_metric", "error_squared_norm", "copy", "add", "erase", "to", "retract_vars_sequence"} | set(public)
    return {x for x in a.known if not (".objective.Objective." in x and x.rsplit(".", 1)[1] not in keep)} if a.known is not None else None


def field(name):
    return lambda t: t.kind == "attr" and t.args[1] == name and t.args[0].kind == "self"


def is_run(e):
    t = e.term
    return e.kind == "call" and t is not None and (call_name(t) == "_vectorization_run" or mentions_attr(t.args[0], "_vectorization_run"))


def vec_guard(g):
    """atoms that say vectorization is enabled (excluded from coverage)"""
    return contains(g, lambda x: x.kind == "attr" and x.args[1] in ("vectorized", "_vectorized", "_vectorized_jacobians_iter", "_vectorization_run",
                                                                 "_get_error_iter", "_retract_method", "_vectorization_to")) or mentions_call(g, "vectorized")


def counts_expr(t):
    """a per-variable table of update counts of all variables"""
    return mentions_attr(t, "_num_updates")


def check_need(a, r):
    v = a.view("Objective", "update_vectorization_if_needed", known=obj_known(a), inline_key="obj")
    runs = [e for e in v.events if is_run(e)]
    r.check(runs, "refresh-exists", "Objective.update_vectorization_if_needed", v, "cached results are never recomputed")
    if not runs:
        return v
    for e in runs:
        m = get_arg(e.term, 0, "mode")
        r.check(m is None or (m.kind == "attr" and m.args[1] == "FULL"), "refresh-mode", "Objective.update_vectorization_if_needed", e,
                f"a refresh uses mode {show(m) if m is not None else ''}")
        nb = [x for g, _ in e.guards for x in _atoms(g) if is_none_test(x, lambda y: y.kind == "attr" and y.args[1] == "_batch_size")]
        st = [x for x in v.sets("_batch_size") if x.seq < e.seq] + [x for x in v.calls("_resolve_batch_size") if x.seq < e.seq]
        for x in st:
            for g, _ in x.guards:
                nb += [y for y in _atoms(g) if is_none_test(y, lambda z: z.kind == "attr" and z.args[1] == "_batch_size") and y not in nb]
        r.check(any(covers(list(core(v, e.guards)) + [(y, True) for y in nb[:1]], [core(v, x.guards)]) and sat(list(x.guards) + [(y, True) for y in nb[:1]])
                    for x in st), "batch-size-known", "Objective.update_vectorization_if_needed", e, "refreshes before the batch size is known")
    # the tests
    allg = [e.guards for e in runs]
    atoms = []
    for gs in allg:
        for g, _ in gs:
            atoms_of(v.c(g), atoms)
    counts = [x for x in atoms if x.kind == "cmp" and x.args[0] in ("==", "<", "is") and counts_expr(x)]
    grad = [x for x in atoms if mentions_call(x, "is_grad_enabled")]
    last = [x for x in atoms if mentions_attr(x, "_last_vectorization_has_grad")]
    where = "Objective.update_vectorization_if_needed"
    off = [x for x in atoms if vec_guard(x)]
    nonempty = []
    for x in atoms:  # enabled
        if x in off:
            nonempty.append(x)
    cg = [core(v, gs) for gs in allg]
    if not counts:
        if covers((), cg):
            r.ok("refresh-on-new-values", where)
        else:
            r.bad("refresh-on-new-values", where, runs[0], "the refresh does not depend on the variables' update counts")
    else:
        for x in counts:
            if x.args[0] != "==":
                r.check(False, "refresh-on-new-values", where + "/exact", runs[0], f"counts compared by {x.args[0]}: {show(x)[:100]}")
        c = [x for x in counts if x.args[0] == "=="]
        if c:
            r.check(covers([(x, False) for x in c], cg), "refresh-on-new-values", where, runs[0],
                    "updated variables do not always lead to a refresh")
            for x in c:
                tab = [y for y in x.args[1:] if counts_expr(y)]
                snap = [y for y in x.args[1:] if not counts_expr(y)]
                for t in tab:
                    es = entries(t)
                    if es is None:
                        r.skip("all-variables-counted", where, show(t)[:80])
                        continue
                    src = [s for e in es for s in e.loops]
                    names = {y.args[1] for s in src for y in subterms(s) if y.kind == "attr"} | {
                        call_name(y) for s in src for y in subterms(s) if is_call(y)}
                    ok = "_all_variables" in names or {"optim_vars", "aux_vars", "cost_weight_optim_vars"} <= names
                    for s in src:  # a choice between collections: each must be complete
                        for y in subterms(s):
                            if y.kind in ("phi", "or", "and"):
                                part = [z.args[1] for z in subterms(y) if z.kind == "attr" and is_self(z.args[0]) and z.args[1] in (
                                    "optim_vars", "aux_vars", "cost_weight_optim_vars")]
                                ok = ok and not part
                    r.check(ok, "all-variables-counted", where, runs[0], f"only the update counts of {sorted(n for n in names if n)} are compared")
                    r.check(all(not e.guards for e in es), "all-variables-counted", where + "/filter", runs[0], "some variables are ignored")
                    if es and es[0].kind == "kv":
                        for e in es:
                            r.check(e.key.kind == "key" or mentions_attr(e.key, "name"), "counts-per-variable", where, runs[0],
                                    f"counts are keyed by {show(e.key)[:50]}")
                            r.check(e.value.kind == "attr", "counts-per-variable", where + "/value", runs[0], f"{show(e.value)[:50]}")
                    # the snapshot is replaced by the compared table when a refresh runs
                    for s in snap:
                        if s.kind == "attr" and is_self(s.args[0]):
                            st = [e for e in v.sets(s.args[1]) if v.c(e.value) is t]
                            r.check(st and covers([(x, False)], [core(v, e.guards) for e in st]),
                                    "counts-remembered", where, st[0] if st else runs[0], "the counts a refresh was made for are not remembered")
                            for e in v.sets(s.args[1]):
                                r.check(v.c(e.value) is t, "counts-remembered", where + "/value", e, "remembers other counts")
    # gradients enabled but cached without
    if not grad or not last:
        r.check(covers((), cg), "refresh-when-grad-needed", where, runs[0],
                "results computed without gradients are served when gradients are enabled")
    else:
        g = [x for x in grad]
        base = [(x, True) for x in counts] + [(x, True) for x in g] + [(x, False) for x in last]
        r.check(covers(base, cg), "refresh-when-grad-needed", where, runs[0],
                "results computed without gradients are served when gradients are enabled")
        st = v.sets("_last_vectorization_has_grad")
        for e in runs:
            r.check(any(covers(e.guards, [s.guards]) for s in st), "grad-mode-remembered", where, e, "not recorded whether results carry gradients")
        for s in st:
            r.check(is_call(s.value, "is_grad_enabled") or mentions_call(s.value, "is_grad_enabled"), "grad-mode-remembered", where + "/value", s,
                    f"records {show(s.value)[:60]}")
    return v


VEC_OPT = ("_vectorized_jacobians_iter", "_vectorization_run", "_vectorization_to")


def enabled(t):
    """The condition, given that vectorization is on."""

    def f(x):
        if x.kind == "attr" and x.args[1] in ("vectorized", "_vectorized") and is_self(x.args[0]):
            return TRUE
        if is_call(x, "vectorized") and is_self(call_recv(x) or NONE):
            return TRUE
        if is_none_test(x, lambda y: y.kind == "attr" and y.args[1] in VEC_OPT):
            return FALSE
        return x

    return rebuild(t, f)


def core(v, gs):
    """guards given that vectorization is on, without: consistency assertions, normal returns of helpers, finished loops"""
    out = []
    for g, p in gs:
        if g.kind in ("implies", "forall", "loopdone"):
            continue
        g = v.c(g)
        if (g.kind in ("or", "and") and mentions_call(g, "len")) or (g.kind == "cmp" and all(
                contains(y, lambda x: x.kind == "cmp" or (x.kind == "un" and x.args[0] == "not")) for y in g.args[1:])):
            continue
        if mentions_attr(g, "_batch_size") or contains(g, lambda x: x.kind == "attr" and x.args[1] in ("_get_error_iter", "_retract_method")):
            continue
        out.append((enabled(g), p))
    return tuple(out)


def refreshers(a, v):
    return [e for e in v.events if is_run(e) or (e.kind == "call" and e.term is not None and call_name(e.term) == "update_vectorization_if_needed")]


def chk_needed(v, evs, tgt):
    """evs cover all executions in which vectorization is on and a refresh is needed"""
    alts = []
    for e in evs:
        alts.append(tuple((c, p) for c, p in core(v, e.guards) if not (
            is_run(e) and (counts_expr(c) or mentions_attr(c, "_last_vectorization_has_grad")))))
    return covers(core(v, tgt), alts)


def check_serving(a, r):
    f = a.p.method(a.p.cls("Objective"), "_get_jacobians_iter")
    if f is None:
        r.skip("refresh-before-serving", "Objective._get_jacobians_iter", "renamed")
    else:
        v = a.view("Objective", "_get_jacobians_iter")
        serve = [(gs, seq, e) for gs, seq, e in v.exits() if e is not None and mentions_attr(v.c(e.value), "_vectorized_jacobians_iter")]
        if not serve:
            r.skip("refresh-before-serving", "Objective._get_jacobians_iter", "served containers not found")
        ref = refreshers(a, v)
        for gs, seq, e in serve:
            ok = chk_needed(v, [x for x in ref if x.seq < seq], gs)
            r.check(ok, "refresh-before-serving", "Objective._get_jacobians_iter", e, "cached results are served without checking that they are current")
    # who else reads the cached containers
    cls = a.p.cls("Objective")
    for name, fn in cls.methods.items():
        if (name.startswith("_") and name != "__iter__") or name in ("disable_vectorization", "vectorized", "to", "copy"):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "_vectorized_jacobians_iter" for n in ast.walk(fn.node)):
            continue
        v = a.view_of(fn, cls)
        r.check(refreshers(a, v), "refresh-before-serving", fn.qual, v, "reads cached containers without a refresh")
    # optimizer retraction and update refresh eagerly
    v = a.view("Objective", "retract_vars_sequence")
    ref = refreshers(a, v)
    rets = [e for e in v.events if e.kind == "call" and e.term is not None and (mentions_attr(e.term.args[0], "_retract_method") or call_name(
        e.term) in ("_retract_method", "_retract_base"))]
    if rets:
        for e in rets:
            after = [x for x in ref if x.seq > e.seq]
            r.check(chk_needed(v, after, e.guards), "refresh-after-retract", "Objective.retract_vars_sequence", e,
                    "moved variables are not followed by a refresh")
    v = a.view("Objective", "update")
    ref = refreshers(a, v)
    ups = [e for e in v.calls("update") if e.loops or call_recv(e.term) is not None]
    flag = next((x for x in v.func.params if "vectorization" in x), None) if hasattr(v.func, "params") else "_update_vectorization"
    for gs, seq, e in v.exits():
        atoms = []
        for x in ref:
            for g, _ in x.guards:
                atoms_of(v.c(g), atoms)
        fl = [x for x in atoms if x.kind == "param" and not vec_guard(x)]
        r.check(chk_needed(v, [x for x in ref if x.seq < seq], list(gs) + [(x, True) for x in fl]), "refresh-after-update", "Objective.update", v,
                "updated variables are not followed by a refresh")
        for x in fl:
            d = default_of(v.func, x.args[1])
            r.check(d is True, "refresh-after-update", "Objective.update/default", v, f"off by default: {x.args[1]}={d}")
        for x in ref:
            late = [u for u in ups if u.seq > x.seq]
            r.check(not late, "refresh-after-update", "Objective.update/order", x, "refreshed before all variables are updated")
            last = [u for u in v.calls("_resolve_batch_size") if u.seq > x.seq]
            r.check(not last, "refresh-after-update", "Objective.update/batch", x, "refreshed with the previous batch size")
        break


def check_counts(a, r):
    """Every replacement of a variable's tensor is counted."""
    v = a.view("Variable", "update")
    st = v.sets("tensor")
    inc = v.sets("_num_updates")
    for e in st:
        r.check(any(covers(e.guards, [x.guards]) for x in inc), "replacement-counted", "Variable.update", e, "tensor replaced without counting")
    for e in inc:
        d = psub(poly(e.value), poly(attr(e.base, "_num_updates")))
        ok = set(d) == {()} and d[()] > 0
        r.check(ok, "count-strictly-grows", "Variable.update", e, f"becomes {show(e.value)[:60]}")


def check_modes(a, r, cb):
    meth = cb.get("vectorization_run_fn", "_vectorize")
    v = a.view("Vectorize", meth, known=inlined_known(a), inline_key="vec")
    perm = lambda t: mentions_attr(t, "_schema_dict") or mentions_attr(t, "_cost_fn_wrappers")  # noqa: E731
    full = lambda gs: [x for g, _ in gs for x in _atoms(g) if mode_atom(x)]  # noqa: E731
    stores = [e for n in ("_cached_error", "_cached_jacobians") for e in v.sets(n)]
    fills = [e for e in stores if not is_const(e.value, None)]
    clears = [e for e in stores if is_const(e.value, None)]
    if not fills:
        r.skip("error-evaluation-separate", f"Vectorize.{meth}", "stores not recognised")
        return
    for e in fills:
        b = v.c(e.base)
        for cond in ([x for x in _cond_atoms(b) if mode_atom(x)] or [None]):
            notfull = {cond: False} if cond is not None else {}
            b2 = assume(b, notfull)
            gs = list(e.guards) + [(c, p) for c, p in notfull.items()]
            if cond is None and full(e.guards):
                at = full(e.guards)[0]
                gs = list(e.guards) + [(at, False)]
            if not sat(gs):
                continue
            # in other modes the container is a fresh wrapper
            root = strip_elem(b2)
            fresh = contains(b2, lambda x: x.kind in ("inst", "make", "new") and "Wrapper" in str(x.args[0])) or (
                is_call(b2, "_CostFunctionWrapper", "copy"))
            r.check(fresh, "error-evaluation-separate", f"Vectorize.{meth}/{e.name}", e,
                    "an error-only evaluation overwrites the cached results used for jacobians")
    # full mode starts from empty containers
    atoms = []
    for e in clears + fills:
        for g, _ in e.guards:
            for x in _atoms(g):
                if mode_atom(x) and x not in atoms:
                    atoms.append(x)
    isfull = [x for x in atoms if contains(x, lambda y: y.kind == "attr" and y.args[1] == "FULL")]
    for n in ("_cached_error", "_cached_jacobians"):
        cl = [e for e in clears if e.name == n and e.loops]
        if isfull:
            ok = cl and covers([(isfull[0], True)], [nolen(e.guards) for e in cl]) if cl else False
            r.check(ok, "refresh-discards-old", f"Vectorize.{meth}/{n}", cl[0] if cl else v, "old results are kept when a refresh runs")
            first = min(e.seq for e in fills)
            r.check(all(e.seq < first for e in cl), "refresh-discards-old", f"Vectorize.{meth}/{n}/order", cl[0] if cl else v,
                    "results are discarded after being computed")
            for e in cl:
                src = [iter_source(l[1]) for l in e.loops if isinstance(l[1], Term)]
                r.check(all(perm(v.c(s)) for s in src[:1]), "refresh-discards-old", f"Vectorize.{meth}/{n}/all", e, "only some are discarded")
    # error iterator of the objective uses a mode that keeps the cache
    ek = cb.get("error_iter_fn")
    if ek:
        w = a.view("Vectorize", ek)
        t = v.c(w.result)
        for x in subterms(t):
            if is_call(x, meth):
                m = get_arg(x, 0, "mode")
                f = a.p.method(a.p.cls("Vectorize"), meth)
                r.check(m is not None and m.kind == "attr" and m.args[1] == "WEIGHTED_ERROR", "error-evaluation-mode", f"Vectorize.{ek}", w,
                        f"error evaluation uses mode {show(m) if m is not None else 'default'}")
                d = default_of(f, "mode")
                r.check(isinstance(d, ast.AST) and ast.unparse(d).endswith(".FULL"), "refresh-mode", f"Vectorize.{meth}", w,
                        "a refresh does not compute jacobians by default")


def nolen(gs):
    return tuple((g, p) for g, p in gs if g.kind not in ("implies", "forall", "loopdone"))


def strip_elem(t):
    while t.kind in ("elem", "val", "key", "sub"):
        t = t.args[0]
    return t


def mode_atom(x):
    return x.kind == "cmp" and contains(x, lambda y: y.kind == "param" and y.args[1] == "mode") or (
        x.kind == "cmp" and contains(x, lambda y: y.kind == "attr" and mentions_attr(y, "_VectorizationMode")) or contains(
            x, lambda y: y.kind == "attr" and y.args[1] in ("FULL", "WEIGHTED_ERROR", "ERROR")))


def _atoms(g):
    out = []
    atoms_of(g, out)
    return out


def _cond_atoms(t):
    out = []
    for x in subterms(t):
        if x.kind == "phi":
            for y in _atoms(x.args[0]):
                if y not in out:
                    out.append(y)
    return out


def check_to(a, r, cb):
    v = a.view("Objective", "to", known=obj_known(a), inline_key="obj")
    tos = [e for e in v.events if e.kind == "call" and e.term is not None and (call_name(e.term) == "_vectorization_to" or mentions_attr(
        e.term.args[0], "_vectorization_to"))]
    ok = tos and all(chk_off(v, gs, [e for e in tos if e.seq < seq]) for gs, seq, _ in v.exits())
    r.check(ok, "move-vectorized-containers", "Objective.to", v, "vectorized cost functions are not moved")
    for e in tos:
        r.check(forwards_all(e.term), "move-vectorized-containers", "Objective.to/args", e, "arguments are not forwarded")
    # cached results are dropped or recomputed
    st = [e for e in v.sets("_num_updates_variables") if not counts_expr(v.c(e.value))]
    runs = [e for e in v.events if is_run(e)]
    dis = v.calls("disable_vectorization")
    for e in tos:
        r.check(chk_off(v, e.guards, st + runs + dis) or any(covers(e.guards, [x.guards]) for x in st), "move-discards-cached-results", "Objective.to", e,
                "results computed before moving are still served")
    tm = cb.get("vectorized_to")
    if tm:
        w = a.view("Vectorize", tm, known=inlined_known(a), inline_key="vec")
        mv = [e for e in w.calls("to") if e.loops]
        r.check(mv, "move-vectorized-containers", f"Vectorize.{tm}", w, "nothing moved")
        for e in mv:
            src = w.c(iter_source(e.loops[0][1]))
            r.check(mentions_attr(src, "_vectorized_cost_fns") and not e.guards, "move-vectorized-containers", f"Vectorize.{tm}/all", e,
                    f"moves {show(src)[:60]}")
            r.check(forwards_all(e.term), "move-vectorized-containers", f"Vectorize.{tm}/args", e, "arguments are not forwarded")


def chk_off(v, tgt, evs):
    return covers(core(v, tgt), [core(v, e.guards) for e in evs])


def check(a, r):
    _, _, cb = callbacks(a)
    check_need(a, r)
    check_serving(a, r)
    check_counts(a, r)
    check_modes(a, r, cb)
    check_to(a, r, cb)
    loc = method_loc(a, "Objective", "update")
    r.parallel(a, [(vector.histories, (loc, n)) for n in vector.HISTORIES if n not in ("steps next to plain ones", "values of temporary evaluations")])
