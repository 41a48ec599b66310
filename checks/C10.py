"""Layout of the linear system. For the dense and the sparse linearization the
store of every jacobian block is located by dataflow (value derived from
weighted_jacobians_error) and its row / column stripes, its accumulation, the
freshness of the matrix and the sign of the right-hand side are derived
symbolically; the column layout is followed through the variable ordering, the
sparse pattern and the step that is retracted."""
from sa import linear as L
from sa.rules import *  # noqa: F401,F403

CFI = ("_get_jacobians_iter",)


def field(t):
    """name of the attribute of self a heap term stands for"""
    while t is not None:
        if t.kind == "attr" and is_self(t.args[0]):
            return t.args[1]
        if t.kind == "hv":
            return t.args[1]
        if t.kind == "loopout":
            t = t.args[1]
            continue
        if t.kind == "upd":
            t = t.args[0]
            continue
        return None
    return None


def root(t):
    """object behind updates and loop merges"""
    while t is not None and t.kind in ("upd", "loopout"):
        t = t.args[0] if t.kind == "upd" else t.args[2]
    return t


def over_all_costs(it):
    s = iter_source(it)
    if is_call(s, "enumerate", "zip") and call_pos(s):
        return any(over_all_costs(x) for x in call_pos(s))
    return is_call(s, "_get_jacobians_iter") or (s.kind == "attr" and s.args[1] == "_vectorized_jacobians_iter") or (
        is_call(s, "values") and mentions_attr(s, "cost_functions")) or (s.kind == "attr" and s.args[1] == "objective")


def as_slice(t):
    if is_call(t, "slice") and len(call_pos(t)) == 2:
        return T("slice", call_pos(t)[0], call_pos(t)[1], NONE)
    return t


def indices(e):
    return [as_slice(x) for x in (e.index.args[0] if e.index.kind == "tuple" else [e.index])]


def head(t):
    """array a term is a selection of"""
    while t is not None:
        if t.kind == "sub":
            t = t.args[0]
        elif is_call(t, "detach", "contiguous", "clone", "double", "to", "float") and call_recv(t) is not None:
            t = call_recv(t)
        else:
            return t


def heads(t):
    out = set()
    for _, c in cases(t):
        h = head(c)
        if h.kind == "bin" and h.args[0] == "+":
            h = head(h.args[1])
        if h.kind == "phi":
            out |= heads(h)
        else:
            out.add(h.args[1] if h.kind == "attr" else None)
    return out


def wje(t):
    return is_call(t, "weighted_jacobians_error")


def full_or_ellipsis(t):
    return full_slice(t) or is_const(t, Ellipsis)


def transposed(t):
    """t is X transposed on its last two dimensions -> X"""
    t = strip_detach(t)
    if is_call(t, "transpose", "swapaxes", "swapdims"):
        p = [x.args[0] if x.kind == "const" else None for x in call_pos(t)]
        kw = [x.args[0] if x.kind == "const" else None for x in call_kw(t).values()]
        if {*p, *kw} in ({1, 2}, {-1, -2}, {1, -1}, {2, -2}):
            return call_recv(t)
        return None
    if is_call(t, "permute"):
        p = call_pos(t)
        if [x.args[0] if x.kind == "const" else None for x in p] == [0, 2, 1]:
            return call_recv(t)
    if t.kind == "attr" and t.args[1] in ("mT", "mH"):
        return t.args[0]
    return None


def strip_detach(t):
    while is_call(t, "detach", "clone", "contiguous") and call_recv(t) is not None:
        t = call_recv(t)
    return t


def product(t):
    """(L, R) of a batched matrix product"""
    t = strip_detach(t)
    if t.kind == "bin" and t.args[0] == "@":
        return t.args[1], t.args[2]
    if is_call(t, "bmm", "matmul", "mm"):
        p = call_pos(t)
        rc = call_recv(t)
        if len(p) == 2:
            return p[0], p[1]
        if len(p) == 1 and rc is not None:
            return rc, p[0]
    return None


def is_field(n):
    return lambda t: field(strip_detach(t)) == n


def as_column(t):
    """vector made a column: b.unsqueeze(2) -> b"""
    if is_call(t, "unsqueeze"):
        d = get_arg(t, 0, "dim")
        if d is not None and d.kind == "const" and d.args[0] in (2, -1):
            return call_recv(t)
        return None
    if t.kind == "sub":
        return t.args[0]
    if is_call(t, "view", "reshape"):
        return call_recv(t)
    return None


def uncolumn(t):
    if is_call(t, "squeeze", "view", "reshape"):
        return call_recv(t)
    if t.kind == "sub":
        return t.args[0]
    return t


# --------------------------------------------------------------------- base
def check_base(a, r):
    v = a.view("Linearization", "__init__")
    cols = None
    ordering = "ordering"
    for e in v.sets("var_start_cols"):
        cols = v.c(e.value)
        es = entries(cols)
        if es is None:
            r.skip("columns-follow-ordering", "Linearization", show(cols)[:80])
            continue
        r.check(es, "columns-follow-ordering", "Linearization", e, "no start column is recorded")
        for x in es:
            if not x.loops:
                r.check(False, "columns-follow-ordering", "Linearization", e, "a start column is not made from the ordering")
                continue
            src = iter_source(x.loops[-1])
            ok = len(x.loops) == 1 and contains(src, lambda y: (y.kind == "attr" and y.args[1] == ordering) or p_param(y, ordering))
            r.check(ok, "columns-follow-ordering", "Linearization", e, f"columns laid out over {show(src)[:60]}")
            r.check(not x.guards, "columns-follow-ordering", "Linearization/all", e, "some variables get no columns")
            lo = x.value
            if lo.kind == "loopvar":
                init, new, _ = v.e.loopinfo.get(lo, (None, None, None))
                step = psub(poly(v.c(new)), poly(lo)) if new is not None else None
                ok = is_const(init, 0) and step is not None and len(step) == 1 and all(
                    len(m) == 1 and is_call(m[0], "dof") and c == 1 for m, c in step.items())
                r.check(ok, "column-widths-are-dofs", "Linearization", e, f"start column advances from {show(lo)[:30]} to {show(new)[:60]}")
            elif lo.kind in ("const", "param") or is_call(lo, "dof"):
                r.check(False, "column-widths-are-dofs", "Linearization", e, f"start column {show(lo)[:60]}")
            else:
                r.skip("column-widths-are-dofs", "Linearization", show(lo)[:80])
    if cols is None:
        r.skip("columns-follow-ordering", "Linearization", "var_start_cols not set in __init__")
    for e in v.sets("num_cols"):
        t = v.c(e.value)
        lv = [x for x in subterms(t) if x.kind in ("loopvar",)] + ([x for x in subterms(t) if x.kind == "loopout"])
        ok = None
        if t.kind == "loopout" and len(t.args) >= 4:
            new = t.args[3]
            ok = mentions_call(new, "dof") and is_const(t.args[2], 0)
        elif is_call(t, "sum"):
            ok = mentions_call(t, "dof")
        elif t.kind in ("const", "param"):
            ok = False
        if ok is None:
            r.skip("columns-complete", "Linearization.num_cols", show(t)[:100])
        else:
            r.check(ok, "columns-complete", "Linearization.num_cols", e, f"number of columns is {show(t)[:80]}")
    for e in v.sets("num_rows"):
        t = v.c(e.value)
        r.check(is_call(t, "dim") and mentions_attr(t, "objective") or is_call(t, "dim") or is_call(t, "sum"), "rows-complete",
                "Linearization.num_rows", e, f"number of rows is {show(t)[:60]}")
    comp = lambda t: t.kind == "attr" and t.args[1] == "complete"  # noqa: E731
    for c, m in (("Linearization", "__init__"), ("Linearization", "linearize")):
        w = v if m == "__init__" else a.view(c, m, opaque=("_linearize_hessian_impl",))
        rs = [e for e in w.raises() if any(contains(g, comp) for g, _ in e.guards)]
        ok = any(covers([(next(x for g, _ in e.guards for x in subterms(g) if comp(x)), False)], [e.guards]) for e in rs)
        r.check(ok, "incomplete-ordering-refused", f"{c}.{m}", w, "an incomplete variable ordering is accepted")
    w = a.view("Linearization", "linearize", opaque=("_linearize_hessian_impl",))
    hs = w.calls("_linearize_hessian_impl")
    r.check(hs and w.always(hs), "linearize-rebuilds", "Linearization.linearize", w, "linearize does not always rebuild the system")
    for e in hs:
        d = get_arg(e.term, 0, "_detach_hessian")
        r.check(d is not None and p_param(w.c(d), "_detach_hessian"), "linearize-rebuilds", "Linearization.linearize/detach", e,
                "the request to detach the hessian is dropped")
    # derived quantities
    for prop, impl in (("AtA", "_ata_impl"), ("Atb", "_atb_impl")):
        f = a.p.method(a.p.cls("Linearization"), prop)
        if f is None:
            continue
        w = a.view("Linearization", prop, opaque=("_ata_impl", "_atb_impl"))
        for e in w.returns():
            r.check(is_call(w.c(e.value), impl), "product-accessors", f"Linearization.{prop}", e, f"returns {show(e.value)[:60]}")


# --------------------------------------------------------------- block stores
def jac_store(v, e):
    """(J term, is plain +J) if e stores a jacobian block"""
    js = [x for x in subterms(e.value) if (x.kind in ("elem",) and wje_part(x.args[0], 0)) or (
        x.kind == "sub" and wje_part(x.args[0], 0) and not (x.args[1].kind == "const" and wje(x.args[0])))] if e.value is not None else []
    return js[0] if js else None


def wje_part(t, i):
    t = strip_wrap(t) if t.kind != "sub" else t
    return t.kind == "sub" and is_const(t.args[1], i) and wje(t.args[0])


def err_part(t):
    return contains(t, lambda x: wje_part(x, 1) or is_call(x, "weighted_error"))


def width_of_rows(v, w, cf, J, err):
    """width polynomial equals the number of rows of this cost function"""
    if len(w) != 1:
        return False
    (m, c), = w.items()
    if c != 1 or len(m) != 1:
        return False
    x = m[0]
    if is_call(x, "dim") and not call_pos(x):
        return call_recv(x) is cf
    if x.kind == "sub" and is_const(x.args[1], 1) and x.args[0].kind == "attr" and x.args[0].args[1] == "shape":
        b = x.args[0].args[0]
        return (J is not None and b is J) or wje_part(b, 1) and call_recv(b.args[0]) is cf
    if is_call(x, "size") and is_const(get_arg(x, 0, "dim"), 1):
        b = call_recv(x)
        return (J is not None and b is J) or wje_part(b, 1)
    return False


def wje_owner(J):
    for x in subterms(J):
        if wje(x):
            return call_recv(x)
    return None


def same_idx(J, other):
    """other (an index or element) is in the same position of its list as J"""
    return True


def col_of(v, J, cf, lo):
    """(ok, why) start column is that of the variable J belongs to"""
    if not mentions_attr(lo, "var_start_cols"):
        return None, ""
    subs = [x for x in subterms(lo) if x.kind == "sub" and x.args[0].kind == "attr" and x.args[0].args[1] == "var_start_cols"]
    if not subs:
        return None, ""
    ix = subs[0].args[1]
    io = [x for x in subterms(ix) if is_call(x, "index_of")]
    if not io:
        return (False, f"start column of position {show(ix)[:60]} instead of the variable's place in the ordering") if ix.kind in (
            "idx", "loopvar", "const") else (None, "")
    if ix is not io[0]:
        return False, f"start column of {show(ix)[:60]}"
    k = get_arg(io[0], 0, "key")
    if k is None or k.kind != "attr" or k.args[1] != "name":
        return None, ""
    var = k.args[0]
    if is_call(var, "optim_var_at"):
        if call_recv(var) is not cf:
            return False, "variable of another cost function"
        i = get_arg(var, 0, "index")
        return pos_matches(v, J, i), f"block {show(J)[-60:]} placed by variable {show(i)[:60]}"
    if var.kind == "sub" and mentions_attr(var.args[0], "optim_vars"):
        return pos_matches(v, J, var.args[1]), f"block placed by variable {show(var.args[1])[:60]}"
    if var.kind == "elem":
        src = iter_source(var.args[0])
        ok = src.kind == "attr" and src.args[1] == "optim_vars" and src.args[0] is cf
        return (True if ok else None), f"block placed by an element of {show(src)[:60]}"
    return None, ""


def pos_matches(v, J, i):
    """index i walks in step with J"""
    if J is None:
        return True
    if i is None:
        return None
    if J.kind == "elem":
        src = J.args[0]
        if i.kind == "idx":
            return i.args[0] is src or iter_source(i.args[0]) is iter_source(src) or is_call(i.args[0], "range") or (
                contains(i.args[0], lambda x: x.kind == "attr" and x.args[1] == "optim_vars"))
        if i.kind == "const":
            return False
        if i.kind in ("loopvar", "elem"):
            if i.kind == "loopvar":
                init, new, _ = v.e.loopinfo.get(i, (None, None, None))
                if init is not None:
                    return is_const(init, 0) and psub(poly(new), poly(i)) == {(): 1}
            return None
        if i.kind == "bin":
            return False
        return None
    if J.kind == "sub":
        return True if J.args[1] is i else (False if i.kind in ("const", "bin") or J.args[1].kind in ("const", "bin") else None)
    return None


def sinks(e):
    """values an event writes somewhere"""
    if e.kind in ("setattr", "setitem", "aug"):
        return [e.value]
    if e.kind == "mutcall":
        t = e.term if e.term is not None else e.value
        return list(call_pos(t)) + list(call_kw(t).values()) if t is not None and t.kind == "call" else [t]
    return []


def check_system(a, r, cls):
    where = f"{cls}.linearize"
    v = a.view(cls, "linearize", opaque=CFI)
    calls = [e for e in v.events if e.kind == "call" and wje(e.term)]
    r.check(calls, "weighted-jacobians-used", where, v, "no weighted jacobians in the linear system")
    for e in calls:
        lp = [l for l in e.loops if has(call_recv(e.term), l[1]) or over_all_costs(l[1])]
        if not lp:
            r.skip("every-cost-function", where, show(call_recv(e.term))[:80])
            continue
        r.check(over_all_costs(iter_source(lp[0][1])) or mentions_call(lp[0][1], "_get_jacobians_iter"), "every-cost-function", where, e,
                f"rows are built for {show(lp[0][1])[:60]}")
        gs = [(g, p) for g, p in e.guards if g.kind not in ("implies", "forall", "loopdone") and not mentions_attr(g, "complete")]
        r.check(not gs, "every-cost-function", where + "/all", e, f"only cost functions with {[show(g)[:60] for g, _ in gs]}")
    for part, what in ((0, "jacobians"), (1, "error")):
        used = any(t is not None and contains(t, lambda x: wje_part(x, part)) for e in v.events for t in sinks(e))
        if calls:
            opaque_use = any(e.kind == "call" and not wje(e.term) and any(
                contains(x, wje) and not contains(x, lambda y: wje_part(y, 0) or wje_part(y, 1))
                for x in list(call_pos(e.term)) + list(call_kw(e.term).values())) for e in v.events)
            if used or not opaque_use:
                r.check(used, "weighted-jacobians-used", f"{where}/{what}-stored", calls[0], f"the weighted {what} never reach the linear system")
            else:
                r.skip("weighted-jacobians-used", where, what)
    for e in v.events:
        if e.kind == "call" and is_call(e.term, "jacobians", "error", "weighted_error") and e.loops:
            r.check(False, "weighted-jacobians-used", where + "/unweighted", e, f"uses {call_name(e.term)}() of a cost function")
    stores = [(e, jac_store(v, e)) for e in v.setitems()]
    stores = [(e, J) for e, J in stores if J is not None]
    if not stores:
        r.skip("block-stored", where, "no store of a jacobian block found")
    rows_seen = {}
    for e, J in stores:
        cf = wje_owner(J)
        gs = [(g, p) for g, p in e.guards if g.kind not in ("implies", "forall", "loopdone") and not mentions_attr(g, "complete")]
        r.check(not gs, "block-stored", where + "/all", e, f"blocks only stored when {[show(g)[:60] for g, _ in gs]}")
        loops_J = [l for l in e.loops if J.kind == "elem" and (iter_source(l[1]) is iter_source(J.args[0]) or has(l[1], J.args[0]))]
        if J.kind == "elem":
            r.check(loops_J, "block-stored", where, e, "not one store per jacobian block")
        ix = indices(e)
        # accumulation
        t = v.c(e.value)
        pl = poly(e.value)
        coef = {m[0]: c for m, c in pl.items() if len(m) == 1}
        r.check(coef.get(J) == 1, "block-value", where, e, f"stored value is {show(e.value)[-80:]}")
        old = [x for x in coef if x.kind == "sub" and x.args[1] is e.index]
        r.check(len(pl) == 2 and old and coef[old[0]] == 1 or e.kind == "aug" or len(pl) == 1 and is_call(e.term or NONE, "add_"),
                "blocks-accumulate", where, e, "a second block for the same variable replaces the first one")
        base = e.base
        nm = field(base)
        if len(ix) == 3 and nm is not None and cls == "DenseLinearization":
            r.check(full_or_ellipsis(ix[0]), "block-rows", where + "/batch", e, f"only batch elements {show(ix[0])[:40]}")
            for k, (d, what) in enumerate(((ix[1], "block-rows"), (ix[2], "block-columns"))):
                if d.kind != "slice":
                    r.skip(what, where, show(d)[:80])
                    continue
                lo, hi = d.args[0], d.args[1]
                if k == 0:
                    kind, w = stripe(v, lo, hi)
                    if kind is None:
                        r.skip(what, where, show(d)[:80])
                        continue
                    ok = kind == "run" and width_of_rows(v, w, cf, J, None)
                    r.check(ok, what, where, e, f"rows {show(d)[:120]}")
                    rows_seen[nm] = d
                else:
                    w = psub(poly(hi), poly(lo)) if not is_const(hi, None) else {}
                    r.check(width_of_cols(w, J, cf), what, where + "/width", e, f"columns {show(d)[-80:]}")
                    ok, why = col_of(v, J, cf, lo)
                    if ok is None:
                        r.skip(what, where, show(lo)[:80])
                    else:
                        r.check(ok, what, where, e, why)
        fresh(v, r, where, e, base, calls)
    # right-hand side
    bs = [e for e in v.setitems() if e.value is not None and err_part(e.value) and jac_store(v, e) is None]
    for e in bs:
        ix = indices(e)
        er = next(x for x in subterms(e.value) if wje_part(x, 1) or is_call(x, "weighted_error"))
        r.check(poly(e.value) == {(er,): -1}, "rhs-negated", where, e, f"right-hand side is {show(e.value)[-60:]}")
        cf = wje_owner(er)
        if len(ix) == 2 and ix[1].kind == "slice":
            kind, w = stripe(v, ix[1].args[0], ix[1].args[1])
            r.check(full_or_ellipsis(ix[0]), "rhs-rows", where + "/batch", e, f"only batch elements {show(ix[0])[:40]}")
            if kind is None:
                r.skip("rhs-rows", where, show(ix[1])[:80])
            else:
                r.check(kind == "run" and width_of_rows(v, w, cf, None, er), "rhs-rows", where, e, f"rows {show(ix[1])[:100]}")
        gs = [(g, p) for g, p in e.guards if g.kind not in ("implies", "forall", "loopdone") and not mentions_attr(g, "complete")]
        r.check(not gs, "rhs-rows", where + "/all", e, f"only set when {[show(g)[:60] for g, _ in gs]}")
        fresh(v, r, where, e, e.base, calls, zero=False)
    if not bs:
        for e in v.sets("b"):
            t = v.c(e.value)
            if err_part(t):
                r.check(contains(t, lambda x: x.kind == "un" and x.args[0] == "-" or x.kind == "bin" and x.args[0] in ("-", "*")), "rhs-negated",
                        where, e, f"right-hand side is {show(t)[:80]}")
    return v


def width_of_cols(w, J, cf):
    if len(w) != 1:
        return False
    (m, c), = w.items()
    if c != 1 or len(m) != 1:
        return False
    x = m[0]
    if is_call(x, "dof"):
        return True
    if x.kind == "sub" and x.args[0].kind == "attr" and x.args[0].args[1] == "shape":
        return x.args[0].args[0] is J and x.args[1].kind == "const" and x.args[1].args[0] in (2, -1)
    if x.kind == "sub" and x.args[0].kind == "attr" and x.args[0].args[1] == "var_dims":
        return True
    if is_call(x, "size"):
        d = get_arg(x, 0, "dim")
        return call_recv(x) is J and d is not None and d.kind == "const" and d.args[0] in (2, -1)
    return False


def fresh(v, r, where, e, base, calls, zero=True):
    """the storage a block goes to is new in this linearization"""
    n = field(base)
    b = base
    while b is not None and field(b) is None:
        # views of a field
        if is_call(b, "view", "reshape", "unsqueeze", "narrow") and call_recv(b) is not None:
            b = call_recv(b)
        elif b.kind == "sub":
            b = b.args[0]
        elif b.kind in ("upd", "loopout", "loopvar"):
            b = root(b) if b.kind != "loopvar" else None
            if b is base:
                break
        else:
            break
    n = field(b) if b is not None else None
    if n is None:
        r.skip("fresh-each-time", where, show(base)[:80])
        return
    st = [s for s in v.sets(n) if s.seq < e.seq]
    alloc = [s for s in st if is_call(v.c(s.value), "zeros", "new_zeros", "zeros_like", "empty", "new_empty", "full", "new_full", "empty_like")]
    first = [s for s in alloc if not s.loops]
    r.check(first and covers((), [[(g, p) for g, p in s.guards if g.kind not in ("implies", "forall", "loopdone") and not mentions_attr(
        g, "complete")] for s in first]), "fresh-each-time", f"{where}/{n}", e,
        f"{n} may still hold entries of a previous linearization")
    for s in first:
        t = v.c(s.value)
        if zero:
            r.check(is_call(t, "zeros", "new_zeros", "zeros_like"), "fresh-each-time", f"{where}/{n}/zero", s,
                    "blocks are added to uninitialised or nonzero memory")
        if is_call(t, "zeros", "empty", "full"):
            for kw in ("dtype", "device"):
                x = get_arg(t, 99, kw)
                r.check(x is not None and mentions_attr(x, kw), "system-uses-objective-dtype", f"{where}/{n}/{kw}", s,
                        f"{n} is allocated with the default {kw}")
        dims = []
        for x in list(call_pos(t)) + list(call_kw(t).values()):
            if x.kind in ("tuple", "list"):
                dims += list(x.args[0])
            elif x.kind not in ("const",) and not mentions_attr(x, "device") and not mentions_attr(x, "dtype"):
                dims.append(x)
        if dims:
            r.check(dims[0].kind == "attr" and dims[0].args[1] == "batch_size" or (contains(dims[0], lambda x: x.kind == "attr" and x.args[
                1] in ("batch_size", "_batch_size"))), "system-shape", f"{where}/{n}", s, f"batch dimension {show(dims[0])[:40]}")
            names = [x.args[1] if x.kind == "attr" else ("len:" + (field(call_pos(x)[0]) or "") if is_call(x, "len") and call_pos(x) else None)
                     for x in dims[1:]]
            want = {"A": ["num_rows", "num_cols"], "b": ["num_rows"], "A_val": ["len:A_col_ind"]}.get(n)
            if want and all(names):
                r.check(names == want, "system-shape", f"{where}/{n}/dims", s, f"dimensions {names}")


def check_dense_products(a, r, v):
    where = "DenseLinearization.linearize"
    for nm, kind in (("_AtA", "AtA"), ("_Atb", "Atb")):
        # which attribute does the accessor serve
        w = a.view("DenseLinearization", "_ata_impl" if kind == "AtA" else "_atb_impl")
        names = {field(w.c(e.value)) for e in w.returns()}
        for n in names:
            if n is None:
                r.skip(f"{kind}-formula", where, "accessor computes the product")
                continue
            st = v.sets(n)
            r.check(st and covers((), [[(g, p) for g, p in s.guards if not mentions_attr(g, "complete") and g.kind not in (
                "implies", "forall", "loopdone")] for s in st]), f"{kind}-formula", where, st[0] if st else v,
                f"{kind} is not recomputed by every linearization")
            for s in st:
                for gs, c in cases(s.value):
                    pr = product(c)
                    if pr is None:
                        if is_const(c, None):
                            continue
                        r.skip(f"{kind}-formula", where, show(c)[:80])
                        continue
                    L, R = pr
                    LT = transposed(L)
                    okL = LT is not None and field(LT) == "A"
                    if kind == "AtA":
                        okR = field(strip_detach(R)) == "A"
                    else:
                        bb = as_column(R)
                        okR = bb is not None and field(bb) == "b"
                    r.check(okL and okR, f"{kind}-formula", where, s, f"{kind} is {shape_of(c)}")
                    # only this linearization's A
                    fresh_A = [x for x in v.sets("A")]
                    r.check(all(x.seq < s.seq for x in fresh_A), f"{kind}-formula", where + "/order", s, "computed before A is rebuilt")
                    det = is_call(c, "detach") or is_call(L, "detach") or is_call(R, "detach")
                    if kind == "AtA":
                        want = sorted({p for g, p in list(gs) + list(s.guards) if p_param(g, "_detach_hessian")})
                        r.check(det == (want == [True]) or not want and not det, "detach-when-asked", where, s,
                                "the hessian is detached in the wrong case")
                    else:
                        r.check(not det, "detach-when-asked", where + "/Atb", s, "the gradient through the right-hand side is cut")
            if kind == "AtA" and st:
                both = {tuple(sorted({p for g, p in gs if p_param(g, "_detach_hessian")})) for s in st for gs, c in cases(s.value)} | {
                    tuple(sorted({p for g, p in s.guards if p_param(g, "_detach_hessian")})) for s in st}
                r.check(any(is_call(c, "detach") or contains(c, lambda x: is_call(x, "detach")) for s in st for _, c in cases(s.value)),
                        "detach-when-asked", where + "/detached", st[0], "the hessian is never detached")
    for cls in ("DenseLinearization",):
        w = a.view(cls, "Av")
        for e in w.returns():
            pr = product(uncolumn(w.c(e.value)))
            if pr is None:
                r.skip("Av-formula", f"{cls}.Av", show(e.value)[:80])
                continue
            bb = as_column(pr[1])
            r.check(field(pr[0]) == "A" and bb is not None and bb.kind == "param", "Av-formula", f"{cls}.Av", e, f"returns {show(e.value)[:80]}")
        w = a.view(cls, "diagonal_scaling")
        for e in w.returns():
            t = w.c(e.value)
            pl = poly(t)
            ok = len(pl) == 1 and list(pl.values()) == [1] and len(next(iter(pl))) == 2 and any(x.kind == "param" for x in next(iter(pl))) and any(
                is_call(x, "diagonal") for x in next(iter(pl)))
            d = [x for x in subterms(t) if is_call(x, "diagonal")]
            if not d:
                r.skip("diagonal-formula", f"{cls}.diagonal_scaling", show(t)[:80])
                continue
            r.check(ok and field(call_recv(d[0])) == "_AtA", "diagonal-formula", f"{cls}.diagonal_scaling", e, f"returns {show(t)[:80]}")
            dims = sorted(x.args[0] % 3 for x in list(call_pos(d[0])[1:]) + [y for k, y in call_kw(d[0]).items() if k.startswith("dim")]
                          if x.kind == "const")
            r.check(dims == [1, 2], "diagonal-formula", f"{cls}.diagonal_scaling/dims", e, f"diagonal over dimensions {dims}")


def shape_of(t):
    pr = product(t)
    if pr is None:
        return show(t)[-60:]

    def n(x):
        y = transposed(x)
        if y is not None:
            return f"{field(y)}^T"
        y = as_column(x)
        return str(field(strip_detach(x)) or (field(y) if y is not None else None))
    return f"{n(pr[0])} * {n(pr[1])}"


# -------------------------------------------------------------------- sparse
def arr(t):
    """list behind np.array(list, dtype=int)"""
    while is_call(t, "array", "asarray", "tensor", "list", "as_tensor", "ndarray") and call_pos(t):
        t = call_pos(t)[0]
    return t


def check_sparse_pattern(a, r):
    cls = "SparseLinearization"
    where = f"{cls}.__init__"
    v = a.view(cls, "__init__", opaque=CFI)
    got = {}
    for e in v.sets():
        if is_self(e.base):
            got[e.name] = (e, v.c(e.value))
    raw = {}
    for e in v.sets():
        if is_self(e.base) and e.value is not None:
            raw[e.name] = arr(e.value)
    need = ("A_col_ind", "A_row_ptr", "cost_function_row_block_starts", "cost_function_stride", "cost_function_block_pointers")
    if any(n not in raw for n in need):
        r.skip("sparse-pattern", where, "pattern attributes not recognised")
        return
    obj = {n: raw[n] for n in need}
    muts = [e for e in v.events if e.kind == "mutcall" or e.kind == "aug"]

    def into(n):
        return [e for e in muts if e.base is obj[n]]
    cols, ptr, starts, stride, pointers = (into(n) for n in need)
    for n, evs in zip(need, (cols, ptr, starts, stride, pointers)):
        if not evs:
            r.skip("sparse-pattern", f"{where}/{n}", "construction not recognised")
    # one entry per cost function, in registration order
    for n, evs in (("cost_function_row_block_starts", starts), ("cost_function_stride", stride), ("cost_function_block_pointers", pointers)):
        for e in evs:
            if not e.loops:
                continue
            r.check(len(e.loops) == 1 and over_all_costs(iter_source(e.loops[0][1])), "sparse-per-cost-function", f"{where}/{n}", e,
                    "not one entry per cost function")
            gs = [(g, p) for g, p in e.guards if g.kind not in ("implies", "forall", "loopdone")]
            r.check(not gs and e.name == "append", "sparse-per-cost-function", f"{where}/{n}/all", e, "entries missing for some cost functions")
    # block starts are the fill of the column list before the block's columns
    for e in starts:
        if e.value is not None and is_call(e.value, "len"):
            r.check(call_pos(e.value)[0] is obj["A_col_ind"] and all(e.seq < x.seq for x in cols), "sparse-block-start", where, e,
                    "block start is not the number of entries before the block")
        elif e.value is not None and e.value.kind == "const":
            r.check(False, "sparse-block-start", where, e, f"block start {show(e.value)}")
    # columns repeated once per row, with a row pointer after each
    blk = None
    for e in cols:
        blk = e.value
        rows = [l for l in e.loops if is_call(l[1], "range") and contains(l[1], lambda x: is_call(x, "dim"))]
        if not rows and e.value is not None and e.value.kind == "bin" and e.value.args[0] == "*":
            continue
        r.check(rows and len(e.loops) == 2 and is_call(call_pos(rows[0][1])[-1], "dim") and len(call_pos(rows[0][1])) == 1,
                "sparse-columns-per-row", where, e, "column indices not repeated once per row of the cost function")
    for e in ptr:
        if e.value is not None and is_call(e.value, "len") and call_pos(e.value)[0] is obj["A_col_ind"]:
            r.check(any(x.loops == e.loops or [l[0] for l in x.loops] == [l[0] for l in e.loops] and x.seq < e.seq for x in cols) and all(
                x.seq < e.seq for x in cols if len(x.loops) == len(e.loops)), "sparse-row-pointer", where, e,
                "row pointer is not the end of its row")
        elif e.value is not None and e.value.kind == "const":
            r.check(is_const(e.value, 0) and not e.loops, "sparse-row-pointer", where + "/first", e, f"row pointer {show(e.value)}")
    pe = entries(got["A_row_ptr"][1] if got["A_row_ptr"][1] is not None else NONE)
    pe = entries(arr(got["A_row_ptr"][1]))
    if pe:
        r.check(is_const(pe[0].value, 0) and not pe[0].loops, "sparse-row-pointer", where + "/zero", got["A_row_ptr"][0],
                "row pointers do not start at 0")
    for e in stride:
        if e.value is not None and is_call(e.value, "len") and blk is not None:
            r.check(call_pos(e.value)[0] is blk, "sparse-stride", where, e, "stride is not the number of columns of one row")
    # column slices: start column of the variable, one dof wide
    n = 0
    for e in v.events:
        if e.kind != "mutcall" or e.value is None:
            continue
        x = e.value
        s = as_slice(x.args[0][0] if x.kind == "tuple" and x.args[0] else x)
        if s.kind != "slice" or not mentions_attr(s, "var_start_cols"):
            continue
        n += 1
        lo, hi = s.args[0], s.args[1]
        cfe = next((y for y in subterms(s) if y.kind == "elem" and over_all_costs(iter_source(y.args[0]))), None)
        io = [y for y in subterms(lo) if is_call(y, "index_of")]
        r.check(io, "sparse-block-columns", where, e, "start column does not use the variable ordering")
        w = psub(poly(hi), poly(lo))
        m = next(iter(w), ())
        okw = len(w) == 1 and w[m] == 1 and len(m) == 1 and (is_call(m[0], "dof") or mentions_attr(m[0], "var_dims"))
        r.check(okw, "sparse-block-columns", where + "/width", e, f"block width {show(hi)[-60:]}")
        pos = x.args[0][1] if x.kind == "tuple" and len(x.args[0]) == 2 else None
        for y in io:
            k = get_arg(y, 0, "key")
            if k is not None and k.kind == "attr" and k.args[1] == "name":
                var = k.args[0]
                i = get_arg(var, 0, "index") if is_call(var, "optim_var_at") else None
                if i is not None and pos is not None:
                    r.check(i is pos, "sparse-block-columns", where + "/position", e, "block remembered for another variable")
        gs = [(g, p) for g, p in e.guards if g.kind not in ("implies", "forall", "loopdone")]
        r.check(not gs, "sparse-block-columns", where + "/all", e, "blocks of some variables left out")
    if not n:
        r.skip("sparse-block-columns", where, "column slices not recognised")
    # pointers: inverse of the sort
    for e in v.setitems():
        if e.index is None or e.value is None or e.base is None or e.loops and len(e.loops) > 1:
            continue
        if mentions_call(e.value, "cumsum"):
            perm = arr(e.index)
            r.check(perm.kind in ("new", "comp", "coll") or contains(perm, lambda x: x.kind in ("new", "coll")), "sparse-pointer-permutation",
                    where, e, f"pointers stored at {show(e.index)[:60]}")
            c = v.c(e.value)
            # exclusive prefix sum
            z = [x for x in subterms(c) if is_call(x, "cumsum")]
            if z:
                fs = flatten_seq(call_pos(z[0])[0])
                drop = c.kind == "sub" and c.args[1].kind == "slice" and is_const(c.args[1].args[1], -1)
                if fs and fs[0][0] == "item":
                    r.check(is_const(fs[0][1], 0) and drop, "sparse-pointer-offsets", where, e, "block offsets are not an exclusive prefix sum")
                elif fs and fs[0][0] in ("over", "rest"):
                    r.check(not c.kind == "call" and drop is False and c.kind != "sub" and False or c is not z[0], "sparse-pointer-offsets", where, e,
                            "block offsets are an inclusive prefix sum")
    for e in pointers:
        c = e.value
        if c is not None and c.kind == "sub" and mentions_call(c.args[0], "cumsum") and c.args[1].kind != "slice":
            r.check(False, "sparse-pointer-permutation", where, e, "block pointers are permuted the wrong way")
    # sorted before use
    srt = [e for e in v.events if e.kind == "mutcall" and e.name == "sort"] + [e for e in v.events if e.kind == "call" and is_call(
        e.term, "sorted", "argsort")]
    r.check(srt, "sparse-columns-sorted", where, v, "the columns of a row are not sorted")
    for e in srt:
        r.check(e.kind != "mutcall" or all(e.seq < x.seq for x in cols), "sparse-columns-sorted", where + "/order", e, "sorted too late")
        kw = call_kw(e.term) if e.term is not None and e.term.kind == "call" else {}
        r.check(not any(k == "reverse" and not is_const(x, False) for k, x in kw.items()), "sparse-columns-sorted", where + "/reverse", e,
                "descending order")


def check_sparse_values(a, r, v):
    cls = "SparseLinearization"
    where = f"{cls}.linearize"
    stores = [(e, jac_store(v, e)) for e in v.setitems()]
    stores = [(e, J) for e, J in stores if J is not None]
    for e, J in stores:
        cf = wje_owner(J)
        ix = indices(e)
        if len(ix) == 3:
            r.check(full_or_ellipsis(ix[0]) and full_or_ellipsis(ix[1]), "sparse-block-place", where + "/rows", e, "not all rows of the block")
            d = ix[2]
            if d.kind == "slice":
                lo, hi = d.args[0], d.args[1]
                w = psub(poly(hi), poly(lo)) if not is_const(hi, None) else {}
                r.check(width_of_cols(w, J, cf), "sparse-block-place", where + "/width", e, f"columns {show(d)[-80:]}")
                pt = [x for x in subterms(lo) if x.kind == "attr" and x.args[1] == "cost_function_block_pointers"]
                ok = bool(pt) and lo.kind == "sub" and lo.args[0].kind in ("sub", "elem")
                r.check(ok, "sparse-block-place", where, e, f"block offset {show(lo)[:80]}")
                if ok:
                    pm = pos_matches(v, J, lo.args[1])
                    if pm is None:
                        r.skip("sparse-block-place", where + "/index", show(lo.args[1])[:60])
                    else:
                        r.check(pm, "sparse-block-place", where + "/index", e, f"offset of block {show(lo.args[1])[:60]}")
                    row_of_cf(v, r, where, e, lo.args[0], cf, "cost_function_block_pointers")
        # the view: A_val[:, start : start + stride * rows].view(-1, rows, stride)
        b = e.base
        while b.kind in ("upd", "loopout"):
            b = root(b)
        if b.kind == "loopvar":
            init = v.e.loopinfo.get(b, (None,))[0]
            b = init if init is not None else b
        vw = next((x for x in subterms(b) if is_call(x, "view", "reshape")), None)
        if vw is None or call_recv(vw).kind != "sub":
            r.skip("sparse-block-view", where, show(b)[:80])
            continue
        sub = call_recv(vw)
        sx = list(sub.args[1].args[0]) if sub.args[1].kind == "tuple" else [sub.args[1]]
        dims = call_pos(vw)
        if len(dims) == 1 and dims[0].kind in ("tuple", "list"):
            dims = dims[0].args[0]
        if len(sx) != 2 or sx[1].kind != "slice" or len(dims) != 3:
            r.skip("sparse-block-view", where, show(vw)[:80])
            continue
        lo, hi = sx[1].args[0], sx[1].args[1]
        w = psub(poly(hi), poly(lo))
        rw, st = dims[1], dims[2]
        prod = {}
        for m1, c1 in poly(rw).items():
            for m2, c2 in poly(st).items():
                k = tuple(sorted(m1 + m2, key=lambda x: x.id if hasattr(x, "id") else id(x)))
                prod[k] = prod.get(k, 0) + c1 * c2
        norm = lambda d: {frozenset(m): c for m, c in d.items() if c}  # noqa: E731
        r.check(norm(w) == norm(prod) and full_or_ellipsis(sx[0]), "sparse-block-view", where, e,
                "the block of entries is not rows x stride")
        r.check(is_call(rw, "dim") and call_recv(rw) is cf or width_of_rows(v, poly(rw), cf, J, None), "sparse-block-view", where + "/rows", e,
                f"rows of the view: {show(rw)[:60]}")
        r.check(mentions_attr(st, "cost_function_stride"), "sparse-block-view", where + "/stride", e, f"stride {show(st)[:60]}")
        r.check(mentions_attr(lo, "cost_function_row_block_starts"), "sparse-block-view", where + "/start", e, f"start {show(lo)[:60]}")
        row_of_cf(v, r, where, e, st, cf, "cost_function_stride")
        row_of_cf(v, r, where, e, lo, cf, "cost_function_row_block_starts")
    # lazily computed products are forgotten
    for n in ("_Atb", "_AtA_diag"):
        used = False
        for m in ("_atb_impl", "diagonal_scaling"):
            w = a.view(cls, m)
            lazy = [e for e in w.sets(n) if any(is_none_test(x, lambda y: y.kind == "attr" and y.args[1] == n) for x in guard_atoms(e))]
            used = used or bool(lazy)
        if used:
            st = [e for e in v.sets(n) if is_const(v.c(e.value), None)]
            r.check(st and covers((), [[(g, p) for g, p in e.guards if g.kind not in ("implies", "forall", "loopdone") and not mentions_attr(
                g, "complete")] for e in st if not e.loops]), "lazy-products-reset", f"{where}/{n}", st[0] if st else v,
                f"{n} of a previous linearization is served")
    st = v.sets("detached_hessian")
    r.check(st and any(p_param(v.c(e.value), "_detach_hessian") for e in st), "detach-when-asked", where, v,
            "the request to detach the hessian is not recorded")


def row_of_cf(v, r, where, e, t, cf, n):
    """t picks the entry of the per-cost-function list n for cf"""
    if t.kind == "sub" and t.args[0].kind == "attr" and t.args[0].args[1] == n:
        i = t.args[1]
        if i.kind == "idx":
            r.check(over_all_costs(iter_source(i.args[0])), "sparse-entry-of-cost-function", f"{where}/{n}", e, f"entry {show(i)[:60]}")
        elif i.kind == "loopvar":
            init, new, _ = v.e.loopinfo.get(i, (None, None, None))
            r.check(is_const(init, 0) and psub(poly(new), poly(i)) == {(): 1}, "sparse-entry-of-cost-function", f"{where}/{n}", e,
                    f"entry {show(i)[:60]}")
        elif i.kind in ("const", "bin"):
            r.check(False, "sparse-entry-of-cost-function", f"{where}/{n}", e, f"entry {show(i)[:60]}")
        else:
            r.skip("sparse-entry-of-cost-function", f"{where}/{n}", show(i)[:60])


def check_sparse_products(a, r):
    cls = "SparseLinearization"

    def mentions(t, n):
        return t is not None and mentions_attr(t, n)
    for m, fn, vals in (("_atb_impl", "sparse_mtv", ("A_val", "b")), ("Av", "sparse_mv", ("A_val", None))):
        v = a.view(cls, m)
        calls = v.calls(fn)
        if not calls:
            r.skip("sparse-product", f"{cls}.{m}", f"{fn} not used")
        other = v.calls({"sparse_mtv": "sparse_mv", "sparse_mv": "sparse_mtv"}[fn])
        r.check(not other, "sparse-product", f"{cls}.{m}/kind", other[0] if other else v, "product with the wrong side of the matrix")
        for e in calls:
            kw = list(call_pos(e.term)) + list(call_kw(e.term).values())
            args = call_pos(e.term)
            if len(args) >= 5:
                want = ("num_cols", "A_row_ptr", "A_col_ind", "A_val")
                for i, n in enumerate(want):
                    x = v.c(args[i])
                    extra = [k for k in ("num_rows", "A_row_ptr", "A_col_ind", "A_val", "num_cols") if k != n]
                    lst = [y for y in subterms(x) if y.kind == "attr" and y.args[1] in extra]
                    lst = [y for y in lst if not (n == "A_col_ind" and y.args[1] == "A_row_ptr")]
                    r.check(mentions_attr(x, n) and not lst, "sparse-product", f"{cls}.{m}/{n}", e, f"argument {i} is {show(x)[:60]}")
                last = v.c(args[4])
                r.check(mentions(last, vals[1]) if vals[1] else contains(last, lambda y: y.kind == "param"), "sparse-product",
                        f"{cls}.{m}/vector", e, f"multiplies {show(last)[:60]}")
    v = a.view(cls, "structure")
    for e in v.returns():
        t = e.value
        if t.kind == "inst":
            mk = [x for x in v.events if x.kind == "call" and x.value is t]
            t = mk[0].term if mk and mk[0].term is not None else t
        if t.kind in ("call", "make"):
            want = {"col_ind": "A_col_ind", "row_ptr": "A_row_ptr", "num_rows": "num_rows", "num_cols": "num_cols"}
            pos = list(call_pos(t)) if t.kind == "call" else []
            kw = call_kw(t) if t.kind == "call" else {}
            for i, (p, n) in enumerate(want.items()):
                x = kw.get(p) or (pos[i] if i < len(pos) else None)
                if x is None:
                    r.skip("sparse-structure", f"{cls}.structure/{p}", "argument not found")
                    continue
                r.check(field(x) == n, "sparse-structure", f"{cls}.structure/{p}", e, f"{p} is {show(x)[:40]}")
    v = a.view(cls, "diagonal_scaling")
    acc = [e for e in v.setitems() + [e for e in v.events if e.kind == "aug"] if e.value is not None and mentions_attr(v.c(e.value), "A_val")]
    for e in acc:
        pw = [x for x in subterms(e.value) if (x.kind == "bin" and x.args[0] == "**" and is_const(x.args[2], 2)) or is_call(x, "square", "pow")
              or (x.kind == "bin" and x.args[0] == "*" and x.args[1] is x.args[2])]
        r.check(pw, "sparse-diagonal", f"{cls}.diagonal_scaling", e, f"adds {show(e.value)[-60:]} instead of squares")
        pl = poly(e.value)
        r.check(len(pl) == 2, "sparse-diagonal", f"{cls}.diagonal_scaling/sum", e, "entries of one column do not add up")
    for e in v.returns():
        t = v.c(e.value)
        r.check(contains(t, lambda x: x.kind == "param" and x.args[1] == "v") or contains(t, lambda x: x.kind == "param"), "sparse-diagonal",
                f"{cls}.diagonal_scaling/result", e, "the vector is not scaled")


# ------------------------------------------------------------------ the step
def check_step(a, r):
    """The step is split by the ordering of the linearization that was solved."""
    def own(t):
        return t.kind == "attr" and t.args[1] == "ordering" and (mentions_attr(t, "linearization"))
    for cn in ("LinearOptimizer", "NonlinearLeastSquares"):
        base = a.p.cls(cn)
        for cls in a.p.subclasses(base, strict=False):
            init = a.p.method(cls, "__init__")
            if cn == "NonlinearLeastSquares":
                v = a.view(cls, "__init__")
                for e in v.sets("ordering"):
                    r.check(own(v.c(e.value)), "step-split-by-own-ordering", f"{cls.name}.ordering", e, f"ordering is {show(e.value)[:60]}")
                st = v.sets("_tmp_optim_vars")
                for e in st:
                    t = v.c(e.value)
                    es = entries(t)
                    if es:
                        for x in es:
                            if x.loops:
                                s = iter_source(x.loops[-1])
                                r.check(contains(s, lambda y: y.kind == "attr" and y.args[1] == "ordering"), "step-split-by-own-ordering",
                                        f"{cls.name}._tmp_optim_vars", e, f"scratch variables follow {show(s)[:60]}")
            m = "_optimize_impl" if cn == "LinearOptimizer" else None
            if m:
                v = a.view(cls, m)
                rt = v.calls("retract_vars_sequence")
                sv = v.calls("solve")
                ln = v.calls("linearize")
                r.check(rt, "step-retracted", f"{cls.name}.{m}", v, "the step is not applied")
                for e in rt:
                    d, o = get_arg(e.term, 0, "delta"), get_arg(e.term, 1, "ordering")
                    r.check(d is not None and is_call(v.c(d), "solve"), "step-retracted", f"{cls.name}.{m}/delta", e, f"retracts {show(d)[:60]}")
                    if o is not None and o.kind == "attr":
                        r.check(own(v.c(o)), "step-split-by-own-ordering", f"{cls.name}.{m}", e, f"split by {show(o)[:60]}")
                for e in sv:
                    r.check(any(x.seq < e.seq for x in ln), "linearized-before-solving", f"{cls.name}.{m}", e, "solves a stale system")
    # solvers use their own linearization
    for cls in a.p.subclasses(a.p.cls("LinearSolver"), strict=True):
        f = a.p.method(cls, "solve")
        if f is None or a.p.is_abstract(cls):
            continue
        try:
            v = a.view(cls, "solve")
        except Exception as ex:  # noqa: BLE001
            r.skip("solver-uses-own-system", cls.name, str(ex)[:60])
            continue
        used = [e for e in v.events if e.term is not None and any(mentions_attr(v.c(e.term), n) for n in ("AtA", "Atb", "A_val", "b"))]
        bad = [x for e in used for x in subterms(v.c(e.term)) if x.kind == "attr" and x.args[1] in ("AtA", "Atb", "A_val") and not mentions_attr(
            x.args[0], "linearization")]
        if used:
            r.check(not bad, "solver-uses-own-system", cls.name, used[0], f"uses {show(bad[0])[:40]}" if bad else "")
    # dense: solves AtA x = Atb
    for cls in a.p.subclasses(a.p.cls("DenseSolver"), strict=True):
        if a.p.is_abstract(cls):
            continue
        v = a.view(cls, "solve")
        n = 0
        for e in v.events:
            if e.kind != "call":
                continue
            t = v.c(e.term)
            p = list(call_pos(t))
            rc = call_recv(t)
            ch = None
            if is_call(t, "solve") and not (rc is not None and is_self(rc)) and p:
                p = ([rc] if rc is not None and rc.kind not in ("mod", "ext") and "linalg" not in show(rc) else []) + p
                lhs, rhs = p[0], p[1] if len(p) > 1 else NONE
            elif is_call(t, "cholesky_solve"):
                p = ([rc] if rc is not None and rc.kind not in ("mod", "ext") and show(rc) != "torch" else []) + p
                rhs, ch = p[0], p[1] if len(p) > 1 else NONE
                fac = [x for x in subterms(ch) if is_call(x, "cholesky", "cholesky_ex")]
                if not fac:
                    continue
                q = list(call_pos(fac[0])) or [call_recv(fac[0])]
                lhs = q[0]
            else:
                continue
            n += 1
            hl, hr = heads(lhs), heads(rhs)
            if None in hl | hr:
                r.skip("normal-equations", cls.name, f"{show(lhs)[:40]} x = {show(rhs)[:40]}")
                continue
            r.check(hl == {"AtA"} and hr == {"Atb"}, "normal-equations", cls.name, e, f"solves {sorted(hl)} x = {sorted(hr)}")
            if ch is not None:
                up = get_arg(t, 1, "upper")
                upc = get_arg(fac[0], 1, "upper")
                r.check((up is None or is_const(up, False)) == (upc is None or is_const(upc, False)), "normal-equations",
                        cls.name + "/triangle", e, "triangular factor used as the other triangle")
        if not n:
            r.skip("normal-equations", cls.name, "solve not recognised")


def check(a, r):
    check_base(a, r)
    v = check_system(a, r, "DenseLinearization")
    check_dense_products(a, r, v)
    check_sparse_pattern(a, r)
    w = check_system(a, r, "SparseLinearization")
    check_sparse_values(a, r, w)
    check_sparse_products(a, r)
    check_step(a, r)
    r.parallel(a, [(f, ()) for f in (L.assembled, L.normal_equations)])
