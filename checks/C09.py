"""Masked or rejected batch elements are never moved: flow of the ignore mask into
every store made by a retraction, stripe layout of the step over the ordering, and
flow of converged / rejected masks through the nonlinear optimizers."""
from sa import runs
from sa.rules import *  # noqa: F401,F403
from checks.C07 import callbacks, inlined_known

CORE = ("implies", "forall", "loopdone")


def pname(v, i):
    ps = [p for p in v.func.params if p != "self"]
    return ps[i] if i < len(ps) else None


def relevant(gs, names):
    """guards that talk about the mask / force parameters"""
    return tuple((g, p) for g, p in gs if any(mentions_param(g, n) for n in names))


def mask_rules(v, r, where, e, mask, force):
    """e is an update of an ordered variable."""
    none = T("cmp", "is", NONE, mask)
    m = get_arg(e.term, 1, "batch_ignore_mask")
    masked_case = [(none, False), (force, False)]
    gs = list(e.guards)
    for g2, mv in cases(v.c(m)) if m is not None else [((), NONE)]:
        g = [x for x in gs + list(g2) if x[0].kind not in CORE]
        if sat(g + masked_case):
            r.check(mv is mask, "mask-reaches-store", where, e,
                    f"a masked retraction stores with mask {show(mv)[:60]}")
        if sat(g + [(none, False), (force, True)]):
            r.check(is_const(mv, None), "force-moves-all", where, e, "a forced retraction is still masked")


def check_plain(a, r):
    v = a.view("Objective", "_retract_base")
    run(a, r, v, "Objective._retract_base")


def run(a, r, v, where):
    f = v.func
    pp = {n: next((x for e in v.events for x in subterms(e.term or NONE) if p_param(x, n)), None) for n in f.params}
    delta_n, ord_n, mask_n, force_n = ([p for p in f.params if p != "self"] + [None] * 4)[:4]
    mask = T("param", f.qual, mask_n)
    force = T("param", f.qual, force_n)
    delta = T("param", f.qual, delta_n)
    order = T("param", f.qual, ord_n)
    ups = []
    for e in v.calls("update"):
        rc = call_recv(e.term)
        if rc.kind in ("elem", "sub", "val") and has(v.c(rc), order):
            ups.append(e)
    stores = [e for e in v.events if e.kind == "setattr" and e.name == "tensor"]
    for e in stores:
        r.check(False, "stores-go-through-update", where, e, "variable tensor replaced directly")
    if not ups:
        if not any(has(v.c(e.term), order) for e in v.events if e.term is not None):
            r.bad("every-variable-moved", where, v, "the ordering is not used")
        elif any(is_call(e.term, "retract") for e in v.events if e.kind == "call") and not v.calls("update", "copy_"):
            r.bad("every-variable-moved", where, v, "retracted values are never stored")
        else:
            r.skip("every-variable-moved", where, "updates of ordered variables not recognised")
        return
    final = []
    for e in ups:
        x = get_arg(e.term, 0, "data")
        if x is not None and mentions_call(v.c(x), "retract"):
            final.append(e)
    r.check(final, "every-variable-moved", where, v, "retracted values never stored")
    if not final:
        return
    r.check(covers((), [tuple(g for g in e.guards if g[0].kind not in CORE and not is_assert_guard(g[0])) for e in final]), "every-variable-moved",
            where + "/all", final[0], "some variables or cases are never updated")
    for e in final:
        mask_rules(v, r, where, e, mask, force)
        x = v.c(get_arg(e.term, 0, "data"))
        tgt = call_recv(e.term)
        rets = [y for y in subterms(x) if is_call(y, "retract")]
        direct = [y for y in rets if call_recv(y) is tgt or call_recv(y) is v.c(tgt)]
        if direct:
            r.check(iter_source(tgt.args[0]) is order, "every-variable-moved", where + "/order", e, f"iterates {show(tgt.args[0])[:60]}")
            plain_slice(v, r, where, e, get_arg(direct[0], 0, "delta"), delta, v.c(tgt))
        else:
            grouped(a, v, r, where, e, x, rets, delta, order, tgt)


def is_assert_guard(g):
    return g.kind == "cmp" and mentions_attr(g, "shape") or (g.kind in ("or", "and", "phi") and mentions_attr(g, "shape"))


def plain_slice(v, r, where, e, d, delta, var):
    d = v.c(d)
    sl = [(b, ix) for b, ix in slices_of(d) if b is delta]
    if not sl:
        if d is delta:
            r.bad("own-slice-of-step", where, e, "every variable gets the whole step")
        else:
            r.skip("own-slice-of-step", where, show(d)[:100])
        return
    for b, ix in sl:
        ok = len(ix) == 2 and full_slice(ix[0]) and ix[1].kind == "slice"
        if len(ix) == 2 and not full_slice(ix[0]):
            r.bad("own-slice-of-step", where + "/batch", e, f"not all batch elements of the step are used: {show(ix[0])}")
            continue
        if not ok:
            r.skip("own-slice-of-step", where, f"{[show(i) for i in ix]}"[:100])
            continue
        kind, w = stripe(v, ix[1].args[0], ix[1].args[1])
        if kind is None:
            r.skip("own-slice-of-step", where, show(ix[1])[:100])
            continue
        good = kind == "run" and len(w) == 1 and all(len(m) == 1 and is_call(m[0], "dof") and call_recv(m[0]) is var and k == 1 for m, k in w.items())
        r.check(good, "own-slice-of-step", where, e,
                f"variable i does not get its own dof() consecutive columns of the step: {show(ix[1])[:120]}")


def grouped(a, v, r, where, e, x, rets, delta, order, tgt):
    app = [y for y in v.events if y.kind in ("call", "mutcall") and y.term is not None and call_name(y.term) == "append" and y.loops
           and iter_source(y.loops[0][1]) is order]
    var_apps = [y for y in app if call_pos(y.term) and call_pos(y.term)[0].kind == "elem" and iter_source(call_pos(y.term)[0].args[0]) is order]
    del_apps = [y for y in app if call_pos(y.term) and has(v.c(call_pos(y.term)[0]), delta)]
    if not var_apps or not del_apps:
        r.skip("own-slice-of-step", where, "grouping not recognised")
        return
    ve = call_pos(var_apps[0].term)[0]
    for y in del_apps:
        plain_slice(v, r, where, y, call_pos(y.term)[0], delta, ve)
    for y in var_apps + del_apps:
        gs = [g for g in y.guards if g[0].kind not in CORE and not is_assert_guard(g[0])]
        r.check(covers((), [tuple(gs)]), "variables-and-steps-in-lockstep", where, y, "some variables are left out")
    kv, kd = group_key(v, var_apps[0]), group_key(v, del_apps[0])
    if kv is None or kd is None:
        r.skip("variables-and-steps-in-lockstep", where, "group not recognised")
    else:
        r.check(kv[0] is kd[0], "variables-and-steps-in-lockstep", where + "/key", var_apps[0], "variable and step go to different groups")
        r.check(kv[1] is not kd[1], "variables-and-steps-in-lockstep", where + "/lists", var_apps[0], "variable and step go to the same list")
        key = kv[0]
        cls = contains(key, lambda z: (z.kind == "attr" and z.args[1] == "__class__" and z.args[0] is ve) or is_call(z, "type"))
        r.check(cls, "groups-share-class-and-dof", where, var_apps[0], "variables of different classes are retracted together")
        dof = contains(key, lambda z: is_call(z, "dof") or (z.kind == "attr" and z.args[1] == "shape"))
        r.check(dof, "groups-share-class-and-dof", where + "/dof", var_apps[0], "variables of different dof are retracted together")
    # container and result
    for y in rets:
        rc = call_recv(y)
        d = get_arg(y, 0, "delta")
        if is_call(d, "cat", "concat", "concatenate", "vstack"):
            dim = get_arg(d, 1, "dim")
            r.check(dim is None or is_const(dim, 0), "stacked-along-batch", where, e, f"steps stacked along {show(dim) if dim is not None else ''}")
            parts = get_arg(d, 0, "tensors")
            if kd is not None and parts.kind == "sub" and kd[1].kind == "const":
                r.check(parts.args[1] is kd[1], "stack-of-own-group", where, e, f"step stacked from {show(parts.args[1])}")
        cont = [z for z in v.calls("update") if v.c(call_recv(z.term)) is rc]
        r.check(cont, "container-holds-current-values", where, e, "the stacked variable is not filled with the current tensors")
        for z in cont:
            c = v.c(get_arg(z.term, 0, "data"))
            r.check(z.seq < e.seq, "container-holds-current-values", where + "/order", z, "filled too late")
            if is_call(c, "cat", "concat", "concatenate", "vstack"):
                dim = get_arg(c, 1, "dim")
                r.check(dim is None or is_const(dim, 0), "stacked-along-batch", where + "/tensor", z, f"along {show(dim) if dim is not None else ''}")
                es = entries(get_arg(c, 0, "tensors"))
                if es:
                    for en in es:
                        r.check(en.value.kind == "attr" and en.value.args[1] == "tensor" and not en.guards, "container-holds-current-values",
                                where + "/all", z, show(en.value)[:60])
                        src = [iter_source(s) for s in en.loops]
                        r.check(any(s is iter_source(v.c(tgt.args[0])) for s in src), "stack-and-slice-same-order", where, z,
                                "stacked in another order than the results are distributed")
        fresh = [z for z in v.events if z.kind == "setitem" or (z.kind == "call" and z.term is not None and call_name(z.term) == "setdefault")]
        for z in fresh:
            if z.kind == "setitem" and z.loops and iter_source(z.loops[0][1]) is order and kv is not None and v.c(z.index) is kv[0]:
                ins = [x for x in guard_atoms(z) if cmp_of(x, "in", lambda q: v.c(q) is kv[0], ANY)]
                r.check(ins and not sat([g for g in z.guards if g[0].kind not in CORE] + [(ins[0], True)]), "groups-keep-their-members", where, z,
                        "a group is replaced when another variable of the same kind comes")
            c = v.c(z.value) if z.kind == "setitem" else v.c(call_pos(z.term)[-1])
            if c.kind in ("tuple", "list") and c.args[0] and (c.args[0][0] is ve or (rc.kind == "sub" and rc.args[1].kind == "const" and c.args[0][
                    rc.args[1].args[0]] is ve)):
                r.check(False, "container-is-a-copy", where, z, "the group's container is one of the variables itself")
    # slices of the result
    sl = [(b, ix) for b, ix in slices_of(x) if any(has(b, y) for y in rets)]
    for b, ix in sl:
        if ix[0].kind != "slice":
            continue
        kind, w = stripe(v, ix[0].args[0], ix[0].args[1])
        if kind is None:
            r.skip("result-slice", where, show(ix[0])[:80])
            continue
        good = kind in ("run", "grid") and len(w) == 1 and all(len(m) == 1 and k == 1 and (mentions_attr(v.c(m[0]), "shape") or mentions_attr(
            v.c(m[0]), "batch_size")) for m, k in w.items())
        r.check(good, "result-slice", where, e, f"variable i does not get rows i*batch..(i+1)*batch: {show(ix[0])[:100]}")
        r.check(all(full_slice(z) for z in ix[1:]), "result-slice", where + "/data", e, "only part of the data is stored")


def group_key(v, e):
    rc = call_recv(e.term)
    t = v.c(rc)
    if t.kind == "sub" and t.args[0].kind == "sub":
        return t.args[0].args[1], t.args[1]
    if t.kind == "sub" and is_call(t.args[0], "setdefault", "get"):
        return call_pos(t.args[0])[0], t.args[1]
    if t.kind == "sub":
        return t.args[1], t.args[0]
    return None


def check_forward(a, r, cb):
    v = a.view("Objective", "retract_vars_sequence")
    ev = [e for e in v.events if e.kind == "call" and e.term is not None and (mentions_attr(e.term.args[0], "_retract_method") or call_name(
        e.term) == "_retract_method")]
    names = [p for p in v.func.params if p != "self"]
    r.check(ev and v.always(ev), "arguments-forwarded", "Objective.retract_vars_sequence", v, "retraction method not always called")
    for e in ev:
        for i, n in enumerate(names):
            t = get_arg(e.term, i, n)
            r.check(t is not None and p_param(t, n), "arguments-forwarded", f"Objective.retract_vars_sequence/{n}", e,
                    f"{n} becomes {show(t)[:50] if t is not None else 'its default'}")
    f1 = a.p.method(a.p.cls("Objective"), "_retract_base")
    f2 = a.p.method(a.p.cls("Vectorize"), cb["vectorized_retract_fn"]) if "vectorized_retract_fn" in cb else None
    for f in (f1, f2):
        if f is not None:
            ps = [p for p in f.params if p != "self"]
            r.check(ps == names, "arguments-forwarded", f.qual + "/signature", f.loc if isinstance(f.loc, str) else str(f.loc), f"parameters {ps}")
    d = default_of(v.func, names[3]) if len(names) > 3 else False
    r.check(d is False, "masked-by-default", "Objective.retract_vars_sequence", v, "forces updates by default")


def check_optimizers(a, r):
    base = a.p.cls("NonlinearLeastSquares")
    known = None
    keep = {"update", "retract_vars_sequence", "error_metric", "error", "_complete_step", "compute_delta", "linearize", "solve", "_check_convergence",
            "_update_info", "reset"}
    if a.known is not None:
        known = {x for x in a.known if ".nonlinear_least_squares." not in x or x.rsplit(".", 1)[1] in keep}
    seen = set()
    for cls in a.p.subclasses(base, strict=False):
        f = a.p.method(cls, "_optimize_loop")
        st = a.p.method(cls, "_step")
        k = (f.qual if f else None, st.qual if st else None)
        if f is None or k in seen:
            continue
        seen.add(k)
        v = a.view(cls, "_optimize_loop", known=known, opaque=("_complete_step", "_check_convergence", "_update_info"), inline_key="nls")
        where = f"{cls.name}._optimize_loop"
        rets = v.calls("retract_vars_sequence")
        r.check(rets, "optimizer-retracts-with-mask", where, v, "no retraction found")
        for e in rets:
            m = get_arg(e.term, 2, "ignore_mask")
            fo = get_arg(e.term, 3, "force_update")
            r.check(m is not None and not is_const(m, None), "optimizer-retracts-with-mask", where, e, "converged batch elements are not masked")
            for gs, c in cases(v.c(m)) if m is not None and v.c(m).kind in ("phi", "or", "and") else ():
                if c.kind == "loopvar" or contains(c, lambda y: y.kind == "loopvar"):
                    m = c if c.kind == "loopvar" else m
                elif is_const(c, None):
                    g = [(x, p) for x, p in gs] + [(v.c(x), p) for x, p in e.guards]
                    free = [x for q, _ in g for x in q_atoms(q) if (is_call(x, "any") and contains(x, lambda y: y.kind == "loopvar"))]
                    forced = [x for q, _ in g for x in q_atoms(q) if p_param(x, "_last_implicit_diff_step")]
                    none = [x for q, _ in g for x in q_atoms(q) if is_none_test(x, lambda y: y.kind in ("loopvar", "param"))]
                    ok = (free and not sat(g + [(free[0], True)])) or (forced and not sat(g + [(forced[0], False)])) or (
                        none and not sat(g + [(none[0], False)]))
                    r.check(ok, "optimizer-retracts-with-mask", where + "/unmasked", e,
                            f"converged batch elements are moved when {[(show(x)[:60], p) for x, p in gs]}")
            if m is not None and m.kind == "loopvar":
                init, new, _ = v.e.loopinfo[m]
                r.check(any(is_call(y, "_check_convergence") for y in subterms(v.c(new))), "mask-is-convergence", where, e,
                        f"mask is {show(new)[:80]}")
                z = v.c(init)
                r.check(any(is_call(y, "zeros_like", "zeros") for y in subterms(z)) and not contains(z, lambda y: y.kind == "un" and y.args[
                    0] in ("not", "~")), "mask-starts-empty", where, e, f"mask starts as {show(z)[:60]}")
            elif m is not None and m.kind != "param":
                r.skip("mask-is-convergence", where, show(m)[:80])
            if fo is not None:
                for gs, c in cases(v.c(fo)):
                    if is_const(c, True):
                        r.check(any(p and mentions_param(g, "_last_implicit_diff_step") for g, p in gs), "force-only-for-implicit-step", where, e,
                                "masks are overridden in ordinary iterations")
                    elif is_const(c, False):
                        pass
                    elif c.kind == "param":
                        pass
            r.check(fo is not None and contains(v.c(fo), lambda y: p_param(y, "_last_implicit_diff_step")), "implicit-step-forced", where, e,
                    "the differentiable step of implicit differentiation skips converged batch elements")
            # the retracted variables are scratch copies
            o = get_arg(e.term, 1, "ordering")
            fill = [x for x in v.calls("update") if x.loops and x.seq < e.seq and has(v.c(x.loops[-1][1]), o)]
            r.check(fill, "trial-starts-from-current-values", where, e, "scratch variables are not refreshed before the trial step")
            r.check(o is not None and not (o.kind == "attr" and o.args[1] == "ordering"), "trial-step-on-copies", where, e,
                    "the objective's own variables are moved before the step is accepted")
        ups = [e for e in v.calls("update") if mentions_attr(call_recv(e.term), "objective")]
        rej = v.calls("_complete_step")
        r.check(ups, "accepted-steps-stored", where, v, "the trial step is never written to the objective")
        if ups:
            rr = [x for e in v.events for g, _ in e.guards for x in q_atoms(g) if mentions_call(v.c(x), "_complete_step")]
            none = [x for x in rr if is_none_test(x, lambda y: True)]
            alls = [x for x in rr if is_call(x, "all")]
            own = [[(g, p) for g, p in e.guards if any(mentions_call(v.c(x), "_complete_step") for x in q_atoms(g))] for e in ups]
            for tgt in ([(none[0], True)] if none else None, [(x, False) for x in none[:1] + alls[:1]] if alls else None):
                if tgt:
                    r.check(covers(tgt, own), "accepted-steps-stored", where + "/when", ups[0], "accepted steps are not stored")
        for e in rej:
            ne, pe = get_arg(e.term, 1, "new_err"), get_arg(e.term, 2, "previous_err")
            if ne is not None and pe is not None:
                r.check(mentions_call(v.c(ne), "error_metric"), "acceptance-compares-own-errors", where + "/new", e, f"new error is {show(ne)[:60]}")
                r.check(mentions_attr(v.c(pe), "last_err"), "acceptance-compares-own-errors", where + "/previous", e,
                        f"previous error is {show(pe)[:60]}")
        for e in v.calls("error_metric"):
            it = get_arg(e.term, 0, "input_tensors")
            if it is not None and not is_const(it, None):
                au = get_arg(e.term, 1, "also_update")
                d = default_of(a.p.method(a.p.cls("Objective"), "error_metric"), "also_update")
                r.check(is_const(au, False) if au is not None else d is False, "trial-error-leaves-no-trace", where, e,
                        "evaluating the trial step already stores it, rejected elements included")
        for e in ups:
            m = get_arg(e.term, 1, "batch_ignore_mask")
            mm = v.c(m) if m is not None else None
            ok = mm is not None
            for gs, c in cases(mm) if mm is not None else []:
                if is_const(c, None):
                    g = list(gs) + list(e.guards)
                    forced = [x for q, _ in g for x in q_atoms(q) if p_param(x, "_last_implicit_diff_step") or "forced" in show(x)]
                    ok = ok and bool(forced) and not sat(g + [(forced[0], False)])
                else:
                    ok = ok and mentions_call(c, "_complete_step")
            r.check(ok, "rejected-elements-masked", where, e, f"rejected elements are updated (mask {show(m)[:60] if m is not None else 'missing'})")
            d = get_arg(e.term, 0, "input_tensors")
            src = entries(v.c(d)) if d is not None else None
            if src:
                for en in src:
                    if en.kind == "kv":
                        r.check(en.value.kind == "attr" and en.value.args[1] == "tensor" and mentions_attr(en.key, "name") and any(
                            y is en.value.args[0] for y in subterms(en.key)), "accepted-step-is-the-trial-step", where, e, show(en.value)[:60])
        # error reported after partial rejection is recomputed
        em = v.calls("error_metric")
        late = [e for e in em if any(e.seq > u.seq for u in ups)]
        if rej and ups:
            r.check(late, "error-after-rejection", where, ups[0], "after rejecting some elements the error of the trial step is kept for all")
            for e in late:
                at = [x for x in guard_atoms(e) if is_call(x, "any", "all") and mentions_call(v.c(x), "_complete_step")]
                no = [x for x in guard_atoms(e) if is_none_test(x, lambda y: mentions_call(v.c(y), "_complete_step"))]
                for x in at:
                    if call_name(x) == "any":
                        r.check(not sat([(g, p) for g, p in e.guards if g.kind not in CORE] + [(x, False)]) and sat(list(e.guards) + [(x, True)]),
                                "error-after-rejection", where + "/when", e, "recomputed in the wrong case")


def q_atoms(g):
    out = []
    atoms_of(g, out)
    return out


def check(a, r):
    _, _, cb = callbacks(a)
    check_plain(a, r)
    if "vectorized_retract_fn" in cb:
        v = a.view("Vectorize", cb["vectorized_retract_fn"], known=inlined_known(a), inline_key="vec")
        run(a, r, v, f"Vectorize.{cb['vectorized_retract_fn']}")
    else:
        r.skip("mask-reaches-store", "Vectorize", "retract callback not found")
    check_forward(a, r, cb)
    check_optimizers(a, r)
    base = a.p.cls("NonlinearLeastSquares")
    f = a.p.method(base, "_optimize_impl") if base is not None else None
    if f is not None:
        r.parallel(a, runs.parts(runs.frozen, f.loc))
