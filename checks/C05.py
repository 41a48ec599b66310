"""Error evaluation leaves no trace. Ordered-effect analysis of Objective.error
and error_metric: the tensors of every registered variable named in the input
are saved before the trial update, the trial and the restoring update leave the
vectorization cache alone, the error is evaluated between the two, and the
restoring update happens on every normal exit of a non persistent call."""
from sa.rules import *  # noqa: F401,F403


def up_arg(e):
    return get_arg(e.term, 0, "input_tensors")


def check(a, r):
    v = a.view("Objective", "error")
    P = {n: T("param", v.func.qual, n) for n in v.func.params[1:]}
    inp, also = P["input_tensors"], P["also_update"]
    no_inp = lambda t: is_none_test(t, val(inp))  # noqa: E731
    ups = v.calls("update", recv=is_self)
    trial = [e for e in ups if up_arg(e) is inp]
    rest = [e for e in ups if up_arg(e) is not inp]
    evals = v.calls("_get_error_iter") + v.calls("_get_error_iter_base") + v.calls("_get_jacobians_iter")
    none_atom = None
    for e in ups:
        for x in guard_atoms(e):
            if no_inp(x):
                none_atom = x
    when = ((none_atom, False), (also, False)) if none_atom is not None else ((also, False),)
    pers = ((none_atom, False), (also, True)) if none_atom is not None else ((also, True),)
    r.check(trial and v.always(trial, ((none_atom, False),) if none_atom is not None else ()), "inputs-applied", "Objective.error", v,
            "the given tensors are not always applied before evaluating")
    r.check(evals, "error-evaluated", "Objective.error", v, "no error evaluation found")
    # restore
    r.check(rest and v.always(rest, when), "temporary-values-reverted", "Objective.error", v,
            "a non persistent call can return without restoring the variables")
    for e in rest:
        r.check(implies_guard(e, val(also), False), "persistent-call-not-reverted", "Objective.error", e,
                "the variables are reverted although also_update is set")
        mask = get_arg(e.term, 1, "batch_ignore_mask")
        r.check(mask is None or is_const(mask, None), "full-revert", "Objective.error", e, "reverted under a batch mask")
        for x in trial:
            r.check(x.seq < e.seq, "revert-after-trial", "Objective.error", e, "reverted before the trial update")
        for x in evals:
            r.check(x.seq < e.seq, "revert-after-evaluation", "Objective.error", e,
                    "variables reverted before the error is evaluated")
        # what is restored
        saved = v.c(up_arg(e))
        if saved.kind != "coll" or saved.args[0] != "dict":
            r.skip("saved-values", "Objective.error", f"unrecognised saved mapping {show(saved)[:120]}")
            continue
        good = []
        for en in entries(saved):
            kind, k, val_, guards, loops = en.kind, en.key, en.value, en.guards, en.loops
            name = val_.args[1] if val_ is not None and val_.kind == "attr" else None
            ok = (
                kind in ("item", "kv", "set", "setitem") and name == "tensor"
                and mentions_attr(val_, "_all_variables") and (contains(val_.args[0], lambda x: x is k)
                                                              or is_each_item(k, val_.args[0]))
            )
            r.check(ok, "saves-current-tensor-of-each-variable", "Objective.error", e,
                    f"saved entry {show(k)[:60]} -> {show(val_)[:80]}")
            good.append(en)
            src = [x for x in loops]
            rng = any(contains(x, lambda y: y is inp) or mentions_attr(x, "_all_variables") for x in src)
            r.check(rng, "saves-every-updated-variable", "Objective.error", e,
                    "the saved names do not range over the input")
            for g, p in guards:
                okg = (
                    (no_inp(g) and not p) or (g is also and not p) or (g is inp and p)
                    or (p and cmp_of(g, "in", val(k), self_attr("_all_variables")))
                    or (p and cmp_of(g, "in", val(k), lambda y: y is inp or contains(y, val(inp))))
                )
                r.check(okg, "saves-every-updated-variable", f"Objective.error/guard", e,
                        f"only saved when {show(g)[:100]} is {p}")
        r.check(good, "saves-every-updated-variable", "Objective.error/any", e, "nothing is saved")
        # saved before the trial
        wr = [x for x in v.setitems() if x.base is up_arg(e)]
        for x in wr:
            for t in trial:
                r.check(x.seq < t.seq, "saved-before-trial", "Objective.error", x, "saved after the trial update")
    for x in trial:
        for y in evals:
            r.check(x.seq < y.seq, "evaluate-after-trial", "Objective.error", y, "evaluated before the inputs are applied")
    # vectorization caches: none of the updates of a temporary call may refresh
    for e in ups:
        uv = get_arg(e.term, 2, "_update_vectorization")
        t = TRUE if uv is None else uv
        if sat(list(e.guards) + list(when)):
            r.check(eval3(assume(t, {also: False}), {also: False}) is False, "temporary-update-keeps-cache", "Objective.error", e,
                    f"a temporary update refreshes the vectorization cache ({show(t)})")
        if e in trial and sat(list(e.guards) + list(pers)):
            r.check(eval3(assume(t, {also: True}), {also: True}) is True, "persistent-update-refreshes-cache", "Objective.error", e,
                    f"a persistent update does not refresh the vectorization cache ({show(t)})")
    # no other state
    for e in v.events:
        if e.kind in ("setattr", "aug", "delattr") and e.base is not None and e.base.kind == "self":
            r.bad("no-other-state-modified", f"Objective.error/{e.name}", e, f"writes self.{e.name}")
        if e.kind == "setattr" and e.name == "tensor":
            r.bad("no-other-state-modified", "Objective.error/tensor", e, "writes a variable tensor directly")
    r.ok("no-other-state-modified", "Objective.error", v)
    # value
    for gs, val_ in cases(v.result):
        cval = v.c(val_)
        srcs = [x for x in subterms(cval) if is_call(x, "_get_error_iter", "_get_error_iter_base", "_get_jacobians_iter")]
        r.check(srcs and all(call_name(x) == "_get_error_iter" for x in srcs), "error-from-fresh-evaluation", "Objective.error", v,
                "the returned error is not computed by the objective's error iterator")
        we = [x for x in subterms(cval) if is_call(x, "weighted_error", "error", "weighted_jacobians_error")]
        r.check(we and all(call_name(x) == "weighted_error" for x in we), "error-is-weighted", "Objective.error", v,
                "not the weighted error of each cost function")
        if is_call(cval, "cat"):
            dim = get_arg(cval, 1, "dim")
            r.check(dim is not None and is_const(dim, 1) or is_const(dim, -1), "error-concatenated-per-batch", "Objective.error", v,
                    f"concatenated along dim {show(dim) if dim is not None else 'default 0'}")
            for x in subterms(cval):
                for en in entries(x) or []:
                    if mentions_call(en.value, "weighted_error"):
                        r.check(not en.guards, "error-of-every-cost-function", "Objective.error", v,
                                f"cost functions filtered by {[show(g)[:60] for g, _ in en.guards]}")
        # input order: the iterator is consumed in its own order
        r.check(not any(is_call(x, "reversed", "sorted") for x in subterms(cval)), "error-in-registration-order",
                "Objective.error", v, "cost functions reordered")
    # the error iterators visit every cost function in registration order
    b = a.view("Objective", "_get_error_iter_base")
    ct = b.c(b.result)
    r.check(mentions_attr(ct, "cost_functions") and not any(is_call(x, "reversed", "sorted", "islice") for x in subterms(ct))
            and not any(en.args[2] for en in subterms(ct) if en.kind == "entry"),
            "error-iterator-complete", "Objective._get_error_iter_base", b, "does not visit every cost function in order")
    # metric
    m = a.view("Objective", "error_metric")
    mp = {n: T("param", m.func.qual, n) for n in m.func.params[1:]}
    errs = m.calls("error", recv=is_self)
    r.check(errs and m.always(errs), "metric-of-error", "Objective.error_metric", m, "error() not evaluated")
    for e in errs:
        for i, n in enumerate(("input_tensors", "also_update")):
            r.check(get_arg(e.term, i, n) is mp[n], "metric-forwards-arguments", f"Objective.error_metric/{n}", e,
                    f"{n} is not passed on to error()")
    for gs, val_ in cases(m.result):
        fn = [x for x in subterms(val_) if x.kind == "call" and (mentions_attr(x.args[0], "_error_metric_fn"))
              or x.kind in ("call", "ext") and call_name(x) == "_error_metric_fn"]
        r.check(fn and any(is_call(y, "error") for y in subterms(val_)), "metric-of-error", "Objective.error_metric/value", m,
                "the metric function is not applied to the error")
    ups = [e for e in m.calls("update", recv=is_self)] + [e for e in m.sets(base=is_self)]
    r.check(not ups, "no-other-state-modified", "Objective.error_metric", m, "modifies the objective itself")
    # default of also_update is the non persistent mode
    for q, vw in (("error", v), ("error_metric", m)):
        d = default_of(vw.func, "also_update")
        r.check(d is False, "non-persistent-by-default", f"Objective.{q}", vw, f"also_update defaults to {d}")


def is_each_item(k, base):
    """key<d> paired with val<d>."""
    return k.kind == "key" and contains(base, lambda x: x.kind == "val" and x.args[0] is k.args[0])

