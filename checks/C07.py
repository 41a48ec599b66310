"""Vectorized evaluation is equivalent to the plain one. The callbacks handed to
the objective are analysed with every helper inlined: the grouping key must
contain each ingredient that distinguishes cost functions, stacked tensors and
result slices must follow the same stripe layout over the same list of wrappers,
broadcasting must be complete, and results come back in registration order. In addition both objectives are interpreted side by side on client
problems: errors, linear systems and retractions must be the same algebraic forms."""
from sa.rules import *  # noqa: F401,F403
from sa import vector
from checks.C40 import method_loc


def inlined_known(a):
    return {x for x in a.known if ".vectorizer." not in x} if a.known is not None else None


def callbacks(a):
    """Roles of the methods Vectorize hands to the objective."""
    v = a.view("Vectorize", "__init__", known=inlined_known(a), inline_key="vec")
    en = v.calls("_enable_vectorization")
    out = {}
    for e in en:
        for k, t in call_kw(e.term).items():
            if t.kind == "attr":
                out[k] = t.args[1]
    return v, en, out


def role_of(src, cf):
    """'optim' / 'aux' / 'weight' of a variable collection of cost function cf."""
    if src.kind == "attr" and src.args[1] in ("optim_vars", "aux_vars"):
        b = src.args[0]
        if b.kind == "attr" and b.args[1] == "weight" and cf(b.args[0]):
            return "weight." + src.args[1]
        if cf(b):
            return src.args[1]
    return None


def class_of(t, x):
    """t depends on the class of object x."""
    return contains(t, lambda y: (y.kind == "attr" and y.args[1] == "__class__" and y.args[0] is x)
                    or (is_call(y, "type") and call_pos(y) and call_pos(y)[0] is x))


def check_schema(a, r, v):
    app = []
    for e in v.events:
        if e.kind == "call" and e.term is not None and call_name(e.term) == "append" and e.loops:
            rc = v.c(call_recv(e.term))
            if rc.kind == "sub" and call_pos(e.term) and v.c(call_pos(e.term)[0]).kind in ("make", "inst"):
                app.append((e, rc.args[1]))
            elif is_call(rc, "setdefault", "get") and call_pos(e.term):
                app.append((e, call_pos(rc)[0]))
    if not app:
        r.skip("grouping-key", "Vectorize", "grouping of cost functions not recognised")
        return
    for e, key in app:
        key = v.c(key)
        cf = next((x for x in subterms(key) if x.kind in ("val", "elem") and mentions_attr(x, "cost_functions")), None)
        if cf is None:
            r.skip("grouping-key", "Vectorize", "cost function not found in key")
            continue
        is_cf = val(cf)
        r.check(not e.guards or not any(contains(g, is_cf) for g, _ in e.guards), "every-cost-function-grouped", "Vectorize", e,
                "cost functions are left out")
        r.check(class_of(key, cf), "key-has-class", "cost function", e, "the key does not depend on the cost function's class")
        w = attr(cf, "weight")
        r.check(class_of(key, w), "key-has-class", "weight", e, "the key does not depend on the weight's class")
        seq = flatten_seq(key)
        roles = []
        for s in seq:
            if s[0] == "over":
                rl = role_of(s[1][0], is_cf)
                if rl is None:
                    continue
                roles.append(rl)
                x = next((y for y in subterms(s[2]) if y.kind == "elem"), None)
                r.check(x is not None and class_of(s[2], x), "key-has-variable-class", rl, e, "variable class missing in the key")
                sh = [y for y in subterms(s[2]) if y.kind == "attr" and y.args[1] == "shape"]
                r.check(sh, "key-has-variable-shape", rl, e, "variable data shape missing in the key")
                r.check(not s[3], "key-has-every-variable", rl, e, "variables filtered out of the key")
                for b, ix in slices_of(s[2]):
                    if b in sh:
                        ok = len(ix) == 1 and ix[0].kind == "slice" and (is_const(ix[0].args[0], 1)) and is_const(ix[0].args[1], None)
                        r.check(ok, "key-has-variable-shape", f"{rl}/all", e, f"only part of the data shape: {show(ix[0])}")
        if seq and all(s[0] in ("item", "over", "rest") for s in seq):
            for need in ("optim_vars", "aux_vars", "weight.aux_vars"):
                r.check(need in roles, "key-has-every-variable", need, e, f"{need} missing in the key")
        # robust and autodiff ingredients
        for c, names in (("RobustCostFunction", ("cost_function", "loss", "flatten_dims")), ("AutoDiffCostFunction", ("_err_fn",))):
            for n in names:
                hit = [x for x in subterms(key) if x.kind == "attr" and x.args[1] == n and x.args[0] is cf]
                ok = bool(hit)
                r.check(ok, "key-has-ingredient", f"{c}.{n}", e, f"{n} of a {c} is not part of the key")
                # not switched off
                for x in subterms(key):
                    if x.kind == "phi" and any(has(y, h) for h in hit for y in x.args[1:]):
                        cond = x.args[0]
                        kn = {y: True for y in atoms_list(cond)}
                        r.check(any(is_call(y, "isinstance") for y in kn) or is_call(cond, "hasattr"), "key-has-ingredient",
                                f"{c}.{n}/condition", e, f"only included when {show(cond)[:80]}")


def atoms_list(c):
    out = []
    atoms_of(c, out)
    return out


def check_init(a, r, v, en):
    r.check(en and v.always(en), "vectorization-enabled", "Vectorize.__init__", v, "callbacks not installed")
    for e in en:
        it = v.c(get_arg(e.term, 0, "jacobians_iter"))
        src = [x for x in flatten_seq(it)]
        ok = len(src) == 1 and src[0][0] == "over" and mentions_attr(src[0][1][0], "cost_functions") and not src[0][3] and len(
            src[0][1]) == 1
        if src and src[0][0] == "rest":
            r.skip("registration-order", "Vectorize.__init__", show(it)[:80])
        else:
            r.check(ok, "registration-order", "Vectorize.__init__", e,
                    "served containers are not one per cost function in registration order")
    # each group has a private vectorized cost function with a private weight
    cp = [e for e in v.calls("copy") if mentions_attr(call_recv(e.term), "cost_fn") or mentions_attr(call_recv(e.term), "cost_functions")]
    ws = v.sets("weight")
    r.check(cp, "private-vectorized-function", "Vectorize.__init__", v, "the group's cost function is not copied")
    r.check(ws and all(is_call(e.value, "copy") and mentions_attr(e.value, "weight") for e in ws), "private-vectorized-weight",
            "Vectorize.__init__", ws[0] if ws else v, "the group's weight is not copied")
    for e in ws:
        if is_call(e.base, "copy") and is_call(e.value, "copy"):
            r.check(has(e.value, call_recv(e.base)), "private-vectorized-weight", "Vectorize.__init__/own", e, "weight of another cost function")
    # shared names
    n = 0
    for e in v.events:
        if e.kind == "setattr" and e.name == "_var_names":
            t = v.c(e.value)
            for x in subterms(t):
                for gs, c in cases(x) if x.kind == "phi" or (x.kind == "fstr" and mentions_attr(x, "_SHARED_TOKEN")) else ():
                    if x.kind == "fstr" and any(y.kind == "phi" and has(y, x) for y in subterms(t)):
                        continue
                    if c.kind == "fstr":
                        n += 1
                        one = [y for g, _ in gs for y in atoms_list(g)
                               if cmp_of(y, "==", lambda z: is_call(z, "len"), lambda z: is_const(z, 1))]
                        if mentions_attr(c, "_SHARED_TOKEN"):
                            r.check(one and not sat(list(gs) + [(one[0], False)]), "shared-only-when-one-name", "Vectorize", e,
                                    "variables with different names are treated as shared")
                        else:
                            r.check(contains(c, lambda z: z.kind in ("idx", "loopvar")), "positions-distinct", "Vectorize", e,
                                    "different positions get the same name")
    if not n:
        r.skip("shared-only-when-one-name", "Vectorize", "naming not recognised")


def order_of(t, is_cf):
    out = []
    for s in flatten_seq(t):
        src = s[1][0] if s[0] == "over" else s[1]
        rl = role_of(src, is_cf) if isinstance(src, Term) else None
        out.append(rl)
    return out


def check_run(a, r, meth):
    v = a.view("Vectorize", meth, known=inlined_known(a), inline_key="vec")
    B = lambda t: t.kind == "attr" and t.args[1] == "batch_size"  # noqa: E731
    errs = v.sets("_cached_error")
    errs = [e for e in errs if not is_const(e.value, None)]
    jacs = [e for e in v.sets("_cached_jacobians") if not is_const(e.value, None)]
    r.check(errs, "results-distributed", f"Vectorize.{meth}", v, "errors never stored")
    r.check(jacs, "results-distributed", f"Vectorize.{meth}/jacobians", v, "jacobians never stored")
    # singleton and vectorized alternatives are exhaustive
    if errs:
        gl = [list(e.guards) for e in errs]
        base = [(g, p) for g, p in gl[0] if all((g, p) in x for x in gl[1:])]
        drop = lambda gs: [(g, p) for g, p in gs if g.kind not in ("implies", "forall", "loopdone")  # noqa: E731
                           and not (g.kind == "cmp" and all(is_call(x, "len") for x in g.args[1:])) and not is_none_test(g, ANY)]
        r.check(covers(drop(base), [drop(x) for x in gl]), "every-group-evaluated", f"Vectorize.{meth}", errs[0],
                "some groups of cost functions are not evaluated")
    multi = []
    for e in errs:
        if e.value.kind == "sub" or any(b.kind != "list" for b, ix in slices_of(e.value) if any(i.kind == "slice" or is_call(i, "slice") for i in ix)):
            sl = [(b, ix[0]) for b, ix in slices_of(e.value) if is_call(ix[0], "slice") or ix[0].kind == "slice"]
            if sl:
                multi.append((e, sl[0]))
                continue
    for e in errs:
        one = [x for x in guard_atoms(e) if cmp_of(x, "==", lambda z: is_call(z, "len"), lambda z: is_const(z, 1))]
        if any(m[0] is e for m in multi):
            continue
        # direct results: wrapper's own cost function
        own = e.base
        for gs, c in cases(e.value):
            res = [x for x in subterms(c) if is_call(x, "weighted_jacobians_error", "weighted_error", "error")]
            r.check(res and all(has(call_recv(x), own) for x in res), "singleton-own-result", f"Vectorize.{meth}", e,
                    "a single cost function gets the result of another one")
            for x in res:
                mode_ok(r, x, gs, e, meth, c)
    if not multi:
        r.skip("slice-layout", f"Vectorize.{meth}", "distribution of the batched result not recognised")
    for e, (b, s) in multi:
        lo, hi = bounds(s)
        kind, w = stripe(v, lo, hi)
        if kind is None:
            r.skip("slice-layout", f"Vectorize.{meth}", show(s)[:100])
        else:
            ok = kind in ("run", "grid") and len(w) == 1 and all(len(m) == 1 and B(m[0]) and c == 1 for m, c in w.items())
            r.check(ok, "slice-layout", f"Vectorize.{meth}", e,
                    f"cost function i does not get rows i*batch_size..(i+1)*batch_size ({show(s)[:100]})")
        for gs, c in cases(b):
            res = [x for x in subterms(c) if is_call(x, "weighted_jacobians_error", "weighted_error", "error")]
            for x in res:
                r.check(mentions_attr(call_recv(x), "_vectorized_cost_fns") or True, "vectorized-result", f"Vectorize.{meth}", e, "")
                mode_ok(r, x, gs, e, meth, c)
        own = e.base
        for j in jacs:
            if exclusive(j.guards, e.guards) or j.base is not own:
                continue
            ct = v.c(j.value)
            sl = [(bb, ix[0]) for bb, ix in slices_of(ct) if is_call(ix[0], "slice") or ix[0].kind == "slice"]
            r.check(sl and all(x[1] is v.c(s) or same_slice(x[1], v.c(s)) for x in sl), "jacobian-slice-matches-error", f"Vectorize.{meth}", j,
                    "jacobians and error of a cost function come from different rows")
            for en in entries(ct) or []:
                r.check(not en.guards and en.kind == "item", "jacobian-slice-matches-error", f"Vectorize.{meth}/all", j, "jacobians filtered")
        check_stack(a, r, v, e, meth, B)
    # everything from the objective's batch size
    ret = v.c(v.result)
    for gs, c in cases(ret):
        bad = any(is_call(x, "sorted", "reversed") or (x.kind == "attr" and x.args[1] == "_schema_dict") for x in subterms(c))
        r.check(not bad, "results-in-registration-order", f"Vectorize.{meth}", v, f"returned in another order: {show(c)[:100]}")


def bounds(s):
    if is_call(s, "slice"):
        p = call_pos(s)
        return (p[0], p[1]) if len(p) > 1 else (NONE, p[0])
    return s.args[0], s.args[1]


def same_slice(x, y):
    a1, b1 = bounds(x)
    a2, b2 = bounds(y)
    return peq(a1, a2) and peq(b1, b2)


def mode_ok(r, x, gs, e, meth, c):
    """error component of the right evaluation, weighted unless plain errors are requested."""
    idx = [y.args[1] for y in subterms(c) if y.kind == "sub" and y.args[0] is x]
    n = call_name(x)
    if n == "weighted_jacobians_error":
        if e.name == "_cached_error":
            r.check(any(is_const(i, 1) for i in idx) or not idx, "error-component", f"Vectorize.{meth}/{n}", e, "stores jacobians as error")
    elif n == "error":
        plain = [g for g, p in gs if p and contains(g, lambda t: t.kind == "attr" and t.args[1] == "ERROR")]
        r.check(plain, "weighted-unless-requested", f"Vectorize.{meth}", e, "unweighted error served")


def check_stack(a, r, v, dist, meth, B):
    apps = []
    for e in v.events:
        if e.kind == "call" and e.term is not None and call_name(e.term) == "append" and len(e.loops) >= 2 and call_pos(e.term):
            if mentions_attr(call_pos(e.term)[0], "tensor"):
                apps.append(e)
    if not apps:
        r.skip("stack-layout", f"Vectorize.{meth}", "stacking not recognised")
        return
    shared = lambda t: (t.kind == "cmp" or is_call(t)) and mentions_attr(t, "_SHARED_TOKEN")  # noqa: E731
    anyshared = any(contains(t, shared) for x in v.events for t in [g for g, _ in x.guards] + [y for y in (x.value, x.term) if y is not None])
    for e in apps:
        # same wrappers, same order as the distribution
        lw = [iter_source(l[1]) for l in e.loops if isinstance(l[1], Term)]
        dw = [iter_source(l[1]) for l in dist.loops if isinstance(l[1], Term)]
        r.check(any(x is y for x in lw for y in dw[-1:]), "stack-and-slice-same-order", f"Vectorize.{meth}", e,
                "tensors are stacked over another list than the results are distributed over")
        t = call_pos(e.term)[0]
        for gs, c in cases(t):
            vt = [x for x in subterms(c) if x.kind == "attr" and x.args[1] == "tensor"]
            exp = [x for x in subterms(c) if is_call(x, "expand", "repeat", "broadcast_to")]
            if exp:
                at = []
                for g, _ in list(gs) + list(e.guards):
                    atoms_of(g, at)
                sh = [x for x in at if shared(x)]
                if anyshared:
                    r.check(sh and not sat(list(gs) + list(e.guards) + [(sh[0], True)]), "shared-not-expanded-early", f"Vectorize.{meth}", e,
                            "a shared variable is expanded per cost function although the rest of its copies are skipped")
                size = [z for x in exp for z in subterms(x) if B(z)]
                r.check(size, "broadcast-to-batch-size", f"Vectorize.{meth}", e, "not expanded to the objective's batch size")
                for x in exp:
                    first = call_pos(x)[0] if call_pos(x) else None
                    if first is not None:
                        sq = flatten_seq(first)
                        if sq and sq[0][0] == "item":
                            r.check(B(sq[0][1]), "broadcast-to-batch-size", f"Vectorize.{meth}/dim0", e,
                                    f"first dimension becomes {show(sq[0][1])[:50]}")
            else:
                allg = list(gs) + list(e.guards)
                at = []
                for g, _ in allg:
                    atoms_of(g, at)
                big = [x for x in at if x.kind == "cmp" and x.args[0] == "<" and is_const(x.args[1], 1) and mentions_attr(x, "shape")]
                b1 = [x for x in at if cmp_of(x, "==", lambda z: is_const(z, 1), B)]
                vs1 = [x for x in at if cmp_of(x, "==", lambda z: is_const(z, 1), lambda z: mentions_attr(z, "shape"))]
                sh = [x for x in at if shared(x)]
                bad = [(x, False) for x in big] + [(x, True) for x in vs1] + [(x, False) for x in b1] + [(x, False) for x in sh]
                r.check(not sat(allg + bad), "broadcast-when-needed", f"Vectorize.{meth}", e,
                        "a private variable with batch size 1 is stacked without expanding it to the batch size")
        # skipping
        at = guard_atoms(e)
        sh = [x for x in at if shared(x)]
        one = [x for x in at if cmp_of(x, "==", lambda z: is_const(z, 1), lambda z: mentions_attr(z, "shape"))]
        seen = [x for x in at if x.kind == "cmp" and x.args[0] == "in" and not shared(x)]
        local = []
        for x in seen:
            src = x.args[2]
            local.append(x)
        # a private variable not yet handled for this cost function is always stacked
        core = [(g, p) for g, p in e.guards if g.kind in ("implies", "forall", "loopdone") or any(
            z.kind == "cmp" and z.args[0] == "==" and any(is_call(q, "len") for q in z.args[1:]) for z in atoms_list(g))]
        tgt = [(x, False) for x in sh]
        if anyshared:
            per_fn = [x for x in seen if fresh_in_loop(v, x.args[2], e)]
            tgt += [(x, False) for x in per_fn]
            rest = [(g, p) for g, p in e.guards if not any(z in sh or z in seen or z in one for z in atoms_list(g))]
            r.check(covers(rest + tgt, [e.guards]), "private-variable-always-stacked", f"Vectorize.{meth}", e,
                    "a private variable of a cost function can be left out of the batch")
            if not one:
                r.check(covers(rest + [(x, False) for x in per_fn], [e.guards]), "batched-variable-always-stacked", f"Vectorize.{meth}", e,
                        "a variable with a full batch can be left out of the stack")
            else:
                r.check(covers(rest + [(x, False) for x in per_fn + one], [e.guards]), "batched-variable-always-stacked", f"Vectorize.{meth}", e,
                        "a variable with a full batch can be left out of the stack")
    # vectorized variable k receives stack k
    ups = [e for e in v.calls("update") if e.loops]
    for e in ups:
        x = get_arg(e.term, 0, "data")
        m = get_arg(e.term, 1, "batch_ignore_mask")
        if x is None or not (mentions_attr(v.c(call_recv(e.term)), "_vectorized_cost_fns") or contains(
                x, lambda z: is_call(z, "cat", "stack", "expand", "vstack", "concatenate", "concat"))):
            continue
        r.check(m is None or is_const(m, None), "vectorized-variable-filled", f"Vectorize.{meth}/mask", e, "masked")
        n = 0
        for gs, c in cases(x):
            allg = list(gs) + list(e.guards)
            at = []
            for g, _ in allg:
                atoms_of(g, at)
            if is_call(c, "cat", "concat", "concatenate", "vstack"):
                n += 1
                d = get_arg(c, 1, "dim")
                r.check(d is None or is_const(d, 0), "stacked-along-batch", f"Vectorize.{meth}", e, f"stacked along {show(d) if d is not None else ''}")
            elif is_call(c, "expand", "repeat"):
                n += 1
                sh = [z for z in at if shared(z)]
                one = [z for z in at if cmp_of(z, "==", lambda q: is_const(q, 1), lambda q: mentions_attr(q, "shape"))]
                r.check(sh and not sat(allg + [(sh[0], False)]), "only-shared-expanded", f"Vectorize.{meth}", e,
                        "the first cost function's tensor is used for all although the variable is not shared")
                r.check(one and not sat(allg + [(one[0], False)]), "only-batch-one-expanded", f"Vectorize.{meth}", e,
                        "a batched shared variable is expanded")
                sq = flatten_seq(call_pos(c)[0]) if call_pos(c) else []
                if sq and sq[0][0] == "item":
                    p = poly(sq[0][1])
                    ok = len(p) == 1 and all(len(m) == 2 and sum(1 for z in m if B(z)) == 1 and sum(
                        1 for z in m if is_call(z, "len")) == 1 and k == 1 for m, k in p.items())
                    r.check(ok, "shared-expanded-to-all", f"Vectorize.{meth}", e,
                            f"expanded to {show(sq[0][1])[:80]} rows instead of batch size times number of cost functions")
            else:
                one = [z for z in at if cmp_of(z, "==", lambda q: is_call(q, "len"), lambda q: is_const(q, 1))]
                r.check(one and not sat(allg + [(one[0], False)]), "single-tensor-only-for-one", f"Vectorize.{meth}", e,
                        "only the first cost function's tensor is used")
        # positions agree
        ix_t = [z for z in subterms(x) if z.kind == "idx"]
        el = call_recv(e.term)
        if el.kind == "elem" and ix_t:
            r.check(all(z.args[0] is el.args[0] for z in ix_t), "stack-of-own-position", f"Vectorize.{meth}", e,
                    "variable filled from another position")
        # order of variable kinds agrees between both sides
        if el.kind == "elem":
            o1 = order_of(v.c(el.args[0]), lambda b: mentions_attr(b, "_vectorized_cost_fns"))
            for ap in apps:
                src = [l[1] for l in ap.loops if isinstance(l[1], Term)][-1]
                if is_call(src, "enumerate"):
                    src = call_pos(src)[0]
                o2 = order_of(v.c(iter_source(src)), lambda b: b.kind == "attr" and b.args[1] == "cost_fn")
                if None in o1 or None in o2:
                    r.skip("variable-kinds-same-order", f"Vectorize.{meth}", f"{o1} {o2}")
                else:
                    r.check(o1 == o2 and len(set(o1)) == len(o1) and {"optim_vars", "aux_vars", "weight.aux_vars"} <= set(o1),
                            "variable-kinds-same-order", f"Vectorize.{meth}", e, f"{o1} versus {o2}")


def fresh_in_loop(v, t, e):
    """container created inside the loop over cost functions (not global to all of them)."""
    t = strip(t)
    if t.kind == "new" and t.args[0] == "set":
        return True
    return t.kind in ("coll", "set")


def check_wrapper(a, r):
    for meth, want in (("weighted_error", ("_cached_error",)), ("weighted_jacobians_error", ("_cached_jacobians", "_cached_error"))):
        v = a.view("_CostFunctionWrapper", meth)
        seen = False
        for gs, seq, e in v.exits():
            t = e.value if e is not None else NONE
            for g2, c in cases(t):
                if any(mentions_attr(c, n) for n in want):
                    seen = True
                    got = [x.args[1] for x in (c.args[0] if c.kind == "tuple" else (c,)) if x.kind == "attr"]
                    r.check(tuple(got) == want, "wrapper-serves-own-cache", f"wrapper.{meth}", e, f"serves {got}")
                    at = [x for g, _ in list(gs) + list(g2) for x in atoms_list(g)]
                    nn = [x for x in at if is_none_test(x, lambda y: y.kind == "attr" and y.args[1] == want[0])]
                    r.check(nn and not sat(list(gs) + list(g2) + [(nn[0], True)]), "wrapper-cache-tested", f"wrapper.{meth}", e,
                            "serves a cache that was not filled")
                else:
                    calls = [x for x in subterms(c) if is_call(x)]
                    r.check(any(mentions_attr(x, "weight") or call_name(x) == meth or call_name(x) in (
                        "weight_error", "weight_jacobians_and_error") for x in calls), "wrapper-falls-back", f"wrapper.{meth}", e,
                        f"falls back to {show(c)[:80]}")
        if not seen:
            r.skip("wrapper-serves-own-cache", f"wrapper.{meth}", "cache not found")
    for meth in ("error", "jacobians", "dim"):
        v = a.view("_CostFunctionWrapper", meth)
        t = v.c(v.result)
        r.check(contains(t, lambda x: is_call(x, meth) and mentions_attr(call_recv(x) or NONE, "cost_fn")), "wrapper-delegates", f"wrapper.{meth}",
                v, f"returns {show(t)[:80]}")


def check(a, r):
    v, en, cb = callbacks(a)
    check_init(a, r, v, en)
    check_schema(a, r, v)
    check_run(a, r, cb.get("vectorization_run_fn", "_vectorize"))
    check_wrapper(a, r)
    loc = method_loc(a, "Vectorize", "_vectorize")
    jobs = [(vector.structures, (loc, n)) for n in ("poses", *(k for k in vector.STRUCTURES if k != "poses"))]
    r.parallel(a, jobs + [(vector.histories, (loc, "steps next to plain ones")), (vector.histories, (loc, "values of temporary evaluations"))])
