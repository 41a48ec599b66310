"""Optimization bookkeeping: every effect on the result information inside the iteration
loops is matched against the iteration, error, mask and optimization variables it must
describe; iteration bounds, exits, failures and the merge of the two loops."""
from sa import runs
from sa.rules import *  # noqa: F401,F403
from checks.C08 import core
from checks.C10 import as_slice

STATUS = "NonlinearOptimizerStatus"


def asserted(v):
    out = set()
    for e in v.kinds("assert"):
        for g, p in split_guard(v.c(e.value), True):
            out.add((g, p))
        for g, p in split_guard(e.value, True):
            out.add((g, p))
    return out


def own(v, e, drop=lambda g: False):
    """guards of the event that are decisions: no asserts, no structural facts"""
    asr = asserted(v)
    return [(g, p) for g, p in core(v, e.guards) if (g, p) not in asr and not drop(g)]


def core_value(t, names=("clone", "detach", "cpu", "to", "view", "numpy", "contiguous", "long", "bool", "array", "asarray", "as_tensor", "tensor", "type")):
    while True:
        if t.kind == "call" and call_name(t) in names:
            rc = call_recv(t)
            if rc is not None and rc.kind not in ("global", "module", "mod", "name", "ext", "builtin") and not show(rc) in ("numpy", "torch", "np"):
                t = rc
                continue
            ps = call_pos(t)
            if ps:
                t = ps[0]
                continue
        return t


def status_of(t):
    return t.args[1] if t.kind == "attr" and STATUS in show(t.args[0]) else None


def on(t, name, root):
    """t is root.name (through element updates)"""
    while t.kind == "upd":
        t = t.args[0]
    return t.kind == "attr" and t.args[1] == name and t.args[0] is root


def lower_bound(g, p):
    """comparison -> polynomial D with  condition <=> D >= 0 over the integers"""
    if g.kind == "un" and g.args[0] == "not":
        return lower_bound(g.args[1], not p)
    if g.kind != "cmp" or g.args[0] not in ("<", "<="):
        return None
    a, b = poly(g.args[1]), poly(g.args[2])
    d = psub(b, a) if p else psub(a, b)
    strict = (g.args[0] == "<") == p
    if strict:
        d = psub(d, {(): 1})
    return d


def info_of(v, a):
    for n in v.func.params:
        if n == "info":
            return T("param", v.func.qual, n)
    return None


def has_any(t, *xs):
    return any(y is x for y in subterms(t) for x in xs)


def optim_vars(t):
    return mentions_attr(t, "optim_vars") or mentions_attr(t, "ordering")


# ------------------------------------------------------------------ iteration loops

def check_loop(a, r, cls):
    W = f"{cls.name}._optimize_loop"
    v = a.view(cls, "_optimize_loop", opaque=("_check_convergence", "_complete_step", "compute_delta", "_CEM_step"), inline_key="c21")
    info = info_of(v, a)
    if info is None:
        r.skip("bookkeeping", W, "no info parameter")
        return
    last = [e for e in v.sets("last_err") if v.c(e.base) is info]
    if not last:
        r.bad("last-error-recorded", W, v, "info.last_err is never updated")
        return
    le = last[-1]
    E = le.value
    loops = [l for l in le.loops]
    if not loops:
        r.bad("last-error-recorded", W + "/loop", le, "last error only recorded outside the loop")
        return
    lid, iter_term, _ = loops[0]
    last_err = T("attr", info, "last_err")

    # the counter: range index or loop variable
    num = T("param", v.func.qual, "num_iter")
    bound_atoms = set()
    it = None
    if is_call(iter_term, "range"):
        args = call_pos(iter_term)
        r.check(len(args) == 1 and args[0] is num, "iterations-bounded", W, le, f"iterates {show(iter_term)[:80]}")
        it = T("idx", iter_term)
        cands = [x for e in v.events for y in (e.index, e.value) if y is not None for x in subterms(y) if x.kind == "idx" and x.args[0] is iter_term]
        it = cands[0] if cands else None
    elif iter_term.kind == "while":
        found = []
        for g, p in le.guards:
            for g1, p1 in split_guard(g, p):
                d = lower_bound(g1, p1)
                if d is None or (num,) not in d:
                    continue
                lvs = [m[0] for m in d if len(m) == 1 and m[0].kind == "loopvar"]
                if len(lvs) == 1 and lvs[0] in v.e.loopinfo:
                    found.append((d, lvs[0], g1))
        if not found:
            stuck = [g for g, p in le.guards if g.kind == "cmp" and has_any(g, num) and not any(x.kind == "loopvar" for x in subterms(g))]
            if stuck:
                r.bad("iterations-bounded", W, le, f"the iteration counter never advances: {show(stuck[0])[:60]}")
            else:
                r.skip("iterations-bounded", W, "loop bound not recognised")
        for d, lv, g1 in found[:1]:
            it = lv
            bound_atoms.add(g1)
            init, new, _ = v.e.loopinfo[lv]
            steps = {frozenset(psub(poly(nv), poly(lv)).items()) for _, nv in cases(new)}
            # iterations <= num  <=>  num - it - 1 >= 0 with it counting from 0 by 1
            want = psub(psub(poly(num), poly(lv)), {(): 1})
            shift = psub(want, d)
            i0 = poly(init)
            ok = set(shift) <= {()} and set(i0) <= {()} and shift.get((), 0) + i0.get((), 0) >= 0
            r.check(ok, "iterations-bounded", W, le, f"counter from {show(init)} while {show(g1)[:60]}: more iterations than requested")
            r.check(all(s == frozenset({((), 1)}) for s in steps), "iterations-bounded", W + "/step", le, f"counter becomes {show(new)[:80]}")
            r.check(ok and shift.get((), 0) + i0.get((), 0) == 0, "all-requested-iterations", W, le, "fewer iterations than requested")
    else:
        r.skip("iterations-bounded", W, show(iter_term)[:60])

    def drop(g):
        return g in bound_atoms or (g.kind == "cmp" and has_any(g, num)) or g.kind == "exc"

    def always(e, flag=None):
        """recorded in every counted iteration (whenever the tracking flag is on)"""
        gs = own(v, e, drop)
        base = own(v, le, drop)
        gs = [x for x in gs if x not in base]
        tgt = []
        if flag is not None:
            tgt = [(g, False) for g, p in gs for x in q_atoms(g) for g in [x] if is_none_test(x, lambda y: any(on(z, f, info) for z in (y, v.c(y)) for f in flag))]
        return covers(tgt, [gs])

    def e_is(t):
        t = core_value(t)
        return t is E or v.c(t) is v.c(E)

    # error used everywhere
    errs = [y for _, y in cases(E)]
    r.check(any(mentions_call(v.c(y), "error_metric") for y in errs), "last-error-recorded", W + "/value", le, f"last error set to {show(E)[:80]}")
    r.check(not own(v, le, drop) or covers([], [[x for x in own(v, le, drop)]]), "last-error-recorded", W + "/always", le,
            "not every iteration records its error")
    ups = [e for e in v.calls("update") if mentions_attr(call_recv(e.term), "objective") or (call_recv(e.term) is not None and is_call(call_recv(
        e.term), "objective"))]
    for e in v.calls("error_metric"):
        if e.loops and any(x is v.c(e.term) or x is e.term for _, x in cases(E)) and not (call_pos(e.term) or call_kw(e.term)):
            r.check(any(u.seq < e.seq for u in ups), "error-after-update", W, e, "the recorded error is evaluated before the variables are updated")

    # convergence test
    conv = [e for e in v.calls("_check_convergence") if e.loops]
    r.check(conv, "stops-when-converged", W, v, "convergence is never checked")
    for e in conv:
        x, y = get_arg(e.term, 0, "err"), get_arg(e.term, 1, "last_err")
        if x is None or y is None:
            continue
        r.check(e_is(x), "convergence-compares-consecutive-errors", W, e, f"err is {show(x)[:80]}")
        r.check(core_value(y) is last_err, "convergence-compares-consecutive-errors", W + "/last", e,
                f"previous error is {'already the new one' if e_is(y) else show(y)[:60]}")
    masks = []
    for lv, (init, new, _) in v.e.loopinfo.items():
        if contains(v.c(new), lambda y: is_call(y, "_check_convergence")):
            masks.append(lv)

    # histories
    for name in ("err_history", "state_history"):
        evs = [e for e in v.setitems() if (name == "err_history" and on(v.c(e.base), name, info)) or (
            name == "state_history" and v.c(e.base).kind == "sub" and on(v.c(e.base).args[0], name, info))]
        full = [e for e in v.events if e.kind in ("call", "mutcall") and e.term is not None and call_name(e.term) in ("copy_", "index_copy_") and mentions_attr(
            v.c(e.term), name)]
        if not evs and full:
            r.skip("history-index", W + "/" + name, "history filled in another way")
            continue
        r.check(evs, "history-recorded", W + "/" + name, v, f"{name} is not filled in the loop")
        for e in evs:
            w = f"{W}/{name}"
            ix = list(e.index.args[0]) if e.index.kind == "tuple" else [e.index]
            col = ix[-1]
            if it is not None:
                if not has_any(col, it):
                    others = [x for x in subterms(col) if x.kind in ("loopvar", "idx")]
                    same = [x for x in others if x.kind == "loopvar" and x in v.e.loopinfo and is_const(v.e.loopinfo[x][0], 0) and peq(
                        v.e.loopinfo[x][1], T("bin", "+", x, const(1)))]
                    if same and peq(col, T("bin", "+", same[0], const(1))):
                        r.ok("history-index", w)
                    else:
                        r.check(False, "history-index", w, e, f"{name} written at {show(col)[:60]}")
                else:
                    r.check(peq(col, T("bin", "+", it, const(1))), "history-index", w, e, f"{name} of iteration i written at {show(col)[:60]}")
            if name == "err_history":
                r.check(len(ix) == 2 and full_slice(ix[0]), "history-all-elements", w, e, f"index {show(e.index)[:60]}")
                r.check(e_is(e.value), "history-value", w, e, f"error history gets {show(e.value)[:80]}")
            else:
                key = v.c(e.base).args[1]
                r.check(ix[0].kind in ("const",) or full_slice(ix[0]), "history-all-elements", w, e, f"index {show(e.index)[:60]}")
                val_ = core_value(e.value)
                r.check(val_.kind == "attr" and val_.args[1] == "tensor" and has_any(key, val_.args[0]), "history-value", w, e,
                        f"history of {show(key)[:40]} gets {show(e.value)[:60]}")
                r.check(any(optim_vars(v.c(l[1])) for l in e.loops[len(loops):] or e.loops), "history-all-variables", w, e, "not over the optimization variables")
                r.check(any(u.seq < e.seq for u in ups), "history-after-update", w, e, "state recorded before the variables are updated")
            r.check(always(e, (name,)), "history-recorded", w + "/always", e, "not recorded in every iteration in which it is tracked")

    # best
    best_err = T("attr", info, "best_err")

    def improved(t):
        t = core_value(v.c(t))
        return t.kind == "cmp" and t.args[0] == "<" and e_is_c(t.args[1]) and t.args[2] is best_err

    def e_is_c(t):
        return core_value(t) is v.c(E) or core_value(t) is E

    def weird(t):
        """index that is recognisably something else"""
        t = core_value(v.c(t))
        return t.kind == "cmp" or full_slice(t) or t.kind in ("const", "loopvar")

    bi = [e for e in v.setitems() if on(v.c(e.base), "best_iter", info)]
    bs = [e for e in v.setitems() if v.c(e.base).kind == "sub" and on(v.c(e.base).args[0], "best_solution", info)]
    be = [e for e in v.sets("best_err") if v.c(e.base) is info] + [e for e in v.setitems() if on(v.c(e.base), "best_err", info)]
    bi2 = [e for e in v.sets("best_iter") if v.c(e.base) is info]
    bs2 = [e for e in v.setitems() if on(v.c(e.base), "best_solution", info)] + [e for e in v.sets("best_solution") if v.c(e.base) is info]
    for evs, alt, n in ((bi, bi2, "best_iter"), (bs, bs2, "best_solution"), (be, [], "best_err")):
        if not evs and alt:
            r.skip("best-where-improved", f"{W}/{n}", "updated in another way")
            # still must select by the improvement
            continue
        r.check(evs, "best-recorded", f"{W}/{n}", v, f"{n} is never updated in the loop")
        for e in evs:
            r.check(always(e, ("best_solution", "best_err", "best_iter")), "best-recorded", f"{W}/{n}/always", e, "not updated in every iteration in which it is tracked")
    for e in bi + bs:
        n = "best_iter" if e in bi else "best_solution"
        if improved(e.index):
            r.ok("best-where-improved", f"{W}/{n}", e)
        else:
            new = core_value(v.c(e.index))
            if weird(e.index) or not has_any(new, best_err):
                r.bad("best-where-improved", f"{W}/{n}", e, f"{n} changes where {show(e.index)[:100]}")
            else:
                r.skip("best-where-improved", f"{W}/{n}", show(e.index)[:100])
    for e in bi:
        if it is not None:
            x = core_value(e.value)
            good = peq(x, it) or (x.kind == "loopvar" and x in v.e.loopinfo and is_const(v.e.loopinfo[x][0], 0) and peq(v.e.loopinfo[x][1], T(
                "bin", "+", x, const(1))))
            r.check(good, "best-iteration-index", W, e, f"best iteration recorded as {show(e.value)[:60]}")
    for e in bs:
        x = v.c(e.value)
        y = core_value(x)
        sel = None
        if y.kind == "sub":
            sel, y = y.args[1], core_value(y.args[0])
        key = v.c(e.base).args[1]
        r.check(y.kind == "attr" and y.args[1] == "tensor" and has_any(key, y.args[0]), "best-solution-value", W, e,
                f"best solution of {show(key)[:40]} gets {show(x)[:80]}")
        r.check(sel is not None and sel is v.c(e.index), "best-solution-value", W + "/elements", e, f"selects {show(sel)[:60] if sel is not None else 'everything'}")
        r.check(any(optim_vars(v.c(l[1])) for l in e.loops), "best-solution-all-variables", W, e, "not over the optimization variables")
        r.check(any(u.seq < e.seq for u in ups), "best-after-update", W, e, "best solution copied before the variables are updated")
    for e in be:
        x = v.c(e.value)
        if e.kind == "setitem":
            r.check(improved(e.index), "best-error-value", W, e, f"best error changes where {show(e.index)[:80]}")
            y = x.args[0] if x.kind == "sub" else x
            r.check(e_is_c(y), "best-error-value", W + "/v", e, f"best error set to {show(x)[:80]}")
        elif is_call(x, "minimum", "min", "fmin"):
            ops = [core_value(y) for y in ([call_recv(x)] if call_recv(x) is not None and show(call_recv(x)) != "torch" else []) + list(call_pos(x)) + [
                y for y in call_kw(x).values()]]
            r.check(best_err in ops and any(e_is_c(y) for y in ops), "best-error-value", W, e, f"best error becomes {show(x)[:100]}")
        elif is_call(x, "where"):
            c, p1, p2 = get_arg(x, 0, "condition"), get_arg(x, 1, "input"), get_arg(x, 2, "other")
            r.check(improved(c) and e_is_c(p1) and core_value(p2) is best_err, "best-error-value", W, e, f"best error becomes {show(x)[:100]}")
        elif is_call(x, "maximum", "max") or e_is_c(x):
            r.bad("best-error-value", W, e, f"best error becomes {show(x)[:100]}")
        else:
            r.skip("best-error-value", W, show(x)[:80])
        # old best must still be what the improvement is measured against
        for z in bi + bs:
            r.check(z.seq < e.seq or improved(z.index), "best-compares-old-best", W, z, "best entries are decided after the best error was already lowered")

    # iteration counts
    ci = [e for e in v.sets("converged_iter") if v.c(e.base) is info] + [e for e in v.setitems() if on(v.c(e.base), "converged_iter", info)] + [
        e for e in v.events if e.kind in ("call", "mutcall") and e.term is not None and call_name(e.term) in ("add_", "sub_") and call_recv(e.term) is not None
        and on(v.c(call_recv(e.term)), "converged_iter", info)]
    ci = [e for e in ci if e.loops]
    r.check(ci, "iteration-count", W, v, "converged_iter is never updated in the loop")
    for e in ci:
        if e.kind != "setattr":
            r.skip("iteration-count", W, "updated in place")
            continue
        x = v.c(e.value)
        used = [y for y in subterms(x) if y in masks]
        nowconv = contains(x, lambda y: is_call(y, "_check_convergence"))
        r.check(used and not nowconv, "iteration-count", W, e, f"iterations counted by {show(x)[:100]}")
        if used:
            d = psub(poly(x), {(T("attr", info, "converged_iter"),): 1})
            m1 = [k for k in d if len(k) == 1 and core_value(k[0]) in masks]
            if d.get((), 0) == 1 and len(m1) == 1 and d[m1[0]] == -1 and len(d) == 2:
                r.ok("iteration-count", W + "/value", e)
            elif len(d) == 1 and len(m1) == 0 and contains(next(iter(d))[0] if next(iter(d)) else NONE, lambda y: y.kind == "un" or is_call(y, "logical_not")):
                r.ok("iteration-count", W + "/value", e)
            elif all(len(k) == 0 or core_value(k[0]) in masks or k == (T("attr", info, "converged_iter"),) for k in d):
                r.bad("iteration-count", W + "/value", e, f"an active element's count becomes {show(x)[:100]}")
            else:
                r.skip("iteration-count", W + "/value", show(x)[:80])
        r.check(always(e), "iteration-count", W + "/always", e, "not counted in every iteration")
    for lv in masks:
        init, new, _ = v.e.loopinfo[lv]
        z = v.c(init)
        r.check(contains(z, lambda y: is_call(y, "zeros_like", "zeros", "full", "full_like")) and not contains(z, lambda y: y.kind == "un"), "mask-starts-empty", W, v,
                f"converged mask starts as {show(z)[:60]}")
        for _, c in cases(v.c(new)):
            if c is lv:
                r.bad("mask-refreshed", W, v, "converged mask is not refreshed in every iteration")
            elif not is_call(core_value(c), "_check_convergence"):
                r.skip("mask-refreshed", W, show(c)[:80])

    # status
    st = [e for e in v.setitems() if on(v.c(e.base), "status", info) or any(on(y, "status", info) for y in (v.c(e.base),))]
    kinds = {}
    for e in st:
        s = status_of(v.c(e.value))
        kinds.setdefault(s, []).append(e)
        ix = core_value(v.c(e.index))
        w = f"{W}/{s}"
        if s == "CONVERGED":
            r.check(contains(ix, lambda y: is_call(y, "_check_convergence")) and not negated(ix) and not full_slice(ix),
                    "status-describes-outcome", w, e, f"CONVERGED set where {show(ix)[:80]}")
        elif s == "FAIL":
            r.check(full_slice(ix) or ix.kind == "const" and ix.args[0] is Ellipsis, "status-describes-outcome", w, e, f"FAIL set only where {show(ix)[:80]}")
            r.check(any(g.kind == "exc" or mentions_exc(g) for g, p in e.guards if p), "status-describes-outcome", w + "/when", e, "FAIL set without a failure")
        elif s == "MAX_ITERATIONS":
            ok = ix.kind == "cmp" and ix.args[0] == "==" and any(status_of(y) == "START" for y in ix.args[1:]) and any(on(y, "status", info) for y in ix.args[1:])
            r.check(ok, "status-describes-outcome", w, e, f"MAX_ITERATIONS set where {show(ix)[:80]}")
            r.check(not e.loops, "status-describes-outcome", w + "/after", e, "MAX_ITERATIONS set inside the loop")
            r.check(not own(v, e), "status-describes-outcome", w + "/always", e, f"only if {[(show(g)[:40], p) for g, p in own(v, e)][:3]}")
        elif s == "START":
            r.bad("status-describes-outcome", w, e, "status reset to START")
        else:
            r.skip("status-describes-outcome", w, show(e.value)[:60])
    for s in ("CONVERGED", "MAX_ITERATIONS"):
        r.check(kinds.get(s), "status-recorded", f"{W}/{s}", v, f"status {s} is never recorded")
    cv = kinds.get("CONVERGED", [])
    if cv:
        r.check(any(always(e) for e in cv), "status-recorded", W + "/CONVERGED/always", cv[0], "converged elements not always marked")

    # early exits
    lv_leaves = v.e.leaves.get(lid, [])
    brk = 0
    for kind, gs, now in lv_leaves:
        g0 = core(v, gs)
        if kind == "break":
            brk += 1
            if any(g.kind == "exc" for g, p in g0 if p):
                continue
            alls = [(x, p) for g, p in g0 for x in q_atoms(g) if is_call(x, "all", "any", "sum", "count_nonzero") and contains(x, lambda y: is_call(y, "_check_convergence"))]
            if not alls:
                if any(lower_bound(g, p) is not None and has_any(g, num) and g not in bound_atoms for g, p in g0):
                    continue
                r.bad("stops-only-when-converged", W, v, f"leaves the loop when {[(show(g)[:60], p) for g, p in g0][-2:]}")
            for x, p in alls:
                inv = negated(x)
                r.check((is_call(x, "all") and p and not inv) or (is_call(x, "any") and not p and inv) or is_call(x, "sum", "count_nonzero"), "stops-only-when-converged", W, v,
                        f"leaves the loop when {show(x)[:80]} is {p}")
            others = [(g, p) for g, p in g0 if not contains(g, lambda y: is_call(y, "_check_convergence")) and not has_any(g, num)
                      and g.kind != "exc" and (g, p) not in asserted(v) and not mentions_call(g, "_complete_step")]
            r.check(not others, "stops-when-converged", W + "/always", v, f"stops only if also {[(show(g)[:50], p) for g, p in others][:2]}")
        else:
            # skipped iteration: counters unchanged together and a bounded number of times
            deltas = {}
            for lv, nv in now.items():
                d = psub(poly(nv), poly(lv))
                if set(d) <= {()}:
                    deltas[lv] = d.get((), 0)
            if it is not None and it.kind == "loopvar":
                counts = [lv for lv in now if lv is not it and returned_counter(v, lv)]
                for lv in counts:
                    r.check(deltas.get(lv) == deltas.get(it), "counter-matches-iterations", W + "/continue", v,
                            "a skipped iteration advances the index and the number of iterations differently")
                if deltas.get(it) == 0:
                    lim = [lv for lv, d in deltas.items() if d == 1 and any(g.kind == "cmp" and any(has_any(y, lv) for y in g.args[1:]) for g, p in g0)]
                    r.check(lim, "iterations-bounded", W + "/continue", v, "an iteration can be repeated without bound")
    cond_stop = any(contains(g, lambda y: y in masks) for e in [le] for g, p in e.guards)
    r.check(brk or cond_stop, "stops-when-converged", W, v, "the loop never stops on convergence")

    # steps rejected for every element are repeated, not taken for convergence
    if v.calls("_complete_step"):
        rej = [x for e in [le] for g, p in e.guards for x in q_atoms(g) if mentions_call(x, "_complete_step") and is_call(x, "all", "any")]
        if not rej:
            r.bad("rejected-step-is-not-convergence", W, le, "an iteration in which all steps were rejected is checked for convergence")
        else:
            none = [x for g, p in le.guards for x in q_atoms(g) if mentions_call(x, "_complete_step") and is_none_test(x, lambda y: True)]
            lim = [x for g, p in le.guards for x in q_atoms(g) if lower_bound(x, True) is not None and x not in bound_atoms and any(y.kind == "loopvar" for y in subterms(x))]
            r.check(not sat(list(le.guards) + [(rej[0], True)] + [(x, False) for x in none] + [(x, True) for x in lim]), "rejected-step-is-not-convergence", W + "/when", le,
                    "an iteration in which all steps were rejected is checked for convergence")
            alls = [x for x in rej if is_call(x, "all")]
            r.check(alls and not sat(list(le.guards) + [(alls[0], True)] + [(x, False) for x in none] + [(x, True) for x in lim]) and sat(list(le.guards) + [(alls[0], False)] + [(x, False) for x in none] + [(x, True) for x in lim]), "rejected-step-is-not-convergence", W + "/all", le,
                    "iterations are repeated although some elements accepted their step")

    # each step solves the current linearization and is scaled by the step size
    solves = [e for e in v.calls("compute_delta", "solve") if e.loops]
    if solves:
        lin = [e for e in v.calls("linearize") if e.loops]
        r.check(lin, "step-from-current-values", W, v, "the problem is not linearized in the loop")
        for e in lin[:1]:
            r.check(e.seq < solves[0].seq, "step-from-current-values", W + "/order", e, "linearized after the step was computed")
            gs = [x for x in own(v, e, drop) if x not in own(v, le, drop)]
            r.check(covers([], [gs]), "step-from-current-values", W + "/always", e, f"only if {[(show(g)[:40], p) for g, p in gs][:2]}")
        for e in v.calls("retract_vars_sequence"):
            d = get_arg(e.term, 0, "delta")
            if d is None:
                continue
            d = v.c(d)
            lvs = [x for x in subterms(d) if x.kind == "loopvar" and x in v.e.loopinfo]
            parts = [d] + [v.c(y) for x in lvs for y in v.e.loopinfo[x][:2]]
            ss = any(mentions_attr(y, "step_size") for y in parts)
            r.check(ss, "step-size-applied", W, e, "the step size is ignored")
            div = any(z.kind == "bin" and z.args[0] != "*" and any(mentions_attr(q, "step_size") for q in z.args[1:]) for y in parts for z in subterms(y))
            r.check(not div, "step-size-applied", W + "/product", e, f"step is {show(d)[:80]}")

    # the number of iterations returned
    for e in v.kinds("return"):
        if e.func is not None and e.func != v.func and getattr(e.func, "qual", e.func) != v.func.qual:
            continue
    for ret in v.returns():
        x = ret.value
        lvs = [y for y in subterms(x) if y.kind == "loopvar"]
        for y in lvs[:1]:
            info_ = v.e.loopinfo.get(y)
            if info_ is None or x.kind not in ("loopvar", "loopout"):
                continue
            init, new, _ = info_
            r.check(is_const(init, 0) and all(peq(c, T("bin", "+", y, const(1))) for _, c in cases(new)), "counter-matches-iterations", W, v,
                    f"returned count starts at {show(init)[:20]} and becomes {show(new)[:60]}")
            for kind, gs, now in lv_leaves:
                if kind == "break" and y in now and not any(g.kind == "exc" for g, p in gs if p):
                    r.check(peq(now[y], T("bin", "+", y, const(1))), "counter-matches-iterations", W + "/break", v,
                            f"the last iteration is not counted: {show(now[y])[:60]}")
        if is_const(x, None) or (x.kind == "const"):
            r.bad("counter-matches-iterations", W + "/return", v, f"returns {show(x)[:40]}")

    # failing linear solve
    if v.calls("compute_delta") or v.calls("solve"):
        fails = kinds.get("FAIL", [])
        r.check(fails, "failed-solve-reported", W, v, "a failing linear solve does not set the FAIL status")
        ge = [x for e in fails for g, p in e.guards for x in q_atoms(g) if is_call(x, "is_grad_enabled")]
        for e in fails:
            if ge:
                r.check(not sat(list(e.guards) + [(ge[0], True)]) and sat(list(e.guards) + [(ge[0], False)]), "failed-solve-reported", W + "/grad", e,
                        "a failure is reported by status while gradients are recorded (or raised when they are not)")
            gs = own(v, e)
            outs = [x for x in v.events if x.kind in ("return", "break", "raise") and x.seq > e.seq and not exclusive(core(v, x.guards), gs) and covers(gs, [own(v, x)])]
            r.check(outs, "failed-solve-reported", W + "/stops", e, "after a failed solve the iteration goes on")
            for u in ups:
                if outs:
                    r.check(u.seq < e.seq or u.seq > outs[0].seq, "failed-solve-leaves-variables", W, u, "variables are updated after a failed solve")
        for e in v.calls("compute_delta", "solve"):
            r.check(any(u.seq > e.seq for u in ups), "failed-solve-leaves-variables", W + "/order", e, "variables updated before the step is known")

    # callback
    cbp = T("param", v.func.qual, "end_iter_callback")
    cbs = [e for e in v.events if e.kind == "call" and e.term is not None and e.term.args[0] is cbp]
    if "end_iter_callback" in v.func.params:
        r.check(cbs, "callback-per-iteration", W, v, "end_iter_callback is never called")
    for e in cbs:
        r.check(e.loops, "callback-per-iteration", W + "/loop", e, "called once, not per iteration")
        ps = call_pos(e.term)
        r.check(len(ps) == 4, "callback-per-iteration", W + "/args", e, f"{len(ps)} arguments")
        if len(ps) == 4:
            r.check(ps[1] is info or v.c(ps[1]) is info, "callback-per-iteration", W + "/info", e, f"gets {show(ps[1])[:40]}")
            if it is not None:
                x = ps[3]
                r.check(peq(x, it) or (x.kind == "loopvar" and is_const(v.e.loopinfo[x][0], 0)), "callback-per-iteration", W + "/index", e, f"gets iteration {show(ps[3])[:40]}")
        r.check(e.seq > le.seq, "callback-per-iteration", W + "/end", e, "called before the information is updated")
        gs = [x for x in own(v, e, drop) if x not in own(v, le, drop)]
        tgt = [(x, False) for g, p in gs for x in q_atoms(g) if is_none_test(x, lambda y: y is cbp)]
        tgt += [(x, False) for g, p in gs for x in q_atoms(g) if contains(x, lambda y: is_call(y, "_check_convergence"))]
        r.check(covers(tgt, [gs]), "callback-per-iteration", W + "/always", e, "not called in every iteration")


def negated(t):
    """an odd number of negations around the convergence test"""
    n = 0
    while not is_call(t, "_check_convergence"):
        if t.kind == "un" and t.args[0] in ("not", "~"):
            n += 1
            t = t.args[1]
        elif is_call(t, "logical_not", "bitwise_not"):
            n += 1
            t = call_recv(t) if not call_pos(t) else call_pos(t)[0]
        else:
            nxt = [x for x in t.args if isinstance(x, type(t)) and contains(x, lambda y: is_call(y, "_check_convergence"))]
            if not nxt and t.kind == "call":
                nxt = [x for x in list(call_pos(t)) + list(call_kw(t).values()) if contains(x, lambda y: is_call(y, "_check_convergence"))]
            if not nxt:
                break
            t = nxt[0]
    return n % 2 == 1


def mentions_exc(g):
    return contains(g, lambda y: y.kind in ("exc", "excvalue"))


def returned_counter(v, lv):
    return any(has_any(e.value, lv) for e in v.returns() if e.value is not None)


def q_atoms(g):
    out = []
    atoms_of(g, out)
    return out


# ------------------------------------------------------------------ initial information

def size_args(t):
    """size arguments of the tensor constructor inside t"""
    for x in subterms(t):
        if is_call(x, "ones", "zeros", "empty", "full"):
            ps = [p for p in call_pos(x)]
            k = dict(call_kw(x))
            if "size" in k:
                ps = [k["size"]] + ps
            if is_call(x, "full") and ps and ps[0].kind not in ("tuple", "list", "coll"):
                return None
            if len(ps) and ps[0].kind == "tuple":
                return list(ps[0].args[0])
            if len(ps) and ps[0].kind in ("coll", "list"):
                es = entries(ps[0])
                return [en.value for en in es] if es else None
            return ps
        if is_call(x, "new_ones", "new_zeros", "new_full"):
            return None
    return None


def check_init(a, r):
    W = "NonlinearOptimizer._init_info"
    v = a.view("NonlinearOptimizer", "_init_info")
    maxit = next((y for e in v.events for q in (e.term, e.value) if q is not None for y in subterms(q) if y.kind == "attr" and y.args[1] == "max_iterations"), NONE)
    rets = [e for e in v.returns() if v.c(e.value).kind == "make"]
    if not rets:
        r.skip("initial-information", W, "returned information not recognised")
        return
    for e in rets:
        f = {getattr(n, "args", [n])[0] if not isinstance(n, str) else n: x for n, x in v.c(e.value).args[1]} if isinstance(v.c(e.value).args[1], tuple) else {}
        f = {str(k): x for k, x in f.items()}
        le = f.get("last_err")
        if le is None:
            r.skip("initial-information", W, "fields not recognised")
            continue
        r.check(mentions_call(le, "error_metric"), "initial-error", W, v, f"last_err starts as {show(le)[:60]}")
        be = f.get("best_err")
        for gs, x in cases(be) if be is not None else []:
            tr = [(g, p) for g, p in gs for y in q_atoms(g) if mentions_param(y, "track_best_solution")]
            if is_const(x, None):
                r.check(tr and not sat(list(gs) + [(q_atoms(tr[0][0])[0], True)]), "initial-best", W + "/none", v, "no best error although it is tracked")
            else:
                r.check(core_value(x) is core_value(le), "initial-best", W, v, f"best error starts as {show(x)[:80]}")
        bs = f.get("best_solution")
        for gs, x in cases(bs) if bs is not None else []:
            es = entries(x) if x.kind == "coll" else None
            if es is None:
                continue
            r.check([en for en in es if en.kind != "item"], "initial-best-solution", W + "/empty", v, "no variable in the initial best solution")
            for en in es:
                if en.kind != "kv":
                    continue
                y = core_value(en.value)
                r.check(y.kind == "attr" and y.args[1] == "tensor" and has_any(en.key, y.args[0]), "initial-best-solution", W, v, f"{show(en.key)[:40]}: {show(en.value)[:60]}")
                r.check(mentions_call(en.value, "clone", "copy", "deepcopy"), "best-solution-is-a-copy", W, v,
                        f"the best solution shares memory with the variable: {show(en.value)[:60]}")
                r.check(not en.guards or covers([], [en.guards]) or all(mentions_param(g, "track_best_solution") for g, p in en.guards), "initial-best-solution", W + "/all", v, "some variables left out")
                r.check(any(optim_vars(s) for s in en.loops), "initial-best-solution", W + "/vars", v, "not over the optimization variables")
        if bs is None or is_const(bs, None):
            r.bad("initial-best-solution", W + "/missing", v, "best_solution never initialised")
        stt = f.get("status")
        if stt is not None:
            sts = {status_of(y) for y in subterms(stt) if status_of(y)}
            r.check(sts == {"START"} or not sts, "initial-status", W, v, f"status starts as {sorted(sts)}")
            r.check(contains(stt, lambda y: y.kind == "attr" and y.args[1] in ("batch_size", "shape")) or mentions_call(stt, "len", "error_metric"), "initial-status", W + "/size", v,
                    "one status per batch element expected")
        for n in ("converged_iter", "best_iter"):
            x = f.get(n)
            if x is not None:
                r.check(not mentions_call(x, "ones_like", "ones") and (mentions_call(x, "zeros_like", "zeros", "full", "full_like", "new_zeros")), "initial-counters", f"{W}/{n}", v, show(x)[:60])
        eh = f.get("err_history")
        for gs, x in cases(eh) if eh is not None else []:
            if is_const(x, None):
                tr = [y for g, p in gs for y in q_atoms(g) if mentions_param(y, "track_err_history")]
                r.check(tr and not sat(list(gs) + [(tr[0], True)]), "history-allocated", W + "/err_history/none", v, "no error history although it is tracked")
                continue
            sz = size_args(x)
            if sz:
                r.check(peq(sz[-1], T("bin", "+", maxit, const(1))) or psub(poly(sz[-1]), poly(maxit)).get((), 0) == 1 and len(psub(poly(sz[-1]), poly(maxit))) == 1,
                        "history-allocated", W + "/err_history", v, f"{show(sz[-1])[:60]} columns")
        sh = f.get("state_history")
        for gs, x in cases(sh) if sh is not None else []:
            if is_const(x, None):
                tr = [y for g, p in gs for y in q_atoms(g) if mentions_param(y, "track_state_history")]
                r.check(tr and not sat(list(gs) + [(tr[0], True)]), "history-allocated", W + "/state_history/none", v, "no state history although it is tracked")
                continue
            es = entries(x) if x.kind == "coll" else None
            for en in es or []:
                if en.kind != "kv":
                    continue
                sz = size_args(en.value)
                if sz:
                    d = psub(poly(sz[-1]), poly(maxit))
                    r.check(d == {(): 1}, "history-allocated", W + "/state_history", v, f"{show(sz[-1])[:60]} columns")
                r.check(any(optim_vars(s) for s in en.loops), "history-allocated", W + "/state_history/vars", v, "not over the optimization variables")
    # first columns
    for name, flag in (("err_history", "track_err_history"), ("state_history", "track_state_history")):
        evs = []
        for e in v.setitems():
            ix = list(e.index.args[0]) if e.index.kind == "tuple" else [e.index]
            val_ = core_value(v.c(e.value))
            if name == "err_history" and mentions_call(val_, "error_metric") and len(ix) == 2:
                evs.append((e, ix))
            if name == "state_history" and val_.kind == "attr" and val_.args[1] == "tensor" and len(ix) >= 2:
                evs.append((e, ix))
        if not evs:
            txt = [e for e in v.events if e.kind in ("call", "mutcall") and e.term is not None and call_name(e.term) in ("copy_", "cat", "stack")]
            if txt:
                r.skip("history-starts-with-initial-values", f"{W}/{name}", "filled in another way")
            else:
                r.bad("history-starts-with-initial-values", f"{W}/{name}", v, "initial values are not recorded")
        for e, ix in evs:
            r.check(is_const(ix[-1], 0), "history-starts-with-initial-values", f"{W}/{name}", e, f"initial values written at {show(ix[-1])[:40]}")
            gs = own(v, e)
            r.check(all(mentions_param(g, flag) for g, p in gs) and (not gs or all(p for g, p in gs)), "history-starts-with-initial-values", f"{W}/{name}/when", e,
                    f"only if {[(show(g)[:40], p) for g, p in gs][:2]}")


# ------------------------------------------------------------------ merging the two loops

def check_merge(a, r):
    W = "NonlinearOptimizer._merge_infos"
    v = a.view("NonlinearOptimizer", "_merge_infos")
    P = {n: T("param", v.func.qual, n) for n in v.func.params}
    names = [n for n in v.func.params if n != "self"]
    if len(names) != 4 or set(names) != {"grad_loop_info", "num_no_grad_iters", "num_grad_iters", "info"}:
        r.skip("merge", W, "signature not recognised")
        return
    G, N0, N1, I = P["grad_loop_info"], P["num_no_grad_iters"], P["num_grad_iters"], P["info"]
    one = const(1)
    for name in ("err_history", "state_history"):
        evs = [e for e in v.setitems() if (name == "err_history" and on(v.c(e.base), name, I)) or (
            name == "state_history" and v.c(e.base).kind == "sub" and on(v.c(e.base).args[0], name, I))]
        w = f"{W}/{name}"
        r.check(evs, "merged-histories", w, v, f"{name} of the differentiable loop is dropped")
        for e in evs:
            ix = list(e.index.args[0]) if e.index.kind == "tuple" else [e.index]
            s = as_slice(v.c(ix[-1]))
            if s.kind == "slice":
                lo, hi = s.args[0], s.args[1]
                r.check(peq(lo, T("bin", "+", N0, one)), "merged-histories", w + "/from", e, f"written from column {show(lo)[:40]}")
                r.check(peq(hi, T("bin", "+", T("bin", "+", N0, N1), one)), "merged-histories", w + "/to", e, f"written up to column {show(hi)[:60]}")
            else:
                r.skip("merged-histories", w, show(s)[:60])
            x = v.c(e.value)
            if x.kind == "sub":
                src = x.args[0]
                want = T("attr", G, name)
                if name == "state_history":
                    r.check(src.kind == "sub" and src.args[0] is want and src.args[1] is v.c(e.base).args[1], "merged-histories", w + "/source", e, f"from {show(src)[:60]}")
                else:
                    r.check(src is want, "merged-histories", w + "/source", e, f"from {show(src)[:60]}")
                jx = [as_slice(q) for q in (x.args[1].args[0] if x.args[1].kind == "tuple" else [x.args[1]])]
                if jx[-1].kind == "slice":
                    lo, hi = jx[-1].args[0], jx[-1].args[1]
                    r.check(peq(lo, one) and peq(hi, T("bin", "+", N1, one)), "merged-histories", w + "/columns", e, f"columns {show(jx[-1])[:60]}")
            if name == "state_history":
                it_ = [v.c(l[1]) for l in e.loops]
                r.check(not any(mentions_attr(y, "aux_vars") for y in it_), "merged-histories", w + "/variables", e, "not over the optimization variables")
            gs = own(v, e)
            none = [x for g, p in gs for x in q_atoms(g) if is_none_test(x, lambda y: on(y, name, I) or on(y, name, G))]
            r.check(covers([(x, False) for x in none], [gs]), "merged-histories", w + "/always", e, "not merged whenever tracked")
    # best
    be, ge = T("attr", I, "best_err"), T("attr", G, "best_err")

    def side(t):
        """which loop an element selector prefers when true: (own is better, ties to own)"""
        t = core_value(t)
        if t.kind == "cmp" and t.args[0] in ("<", "<="):
            x, y = core_value(t.args[1]), core_value(t.args[2])
            if x is be and y is ge:
                return "info", t.args[0] == "<="
            if x is ge and y is be:
                return "grad", t.args[0] == "<"
        if t.kind == "un" and t.args[0] in ("not", "~"):
            s = side(t.args[1])
            return (("grad" if s[0] == "info" else "info"), s[1]) if s else None
        return None

    ties = {}
    for n in ("best_solution", "best_iter"):
        evs = [e for e in v.sets(n) if v.c(e.base) is I] + [e for e in v.setitems() if on(v.c(e.base), n, I)]
        r.check(evs, "merged-best", f"{W}/{n}", v, f"{n} of the differentiable loop is ignored")
        for e in evs:
            x = v.c(e.value)
            items = [x]
            if n == "best_solution" and x.kind == "coll":
                items = [en.value for en in entries(x) or [] if en.kind == "kv"]
                r.check(items or entries(x) is None, "merged-best", f"{W}/{n}/empty", e, "the merged best solution is empty")
                for en in entries(x) or []:
                    if en.kind == "kv":
                        r.check(not en.guards and en.loops, "merged-best", f"{W}/{n}/all", e, "not for all variables")
            for y in items:
                if not is_call(y, "where"):
                    r.skip("merged-best", f"{W}/{n}", show(y)[:60])
                    continue
                c, p1, p2 = get_arg(y, 0, "condition"), get_arg(y, 1, "input"), get_arg(y, 2, "other")
                c = core_value(c)
                s = side(c)
                if s is None:
                    r.skip("merged-best", f"{W}/{n}", show(c)[:60])
                    continue
                yes, no = (I, G) if s[0] == "info" else (G, I)
                r.check(has_any(p1, T("attr", yes, n)) and not has_any(p1, T("attr", no, n)) and has_any(p2, T("attr", no, n)), "merged-best", f"{W}/{n}", e,
                        f"where {show(c)[:50]}: {show(p1)[:40]} else {show(p2)[:40]}")
                ties[n] = (s[1], e)
                if n == "best_iter":
                    gpart = p2 if yes is I else p1
                    ipart = p1 if yes is I else p2
                    r.check(peq(gpart, T("bin", "+", T("attr", G, n), N0)), "merged-iteration-index", W, e, f"best iteration of the second loop becomes {show(gpart)[:60]}")
                    r.check(peq(ipart, T("attr", I, n)), "merged-iteration-index", W + "/first", e, f"best iteration of the first loop becomes {show(ipart)[:60]}")
                elif n == "best_solution":
                    k1 = [z.args[1] for q in (p1, p2) for z in subterms(q) if z.kind == "sub" and z.args[0] in (T("attr", I, n), T("attr", G, n))]
                    r.check(len(set(k1)) <= 1, "merged-best", f"{W}/{n}/same-variable", e, "solutions of different variables are mixed")
            gs = own(v, e)
            none = [z for g, p in gs for z in q_atoms(g) if is_none_test(z, lambda y: y.kind == "attr" and y.args[1].startswith("best"))]
            r.check(covers([(z, False) for z in none], [gs]), "merged-best", f"{W}/{n}/always", e, "not merged whenever tracked")
    if len(ties) == 2:
        r.check(ties["best_solution"][0] == ties["best_iter"][0], "merged-best-consistent", W, ties["best_solution"][1],
                "when both loops reach the same best error, solution and iteration come from different loops")
    evs = [e for e in v.sets("best_err") if v.c(e.base) is I]
    r.check(evs, "merged-best", f"{W}/best_err", v, "best error of the second loop is ignored")
    for e in evs:
        x = v.c(e.value)
        if is_call(x, "minimum", "where", "min", "fmin"):
            r.check(has_any(x, be) and has_any(x, ge), "merged-best", f"{W}/best_err/value", e, show(x)[:80])
        elif is_call(x, "maximum", "max") or core_value(x) in (be, ge):
            r.bad("merged-best", f"{W}/best_err/value", e, show(x)[:80])
        else:
            r.skip("merged-best", f"{W}/best_err/value", show(x)[:80])
    evs = [e for e in v.sets("last_err") if v.c(e.base) is I]
    r.check(evs and v.always(evs), "merged-last-error", W, v, "the last error of the differentiable loop is dropped")
    for e in evs:
        r.check(core_value(v.c(e.value)) is T("attr", G, "last_err"), "merged-last-error", W + "/value", e, show(e.value)[:60])
    # status: only elements that did not finish in the first loop change
    gst = T("attr", G, "status")

    def unfinished(t):
        return contains(t, lambda y: y.kind == "cmp" and y.args[0] == "==" and any(status_of(z) == "MAX_ITERATIONS" for z in y.args[1:]) and any(on(
            z, "status", I) for z in y.args[1:])) and not contains(t, lambda y: y.kind == "un")

    evs = [e for e in v.setitems() if on(v.c(e.base), "status", I)]
    sets = [e for e in v.sets("status") if v.c(e.base) is I]
    r.check(evs or sets, "merged-status", W, v, "status of the second loop is dropped")
    for e in evs:
        ix = core_value(v.c(e.index))
        r.check(unfinished(ix), "merged-status", W + "/where", e, f"status replaced where {show(ix)[:80]}")
        x = v.c(e.value)
        r.check(x.kind == "sub" and x.args[0] is gst and core_value(x.args[1]) is ix, "merged-status", W + "/value", e, f"becomes {show(x)[:80]}")
    evs = [e for e in v.setitems() if on(v.c(e.base), "converged_iter", I)]
    consts = [e for e in evs if v.c(e.value).kind == "const" or v.c(e.value).kind == "un"]
    r.check(consts, "merged-iteration-count", W + "/unconverged", v, "elements that converged in neither loop keep a converged iteration")
    r.check(len(evs) > len(consts), "merged-iteration-count", W + "/sum", v, "iterations of the second loop are not added")
    r.check(evs, "merged-iteration-count", W, v, "iterations of the second loop are not counted")
    for e in evs:
        ix = core_value(v.c(e.index))
        r.check(unfinished(ix), "merged-iteration-count", W + "/where", e, f"counts replaced where {show(ix)[:80]}")
        x = v.c(e.value)
        if x.kind == "const" or (x.kind == "un" and x.args[1].kind == "const"):
            r.check(peq(x, const(-1)), "merged-iteration-count", W + "/unconverged", e, f"marks {show(x)}")
            r.check(contains(ix, lambda y: y.kind == "cmp" and any(on(z, "status", G) for z in y.args[1:]) and any(status_of(z) == "MAX_ITERATIONS" for z in y.args[1:])),
                    "merged-iteration-count", W + "/unconverged-where", e, f"-1 where {show(ix)[:80]}")
        else:
            parts = poly(x)
            ok = len(parts) == 2 and all(len(m) == 1 and k == 1 and m[0].kind == "sub" and core_value(m[0].args[1]) is ix and any(on(m[0].args[0], "converged_iter", q) for q in (I, G))
                                         for m, k in parts.items()) and len({m[0].args[0] for m in parts}) == 2
            r.check(ok, "merged-iteration-count", W + "/value", e, f"becomes {show(x)[:100]}")
    # an assertion must not turn a reported failure into a crash
    for e in v.kinds("assert"):
        c = v.c(e.value)
        if contains(c, lambda y: y.kind == "sub" and y.args[0] is gst) or has_any(c, gst):
            named = {status_of(y) for y in subterms(c) if status_of(y)}
            if "CONVERGED" in named or "MAX_ITERATIONS" in named:
                r.check("FAIL" in named or "START" in named, "merged-failure", W, e, "a failed solve in the differentiable loop raises instead of being reported")


# ------------------------------------------------------------------ how many iterations

def mode_eq(y):
    return y.kind == "attr" and show(y.args[0]).endswith("BackwardMode")


def under_mode(v, t, mode):
    """specialise a term to a backward mode"""

    def f(x):
        if x.kind == "cmp" and x.args[0] in ("==", "is") and any(mode_eq(y) for y in x.args[1:]):
            m = [y.args[1] for y in x.args[1:] if mode_eq(y)]
            if len(m) == 1:
                return const(m[0] == mode)
        if x.kind == "cmp" and x.args[0] == "in":
            c = x.args[2]
            es = [en.value for en in entries(c) or []] if c.kind == "coll" else (list(c.args[0]) if c.kind in ("tuple", "list", "set") else [])
            if es and all(mode_eq(y) for y in es):
                return const(mode in {y.args[1] for y in es})
        if x.kind == "sub" and x.args[0].kind == "coll":
            es = entries(x.args[0])
            if es and all(en.kind == "kv" and mode_eq(en.key) for en in es):
                hit = [en.value for en in es if en.key.args[1] == mode]
                return hit[0] if hit else x
        return x

    return assume(rebuild(t, f), {})


MODES = ("UNROLL", "DLM", "IMPLICIT", "TRUNCATED")


def holds(v, gs, mode):
    out = []
    for g, p in gs:
        g = under_mode(v, v.c(g), mode)
        out += [(g, p)]
    return sat(out)


def check_split(a, r):
    W = "NonlinearOptimizer._split_backward_iters"
    v = a.view("NonlinearOptimizer", "_split_backward_iters")
    for ret in v.returns():
        x = v.c(ret.value)
        if x.kind != "tuple" or len(x.args[0]) != 2:
            r.skip("iterations-split", W, show(x)[:60])
            continue
        for mode in MODES:
            if not holds(v, core(v, ret.guards), mode):
                continue
            b, n = [under_mode(v, y, mode) for y in x.args[0]]
            M = [y for y in subterms(x) if y.kind == "attr" and y.args[1] == "max_iterations"]
            if not M:
                r.skip("iterations-split", W, "max_iterations not used")
                continue
            M = M[0]
            for gs, bb in cases(b):
                r.check(peq(T("bin", "+", bb, assume_guards(n, gs)), M), "iterations-split", f"{W}/{mode}/sum", ret,
                        f"{mode}: {show(bb)[:50]} + {show(n)[:50]} is not max_iterations")
                if mode in ("UNROLL", "DLM"):
                    r.check(peq(bb, M), "iterations-split", f"{W}/{mode}", ret, f"{mode} differentiates {show(bb)[:50]} iterations")
                elif mode == "IMPLICIT":
                    r.check(peq(bb, const(1)) or (is_call(bb, "min") and any(is_const(y, 1) for y in call_pos(bb))), "iterations-split", f"{W}/{mode}", ret,
                            f"{mode} differentiates {show(bb)[:50]} iterations")
                else:
                    if is_call(bb, "min"):
                        ps = call_pos(bb)
                        r.check(M in ps and any(contains(y, lambda z: is_const(z, "backward_num_iterations")) or mentions_param(y, "backward_num_iterations") for y in ps), "iterations-split",
                                f"{W}/{mode}", ret, f"{mode} differentiates {show(bb)[:60]} iterations")
                    else:
                        capped = any(lower_bound(g, p) is not None and has_any(g, M) for g, p in list(gs))
                        r.check(capped or bb is M, "iterations-split", f"{W}/{mode}/cap", ret, f"more than max_iterations possible: {show(bb)[:60]}")


def check_impl(a, r, cls):
    W = f"{cls.name}._optimize_impl"
    v = a.view(cls, "_optimize_impl", opaque=("_optimize_loop", "_merge_infos", "_split_backward_iters"), inline_key="c21i")
    loops = v.calls("_optimize_loop")
    merges = v.calls("_merge_infos")
    supported = []
    for mode in MODES:
        raised = [e for e in v.raises() if holds(v, core(v, e.guards), mode) and any(mode_atoms(v, g) for g, _ in e.guards)]
        lo = [e for e in loops if holds(v, core(v, e.guards), mode)]
        if not lo:
            r.check(raised, "mode-runs-loop", f"{W}/{mode}", v, f"{mode} runs no iteration")
            continue
        supported.append(mode)
        rets = [e for e in v.returns() if holds(v, core(v, e.guards), mode)]

        def part(t):
            """index into the split, or 'max'"""
            t = under_mode(v, v.c(t), mode)
            if t.kind == "sub" and is_call(t.args[0], "_split_backward_iters"):
                return t.args[1].args[0] if t.args[1].kind == "const" else None
            if t.kind == "item" and is_call(t.args[0], "_split_backward_iters"):
                return t.args[1]
            if t.kind == "attr" and t.args[1] == "max_iterations":
                return "max"
            return None

        if mode in ("UNROLL", "DLM"):
            r.check(len(lo) == 1, "mode-runs-loop", f"{W}/{mode}", v, f"{len(lo)} loops run")
            for e in lo:
                n = get_arg(e.term, 0, "num_iter")
                r.check(part(n) in (0, "max") or n is None or part(n) is None and not has_split(n), "mode-runs-loop", f"{W}/{mode}/count", e, f"runs {show(n)[:60]} iterations")
                im = get_arg(e.term, 4, "_last_implicit_diff_step")
                r.check(im is None or is_const(under_mode(v, v.c(im), mode), False), "mode-runs-loop", f"{W}/{mode}/implicit", e, f"implicit flag {show(im)[:40] if im is not None else ''}")
                inf = get_arg(e.term, 1, "info")
                for x in rets:
                    r.check(x.value is inf or v.c(x.value) is v.c(inf), "information-returned", f"{W}/{mode}", x, "another information object is returned")
            fix = [e for e in v.setitems() if v.c(e.base).kind == "attr" and v.c(e.base).args[1] == "converged_iter" and holds(v, core(v, e.guards), mode)] + [
                e for e in v.setitems() if "converged_iter" in show(e.base) and holds(v, core(v, e.guards), mode)]
            r.check(fix, "unconverged-marked", f"{W}/{mode}", v, "elements that did not converge keep a converged iteration")
            for e in fix:
                x = v.c(e.value)
                ix = v.c(e.index)
                r.check(peq(x, const(-1)), "unconverged-marked", f"{W}/{mode}/value", e, show(x)[:30])
                r.check(contains(ix, lambda y: status_of(y) == "MAX_ITERATIONS") and ix.kind == "cmp" and ix.args[0] == "==", "unconverged-marked", f"{W}/{mode}/where", e, show(ix)[:60])
                r.check(all(q.seq < e.seq for q in lo), "unconverged-marked", f"{W}/{mode}/order", e, "marked before the loop")
        else:
            if len(lo) != 2:
                r.check(len(lo) > 2, "mode-runs-loop", f"{W}/{mode}", v, f"{len(lo)} loops run instead of two")
                continue
            e0, e1 = lo
            n0, n1 = get_arg(e0.term, 0, "num_iter"), get_arg(e1.term, 0, "num_iter")
            r.check(part(n0) == 1 or not has_split(n0), "mode-runs-loop", f"{W}/{mode}/first", e0, f"first loop runs {show(n0)[:60]}")
            r.check(part(n1) == 0 or not has_split(n1), "mode-runs-loop", f"{W}/{mode}/second", e1, f"second loop runs {show(n1)[:60]}")
            i0, i1 = get_arg(e0.term, 1, "info"), get_arg(e1.term, 1, "info")
            r.check(i0 is not i1, "own-information-per-loop", f"{W}/{mode}", e1, "both loops write into the same information")
            im = get_arg(e1.term, 4, "_last_implicit_diff_step")
            imv = under_mode(v, v.c(im), mode) if im is not None else const(False)
            if imv.kind == "const":
                r.check(imv.args[0] is (mode == "IMPLICIT"), "mode-runs-loop", f"{W}/{mode}/implicit", e1, f"implicit flag {imv.args[0]}")
            im0 = get_arg(e0.term, 4, "_last_implicit_diff_step")
            r.check(im0 is None or is_const(under_mode(v, v.c(im0), mode), False), "mode-runs-loop", f"{W}/{mode}/implicit-first", e0, "the undifferentiated loop takes implicit steps")
            # the second information starts after the first loop
            em = [e for e in v.calls("error_metric") if holds(v, core(v, e.guards), mode)]
            r.check(any(e0.seq < e.seq < e1.seq for e in em) or not em, "own-information-per-loop", f"{W}/{mode}/initial", e1,
                    "information of the second loop does not start from the values left by the first")
            ms = [e for e in merges if holds(v, core(v, e.guards), mode)]
            r.check(ms, "information-merged", f"{W}/{mode}", v, "the two loops' information is not merged")
            for e in ms:
                r.check(e.seq > e1.seq, "information-merged", f"{W}/{mode}/order", e, "merged before the second loop ran")
                r.check(get_arg(e.term, 0, "grad_loop_info") is i1, "information-merged", f"{W}/{mode}/second", e, "second information wrong")
                r.check(get_arg(e.term, 3, "info") is i0, "information-merged", f"{W}/{mode}/first", e, "first information wrong")
                k0, k1 = get_arg(e.term, 1, "num_no_grad_iters"), get_arg(e.term, 2, "num_grad_iters")
                if k0 is not None and k1 is not None:
                    r.check(k0 is e0.term or k0 is v.c(e0.term) or not done_of(k0, e0, e1), "information-merged", f"{W}/{mode}/iterations-done", e,
                            f"first loop's iterations taken as {'planned' if has_split(k0) else show(k0)[:40]}")
                    r.check(k1 is e1.term or not done_of(k1, e0, e1), "information-merged", f"{W}/{mode}/iterations-done-2", e,
                            f"second loop's iterations taken as {'planned' if has_split(k1) else show(k1)[:40]}")
            for x in rets:
                r.check(x.value is i0 or v.c(x.value) is v.c(i0) and x.value is not i1, "information-returned", f"{W}/{mode}", x, "the unmerged information is returned")
        for e in lo:
            cb = get_arg(e.term, 3, "end_iter_callback")
            if "end_iter_callback" in v.func.params:
                r.check(cb is not None and p_param(cb, "end_iter_callback"), "callback-forwarded", f"{W}/{mode}", e, "the callback does not reach the loop")
            r.check(any(y.kind == "param" and y.args[1].startswith("**") for y in subterms(v.c(e.term))), "arguments-forwarded", f"{W}/{mode}", e, "optimizer arguments do not reach the loop")
    r.check(supported, "mode-runs-loop", W, v, "no mode runs")
    for e in v.calls("_init_info"):
        for n in ("track_best_solution", "track_err_history", "track_state_history"):
            t = get_arg(e.term, 99, n)
            if n in v.func.params:
                r.check(t is not None and p_param(t, n), "tracking-as-requested", f"{W}/{n}", e, f"{n} becomes {show(t)[:40] if t is not None else 'its default'}")


def has_split(t):
    return t is not None and (mentions_call(t, "_split_backward_iters") or mentions_attr(t, "max_iterations"))


def done_of(k, e0, e1):
    """an expression recognisably something else than the loop's result"""
    return has_split(k) or k is e0.term or k is e1.term or k.kind == "const"


def mode_atoms(v, g):
    return contains(v.c(g), mode_eq)


def check_convergence(a, r):
    W = "NonlinearOptimizer._check_convergence"
    v = a.view("NonlinearOptimizer", "_check_convergence")
    ps = [n for n in v.func.params if n != "self"]
    if len(ps) != 2:
        r.skip("tolerances", W, "signature")
        return
    err, last = [T("param", v.func.qual, n) for n in ps]
    used = set()
    for ret in v.returns():
        x = v.c(ret.value)
        for gs, c in cases(x):
            allg = list(core(v, ret.guards)) + list(gs)
            for y in subterms(c):
                if y.kind == "cmp" and y.args[0] in ("<", "<="):
                    check_tol(r, v, W, ret, y, err, last, used)
            if is_call(c, "ones_like") or contains(c, lambda y: is_call(y, "ones_like", "full_like", "ones")):
                r.check(any(p and contains(v.c(g), lambda y: y.kind == "attr" and y.args[1] == "abs_err_tolerance") for g, p in allg), "tolerances", W + "/all", ret,
                        "everything declared converged without comparing the error")
    r.check("abs" in used, "tolerances", W + "/abs", v, "absolute tolerance unused")
    r.check("rel" in used, "tolerances", W + "/rel", v, "relative tolerance unused")
    for ret in v.returns():
        x = v.c(ret.value)
        for y in subterms(x):
            if y.kind in ("bin",) and y.args[0] == "&" or is_call(y, "logical_and"):
                r.bad("tolerances", W + "/either", ret, "both tolerances must hold for convergence")


def check_tol(r, v, W, ret, y, err, last, used):
    lhs, rhs = y.args[1], y.args[2]
    tol = [z.args[1] for z in subterms(rhs) if z.kind == "attr" and z.args[1].endswith("err_tolerance")]
    tol_l = [z.args[1] for z in subterms(lhs) if z.kind == "attr" and z.args[1].endswith("err_tolerance")]
    if tol_l and not tol:
        r.bad("tolerances", W + "/direction", ret, f"converged while the change exceeds the tolerance: {show(y)[:80]}")
        return
    if not tol:
        return
    absd = contains(lhs, lambda z: is_call(z, "abs", "fabs", "absolute"))
    r.check(absd, "tolerances", W + "/absolute-value", ret, f"a growing error counts as converged: {show(y)[:80]}")
    both = has_any(lhs, err) and has_any(lhs, last)
    r.check(both, "tolerances", W + "/change", ret, f"compares {show(lhs)[:60]}")
    for z in subterms(lhs):
        if z.kind == "bin" and z.args[0] in ("+", "*") and has_any(z.args[1], err, last) and has_any(z.args[2], err, last):
            r.bad("tolerances", W + "/difference", ret, f"change measured as {show(z)[:60]}")
    div = [z for z in subterms(lhs) if z.kind == "bin" and z.args[0] == "/" or is_call(z, "div", "divide", "true_divide")]
    if tol[0] == "rel_err_tolerance":
        used.add("rel")
        r.check(div or contains(rhs, lambda z: z.kind == "bin" and z.args[0] == "*"), "tolerances", W + "/relative", ret, f"relative tolerance on {show(lhs)[:60]}")
        for z in div:
            if z.kind == "bin":
                r.check(has_any(z.args[2], last) or has_any(z.args[2], err), "tolerances", W + "/relative-to", ret, f"relative to {show(z.args[2])[:40]}")
    else:
        used.add("abs")
        r.check(not div, "tolerances", W + "/abs-plain", ret, f"absolute tolerance on {show(lhs)[:60]}")


def check_settings(a, r):
    """constructor arguments end up in the parameters of the same name"""
    base = a.p.cls("NonlinearOptimizer")
    for cls in a.p.subclasses(base, strict=False):
        f = a.p.method(cls, "__init__")
        if f is None:
            continue
        v = a.view(cls, "__init__", known={x for x in a.known if not (x.endswith(".__init__") and "optimizer" in x)}, inline_key="c21init")
        W = f"{cls.name}.__init__"
        ps = [e for e in v.sets("params") if is_self(e.base)]
        fields = {}
        for e in ps:
            x = v.c(e.value)
            if x.kind == "make" and isinstance(x.args[1], tuple):
                fields = {str(k): y for k, y in x.args[1]}
        if not fields:
            r.skip("settings-kept", W, "parameters not recognised")
            continue
        for n in ("abs_err_tolerance", "rel_err_tolerance", "max_iterations", "step_size"):
            x = fields.get(n)
            if x is None:
                continue
            has_own = n in f.params
            if has_own:
                r.check(any(p_param(y, n) for y in subterms(x)), "settings-kept", f"{W}/{n}", ps[0], f"{n} becomes {show(x)[:50]}")
                r.check(not any(y.kind == "param" and y.args[1] not in (n, "**kwargs") for y in subterms(x)), "settings-kept", f"{W}/{n}/own", ps[0], f"{n} becomes {show(x)[:50]}")
    v = a.view("NonlinearOptimizerParams", "update")
    se = [e for e in v.events if e.kind == "call" and e.term is not None and (call_name(e.term) in ("setattr", "__setattr__") or is_call(e.term, "setattr"))] + [
        e for e in v.kinds("setattr", "setitem") if e.loops]
    W = "NonlinearOptimizerParams.update"
    r.check(se, "settings-kept", W, v, "set_params changes nothing")
    for e in se:
        if e.kind == "call":
            ps = call_pos(e.term)
            r.check(len(ps) == 3 and is_self(ps[0]) and ps[1].kind in ("key", "elem", "idx", "item", "sub") and ps[2] is not ps[1] and not ps[2].kind == "key", "settings-kept", W + "/what", e, f"sets {show(e.term)[:60]}")
            unk = [(x, p) for g, p in e.guards for x in q_atoms(g) if is_call(x, "hasattr")]
            r.check(all(sat(list(e.guards) + [(x, True)]) for x, p in unk), "settings-kept", W + "/known", e, "known parameters are not set")
    r.check(v.raises(), "unknown-setting-refused", W, v, "unknown parameters are silently accepted")
    v = a.view("NonlinearOptimizer", "set_params")
    r.check(any(mentions_attr(v.c(e.term), "params") for e in v.events if e.kind == "call" and e.term is not None) or v.sets(), "settings-kept", "NonlinearOptimizer.set_params", v, "nothing is set")


def check(a, r):
    base = a.p.cls("NonlinearOptimizer")
    seen, seen2 = set(), set()
    for cls in a.p.subclasses(base, strict=False):
        f = a.p.method(cls, "_optimize_loop")
        ui = a.p.method(cls, "_update_info")
        if f is not None and (f.qual, ui.qual if ui else None) not in seen:
            seen.add((f.qual, ui.qual if ui else None))
            check_loop(a, r, cls)
        g = a.p.method(cls, "_optimize_impl")
        if g is not None and g.cls is not base and g.qual not in seen2 and f is not None:
            seen2.add(g.qual)
            check_impl(a, r, cls)
    if not seen:
        raise AnalysisBroken("no _optimize_loop found")
    check_settings(a, r)
    check_init(a, r)
    check_merge(a, r)
    check_split(a, r)
    check_convergence(a, r)
    base = a.p.cls("NonlinearLeastSquares")
    f = a.p.method(base, "_optimize_impl") if base is not None else None
    if f is not None:
        r.parallel(a, [*runs.parts(runs.records, f.loc), (runs.failures, (f.loc,))])
