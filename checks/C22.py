"""Backward modes: the gradient mode (with blocks, decorators) every step of the
optimization runs under, specialised to each backward mode; detaching operations between a
linear solve and the variables; graphs kept by recorded values; direct loss minimization."""
from sa import runs
from sa.rules import *  # noqa: F401,F403
from checks.C08 import core
from checks.C21 import MODES, holds, under_mode

CUTS = ("detach", "detach_", "item", "numpy", "tolist")
MODE = ("no_grad", "enable_grad", "set_grad_enabled", "inference_mode")
ALLOC = ("zeros_like", "ones_like", "empty_like", "full_like", "new_zeros", "new_ones", "new_empty", "new_full", "new_tensor", "size", "dim", "numel",
         "argmax", "argmin", "argsort", "all", "any", "is_grad_enabled", "isinstance", "len", "type")
CONDS = {"where": 0, "masked_fill": 0}


def grad_mode(e):
    """off, on or ambient"""
    for c in reversed(e.ctxs):
        n = call_name(c) if c.kind == "call" else ""
        if n == "no_grad" or n == "inference_mode":
            return "off"
        if n == "enable_grad":
            return "on"
        if n == "set_grad_enabled":
            a = call_pos(c)[0] if call_pos(c) else None
            return {True: "on", False: "off"}.get(a.args[0] if a is not None and is_const(a) else None, "unknown")
    return "ambient"


def cuts(v, t, seen=None):
    """operations on the way of the value that drop its graph: list of (term, guards)"""
    out = []
    seen = set() if seen is None else seen

    def go(t, gs):
        if t is None or not hasattr(t, "kind") or (t, gs) in seen:
            return
        seen.add((t, gs))
        k = t.kind
        if k == "call":
            n = call_name(t)
            rc = call_recv(t)
            if n in ALLOC:
                return
            if n in CUTS and rc is not None and rc.kind not in ("module", "ext"):
                out.append((t, gs))
                return
            if n in CONDS:
                kw = call_kw(t)
                for nm, x in kw.items():
                    if nm not in ("condition", "mask"):
                        go(x, gs)
                for i, x in enumerate(call_pos(t)):
                    if not (i == 0 and ("condition" not in kw and "mask" not in kw)):
                        go(x, gs)
                if rc is not None:
                    go(rc, gs)
                return
            if rc is not None:
                go(rc, gs)
            for x in (*call_pos(t), *call_kw(t).values()):
                go(x, gs)
            return
        if k == "attr":
            if t.args[1] == "data":
                out.append((t, gs))
                return
            if t.args[1] in ("shape", "dtype", "device", "ndim", "requires_grad"):
                return
            go(t.args[0], gs)
            return
        if k == "phi":
            go(t.args[1], gs + ((t.args[0], True),))
            go(t.args[2], gs + ((t.args[0], False),))
            return
        if k == "sub":
            go(t.args[0], gs)
            return
        if k == "upd":
            go(t.args[0], gs)
            go(t.args[2], gs)
            return
        if k == "cmp":
            return
        for x in t.args:
            if isinstance(x, tuple):
                for y in x:
                    if hasattr(y, "kind"):
                        go(y, gs)
                    elif isinstance(y, tuple):
                        for z in y:
                            if hasattr(z, "kind"):
                                go(z, gs)
            elif hasattr(x, "kind"):
                go(x, gs)
    go(t, ())
    return out


def graph(v, e):
    """guards a recorded value depends on that switch the detaching on"""
    return [(g, p) for g, p in core(v, e.guards)]


# ------------------------------------------------------------------ modes of the outer function
def check_modes(a, r, cls):
    W = f"{cls.name}._optimize_impl"
    if a.p.method(cls, "_optimize_loop") is None:
        v = a.view(cls, "_optimize_impl", inline_key="c22i")
        flow(a, r, v, W)
        return
    v = a.view(cls, "_optimize_impl", opaque=("_optimize_loop", "_merge_infos", "_split_backward_iters"), inline_key="c21i")
    for mode in MODES:
        lo = [e for e in v.calls("_optimize_loop") if holds(v, core(v, e.guards), mode)]
        if not lo:
            continue
        modes = [grad_mode(e) for e in lo]
        if mode in ("UNROLL", "DLM"):
            r.check(all(m == "ambient" for m in modes), "gradient mode of the iterations", f"{W}/{mode}", lo[0], f"{mode} iterations run with gradients {modes}")
        elif len(lo) == 2:
            r.check(modes[0] == "off", "gradient mode of the iterations", f"{W}/{mode}/first", lo[0], f"the iterations without derivative run with gradients {modes[0]}")
            r.check(modes[1] == "ambient", "gradient mode of the iterations", f"{W}/{mode}/last", lo[1], f"the differentiated iterations run with gradients {modes[1]}")
    bare_mode(a, r, v, W)


def bare_mode(a, r, v, W):
    """gradient mode is only changed by with blocks or decorators"""
    ctx = set()
    for e in v.events:
        for c in e.ctxs:
            ctx.add(c)
        if e.kind == "with" and e.value is not None:
            ctx.add(e.value)
            ctx.add(v.c(e.value))
    for e in v.kinds("call", "mutcall"):
        if e.term is None:
            continue
        n = call_name(e.term)
        if n in ("set_grad_enabled", "_set_grad_enabled"):
            if e.term in ctx or v.c(e.term) in ctx:
                r.ok("gradient mode restored", W, e)
            elif any(call_name(x.term) == n and any(is_call(y, "is_grad_enabled") for q in call_pos(x.term) for y in subterms(v.c(q))) for x in v.kinds("call") if x.term is not None):
                r.skip("gradient mode restored", W, "explicit save and restore")
            else:
                r.bad("gradient mode restored", W, e, "gradient mode is changed and not put back")


# ------------------------------------------------------------------ flow of the step into the variables
def flow(a, r, v, W):
    """solve -> step -> variables carries the graph"""
    for e in v.calls("linearize", "solve", "compute_delta", "retract_vars_sequence", "_CEM_step", "rsample"):
        n = call_name(e.term)
        if n in ("solve",) and not ("linear_solver" in show(call_recv(e.term)) or show(call_recv(e.term)) == "self"):
            continue
        r.check(grad_mode(e) == "ambient", "step recorded", f"{W}/{n}", e, f"{n} runs with gradients {grad_mode(e)}")
    for e in v.calls("retract_vars_sequence"):
        d = get_arg(e.term, 0, "delta")
        if d is None:
            continue
        for x, gs in cuts(v, v.c(d)):
            r.bad("step recorded", f"{W}/delta", e, f"the step loses its graph: {show(x)[:80]}")
            break
        else:
            r.ok("step recorded", f"{W}/delta", e)
    for e in v.calls("update"):
        rc = show(call_recv(e.term))
        d = get_arg(e.term, 0, "input_tensors") or get_arg(e.term, 0, "data")
        if d is None or "info" in rc:
            continue
        if rc.endswith("objective") or "var" in rc or "ordering" in rc:
            r.check(grad_mode(e) == "ambient", "variables keep the graph", f"{W}/{e.func.name}", e, f"variables are updated with gradients {grad_mode(e)}")
            x = cuts(v, v.c(d))
            r.check(not x, "variables keep the graph", f"{W}/{e.func.name}", e, f"the update loses its graph: {show(x[0][0])[:80] if x else ''}")
    for e in v.kinds("call", "mutcall"):
        if e.term is not None and call_name(e.term) in ("detach_", "requires_grad_") and call_recv(e.term) is not None:
            r.bad("variables keep the graph", f"{W}/{e.func.name}", e, f"{show(e.term)[:60]}")


def check_loop(a, r, cls):
    W = f"{cls.name}._optimize_loop"
    v = a.view(cls, "_optimize_loop", inline_key="c22")
    flow(a, r, v, W)
    bare_mode(a, r, v, W)
    flag = T("param", v.func.qual, "_last_implicit_diff_step")
    if "_last_implicit_diff_step" not in v.func.params:
        return
    # Gauss-Newton steps with detached Hessian exactly in the implicit step
    for e in v.calls("linearize"):
        d = get_arg(e.term, 0, "_detach_hessian")
        d = v.c(d) if d is not None else const(False)
        for val_ in (True, False):
            if not sat([*core(v, e.guards), (flag, val_)]):
                continue
            w = assume(d, {flag: val_})
            if w.kind == "const":
                r.check(bool(w.args[0]) == val_, "hessian detached in the implicit step", f"{W}/{val_}", e, f"detached={w.args[0]} when implicit={val_}")
    def when(val_):
        return lambda e: sat([*core(v, e.guards), (flag, val_)])
    exc = [e for e in v.calls("compute_delta") if when(True)(e) and not any("exc<" in show(g) and p for g, p in e.guards)]
    r.check(not exc, "implicit step is a Gauss-Newton step", W, exc[0] if exc else v, "the optimizer's own step is differentiated")
    sol = [e for e in v.calls("solve") if when(True)(e)]
    r.check(sol, "implicit step is a Gauss-Newton step", f"{W}/solve", sol[0] if sol else v, "no linear solve in the implicit step")
    for e in sol:
        x = [y for y in (*call_pos(e.term), *call_kw(e.term).values())]
        r.check(not any(mentions_attr(v.c(y), "_damping") for y in x), "implicit step is a Gauss-Newton step", f"{W}/undamped", e, "the implicit step is damped")
    for e in v.calls("retract_vars_sequence"):
        if not when(True)(e):
            continue
        f = get_arg(e.term, 3, "force_update")
        if f is None:
            r.bad("implicit step updates every element", W, e, "converged elements receive no differentiable step")
            continue
        w = assume(v.c(f), {flag: True})
        if w.kind == "const":
            r.check(w.args[0] is True, "implicit step updates every element", W, e, "converged elements receive no differentiable step")
        d = get_arg(e.term, 0, "delta")
        w = assume(v.c(d), {flag: True})
        # step size one unless the private option keeps it
        if d is not None:
            w = settle(w)
            r.check(not mentions_attr(w, "step_size"), "implicit step has size one", W, e, "the implicit step is scaled by the step size")
    for e in v.calls("_complete_step"):
        r.check(not when(True)(e), "implicit step updates every element", f"{W}/reject", e, "the implicit step can be rejected")
    for e in v.calls("update"):
        m = get_arg(e.term, 1, "batch_ignore_mask")
        if m is None or not show(call_recv(e.term)).endswith("objective") or not when(True)(e):
            continue
        w = assume(v.c(m), {flag: True})
        r.check(is_const(w, None), "implicit step updates every element", f"{W}/mask", e, "elements are left out of the implicit step") if w.kind == "const" or True else None


def settle(t):
    """decide what is known of the implicit step: no private option, freshly made tensors are not None"""
    def f(x):
        if x.kind == "phi":
            c, p = x.args[0], True
            while c.kind == "un" and c.args[0] == "not":
                c, p = c.args[1], not p
            w = None
            if is_call(c, "get", "pop") and any(is_const(y) and isinstance(y.args[0], str) and "step_size" in y.args[0] for y in call_pos(c)):
                w = False
            if c.kind == "cmp" and c.args[0] in ("is", "==") and any(is_const(y, None) for y in c.args[1:]):
                o = [y for y in c.args[1:] if not is_const(y, None)]
                if o and o[0].kind in ("call", "bin"):
                    w = False
            if w is not None:
                return x.args[1] if w == p else x.args[2]
        return x
    for _ in range(3):
        t = rebuild(t, f)
    return t


def check_delta(a, r, cls):
    f = a.p.method(cls, "compute_delta")
    if f is None or f.cls is not cls:
        return
    W = f"{cls.name}.compute_delta"
    v = a.view(cls, "compute_delta", inline_key="c22")
    for e in v.calls("solve"):
        r.check(grad_mode(e) == "ambient", "step recorded", f"{W}/solve", e, f"solve runs with gradients {grad_mode(e)}")
    for e in v.returns():
        if is_const(v.c(e.value)):
            continue
        x = cuts(v, v.c(e.value))
        r.check(not x, "step recorded", W, e, f"the step loses its graph: {show(x[0][0])[:80] if x else ''}")
        r.check(grad_mode(e) == "ambient", "step recorded", W, e, f"the step is computed with gradients {grad_mode(e)}")


def check_linearization(a, r, cls):
    for m in ("_linearize_jacobian_impl", "_linearize_hessian_impl"):
        f = a.p.method(cls, m)
        if f is None or f.cls is not cls:
            continue
        W = f"{cls.name}.{m}"
        v = a.view(cls, m, inline_key="c22")
        fl = [x for x in v.func.params if "detach" in x]
        flag = T("param", v.func.qual, fl[0]) if fl else None
        for e in v.kinds("setattr", "setitem"):
            if e.value is None:
                continue
            val_ = v.c(e.value)
            if not contains(val_, lambda y: y.kind == "call" or y.kind == "bin"):
                continue
            cs = cuts(v, val_)
            name = e.name if e.kind == "setattr" else show(e.base)[:30]
            bad = []
            for x, gs in cs:
                if flag is None or not any(g is flag and p for g, p in gs) and not any(g is flag and p for g, p in core(v, e.guards)):
                    bad.append(x)
            r.check(not bad, "linear system recorded", f"{W}/{name}", e, f"loses its graph: {show(bad[0])[:80] if bad else ''}")
            r.check(grad_mode(e) == "ambient", "linear system recorded", f"{W}/{name}", e, f"computed with gradients {grad_mode(e)}")
        if flag is not None and m == "_linearize_hessian_impl":
            # the flag reaches the hessian or the solver
            used = any(contains(v.c(e.value), lambda y: y is flag) for e in v.kinds("setattr", "setitem") if e.value is not None) or \
                any(any(contains(v.c(g), lambda y: y is flag) for g, _ in e.guards) for e in v.kinds("setattr"))
            r.check(used, "hessian detached in the implicit step", W, v, "the request to detach the hessian is ignored")
            for e in v.kinds("setattr"):
                val_ = v.c(e.value)
                if not contains(val_, lambda y: is_call(y, "bmm", "matmul") or y.kind == "bin" and y.args[0] == "@"):
                    continue
                if not mentions_attr(val_, "A") and not mentions_attr(val_, "_A"):
                    continue
                sq = contains(val_, lambda y: y.kind == "bin" and y.args[0] == "@" and all(contains(z, lambda q: q.kind == "attr" and q.args[1] in ("A", "_A")) for z in y.args[1:]))
                if not sq or not sat([*core(v, e.guards), (flag, True)]):
                    continue
                w = assume(val_, {flag: True})
                r.check(cuts(v, w), "hessian detached in the implicit step", f"{W}/{e.name}", e, "the hessian keeps its graph in the implicit step")


def check_solver(a, r, cls):
    """solvers hand the linearization's detach flag to the custom solve, and return a recorded solution"""
    f = a.p.method(cls, "solve")
    if f is None or a.p.cls("LinearSolver") is None:
        return
    W = f"{cls.name}.solve"
    v = a.view(cls, "solve", inline_key="c22")
    n = 0
    for e in v.kinds("call"):
        if e.term is None or call_name(e.term) != "apply" or "Function" not in show(call_recv(e.term) or e.term):
            continue
        n += 1
        r.check(grad_mode(e) == "ambient", "linear system recorded", W, e, f"solved with gradients {grad_mode(e)}")
        c = a.p.cls(show(call_recv(e.term)).split(".")[-1])
        g = a.p.method(c, "forward") if c is not None else None
        if g is None:
            continue
        ps = [x for x in g.params if x not in ("ctx", "cls", "self")]
        for i, nm in enumerate(ps):
            if "detach" not in nm:
                continue
            x = get_arg(e.term, i, nm)
            if x is None:
                r.bad("hessian detached in the implicit step", W, e, f"{nm} is not handed to {c.name}")
                continue
            x = v.c(x)
            r.check(not is_const(x), "hessian detached in the implicit step", W, e, f"{nm} is always {show(x)}")
            if x.kind == "attr" and "linearization" in show(x.args[0]):
                made = set()
                for L in a.p.subclasses(a.p.cls("Linearization")):
                    if a.p.method(L, "_linearize_hessian_impl") is not None:
                        lv = a.view(L, "_linearize_hessian_impl", inline_key="c22")
                        for q in lv.kinds("setattr"):
                            if contains(lv.c(q.value), lambda y: y.kind == "param" and "detach" in y.args[1]):
                                made.add(q.name)
                r.check(not made or x.args[1] in made, "hessian detached in the implicit step", f"{W}/flag", e,
                        f"reads {x.args[1]}, but the linearization writes the request to {sorted(made)}")
    for e in v.returns():
        if n == 0 and not is_const(v.c(e.value)):
            x = [y for y in cuts(v, v.c(e.value)) if True]
            r.check(not x, "linear system recorded", f"{W}/value", e, f"the solution loses its graph: {show(x[0][0])[:80] if x else ''}")
            r.check(grad_mode(e) == "ambient", "linear system recorded", f"{W}/value", e, f"solved with gradients {grad_mode(e)}")


# ------------------------------------------------------------------ the path through objective and variables
def check_path(a, r):
    for cn, ms in (("Objective", ("update", "retract_vars_sequence", "_retract_base", "error", "error_metric", "_error_from_iter")), ("Variable", ("update",)),
                   ("Vectorize", ("_vectorize", "_vectorized_retract_optim_vars", "_update_all_cost_fns_wrapper"))):
        c = a.p.cls(cn)
        for m in ms if c is not None else ():
            f = a.p.method(c, m)
            if f is None:
                continue
            v = a.view(c, m, inline_key="c22")
            W = f"{cn}.{m}"
            bare_mode(a, r, v, W)
            for e in v.kinds("setattr"):
                if e.name in ("tensor", "_tensor") and e.value is not None:
                    x = cuts(v, v.c(e.value))
                    r.check(not x and grad_mode(e) != "off", "variables keep the graph", f"{W}/{e.name}", e, "the value stored loses its graph")
            for e in v.calls("update", "retract", "_retract_base", "error", "weighted_error", "weighted_jacobians_error"):
                if grad_mode(e) == "off" and call_recv(e.term) is not None:
                    r.bad("variables keep the graph", f"{W}/{call_name(e.term)}", e, "runs without recording gradients")
                for x in (*call_pos(e.term), *call_kw(e.term).values()):
                    cs = cuts(v, v.c(x))
                    r.check(not cs, "variables keep the graph", f"{W}/{call_name(e.term)}", e, f"loses its graph: {show(cs[0][0])[:60] if cs else ''}")
            if m in ("error", "error_metric", "_retract_base"):
                for e in v.returns():
                    if e.value is None or is_const(v.c(e.value)):
                        continue
                    cs = cuts(v, v.c(e.value))
                    r.check(not cs and grad_mode(e) != "off", "variables keep the graph", f"{W}/value", e, f"loses its graph: {show(cs[0][0])[:60] if cs else ''}")


# ------------------------------------------------------------------ recorded information
RECORDERS = ("_init_info", "_update_info", "_merge_infos", "_optimize_loop", "_optimize_impl", "_update_state_history", "_maybe_init_best_solution")
RECORDS = ("err_history", "state_history", "best_solution", "best_err")


def graphless(v, t):
    """value certainly carries no graph, or is made from recorded values only"""
    t = v.c(t)
    if is_const(t):
        return True

    def clean(y):
        if y.kind == "call":
            n = call_name(y)
            if n == "detach":
                return True
            if n in ALLOC or n in ("ones", "zeros", "empty", "full", "tensor", "arange"):
                return True
            rc = call_recv(y)
            parts = [rc] if rc is not None and rc.kind not in ("module", "ext", "func", "class") else []
            parts += [*call_pos(y), *call_kw(y).values()]
            if n in ("error_metric", "error"):
                ev = [e for e in v.calls(n) if e.term is y or v.c(e.term) == y]
                return bool(ev) and all(grad_mode(e) == "off" for e in ev)
            return all(clean(x) for x in parts)
        if y.kind == "attr":
            if y.args[1] in RECORDS:
                return True
            if y.args[1] in ("shape", "dtype", "device", "params", "max_iterations"):
                return True
            if y.args[1] in ("tensor",):
                return False
            return clean(y.args[0])
        if y.kind == "phi":
            return clean(y.args[1]) and clean(y.args[2])
        if y.kind in ("sub",):
            return clean(y.args[0])
        if y.kind == "upd":
            return clean(y.args[0]) and clean(y.args[2])
        if y.kind in ("cmp", "const", "slice", "self", "idx"):
            return True
        if y.kind == "param":
            return y.args[1] not in ("err", "error")
        if y.kind == "bin":
            return clean(y.args[1]) and clean(y.args[2])
        if y.kind == "coll":
            return all(clean(x.value) for x in entries(y) or [])
        return all(clean(x) for x in y.args if hasattr(x, "kind"))
    return clean(t)


def check_records(a, r):
    base = a.p.cls("NonlinearOptimizer")
    for cls in [base, *a.p.subclasses(base)]:
        for m in RECORDERS:
            f = a.p.method(cls, m)
            if f is None or f.cls is not cls:
                continue
            W = f"{cls.name}.{m}"
            v = a.view(cls, m, opaque=tuple(x for x in RECORDERS if x != m), inline_key="c22r" + m)
            callers_off = all_calls_off(a, base, m)
            for e in v.kinds("setitem", "setattr"):
                if e.value is None:
                    continue
                b = e.base
                k = None
                if e.kind == "setattr" and e.name in RECORDS:
                    k = e.name
                elif e.kind == "setitem" and b is not None:
                    for y in subterms(v.c(b)):
                        if y.kind == "attr" and y.args[1] in RECORDS:
                            k = y.args[1]
                            break
                if k is None:
                    continue
                r.check(grad_mode(e) == "off" or callers_off or graphless(v, e.value), "records keep no graph", f"{W}/{k}", e, f"{k} records a value with its graph")
            for e in v.returns():
                t = v.c(e.value)
                for y in subterms(t):
                    if y.kind == "make" and "Info" in show(y)[:60]:
                        for k, x in call_kw(y).items():
                            if k in RECORDS:
                                r.check(callers_off or graphless(v, x) or off_value(v, x), "records keep no graph", f"{W}/{k}", e, f"{k} records a value with its graph")
                if m == "_maybe_init_best_solution" and not is_const(t):
                    r.check(callers_off or graphless(v, t), "records keep no graph", f"{W}/best_solution", e, "the best solution keeps its graph")


def off_value(v, t):
    """every error evaluation in the value happens without gradients"""
    ev = [e for e in v.calls("error_metric", "error")]
    return bool(ev) and all(grad_mode(e) == "off" for e in ev) and not mentions_attr(v.c(t), "tensor")


def all_calls_off(a, base, m):
    """every call of the method by the optimizers runs without gradients"""
    key = ("c22off", m)
    if key in a._views:
        return a._views[key]
    n, ok = 0, True
    for cls in [base, *a.p.subclasses(base)]:
        for c, f in cls.methods.items():
            if c == m:
                continue
            v = a.view(cls, c, opaque=(m,), inline_key="c22o" + m)
            for e in v.calls(m):
                n += 1
                ok = ok and grad_mode(e) == "off"
    a._views[key] = ok and n > 0
    return a._views[key]


# ------------------------------------------------------------------ direct loss minimization
def is_ctx(t):
    return t.kind == "param" and t.args[1] == "ctx"


def check_dlm(a, r):
    c = a.p.cls("TheseusLayerDLMForward")
    L = a.p.cls("TheseusLayer")
    if c is None or L is None:
        r.skip("direct loss minimization", "TheseusLayerDLMForward", "class not found")
        return
    f = a.p.method(c, "forward")
    named = [x for x in f.params if x not in ("ctx", "inputs")]
    # the layer hands everything over in the order the function expects
    v = a.view(L, "forward", opaque=("_forward", "_instantiate_dlm_bwd_objective"), inline_key="c22d")
    W = "TheseusLayer.forward/DLM"
    aps = [e for e in v.calls("apply") if "DLM" in show(e.term)[:60]]
    fw = [e for e in v.kinds("call") if e.term is not None and call_name(e.term) == "_forward" and call_recv(e.term) is None]
    for mode in MODES:
        x = [e for e in aps if holds(v, core(v, e.guards), mode)]
        y = [e for e in fw if holds(v, core(v, e.guards), mode)]
        r.check(bool(x) == (mode == "DLM"), "mode served by its own step", f"{W}/{mode}", x[0] if x else v,
                f"{mode} {'uses' if x else 'does not use'} direct loss minimization")
        r.check(bool(y) == (mode != "DLM"), "mode served by its own step", f"{W}/{mode}/plain", y[0] if y else v, f"{mode} {'also runs' if y else 'does not run'} the plain forward")
    for e in aps:
        ps = [v.c(x) for x in call_pos(e.term)]
        plain = [x for x in ps if x.kind != "star"]
        star = [x.args[0] for x in ps if x.kind == "star"]
        if len(plain) == len(named):
            role = {"objective": lambda t: t.kind == "attr" and t.args[1] == "objective", "optimizer": lambda t: t.kind == "attr" and t.args[1] == "optimizer",
                    "bwd_objective": lambda t: "objective" in show(t).lower() and not (t.kind == "attr" and t.args[1] in ("objective", "optimizer")),
                    "epsilon": lambda t: contains(t, lambda y: is_const(y, 0.01) or y.kind == "attr" and "EPSILON" in y.args[1]),
                    "n": lambda t: contains(t, lambda y: is_call(y, "len")), "optimizer_kwargs": lambda t: mentions_param(t, "optimizer_kwargs")}
            for nm, x in zip(named, plain):
                if nm in role:
                    r.check(role[nm](x), "arguments of the custom function", f"{W}/{nm}", e, f"{nm} is {show(x)[:60]}")
            # which half of the pair (objective, optimizer)
            for nm, i in (("bwd_objective", 0), ("bwd_optimizer", 1)):
                if nm in named:
                    x = plain[named.index(nm)]
                    for y in subterms(x):
                        if y.kind == "sub" and is_const(y.args[1]) and is_call(y.args[0], "_instantiate_dlm_bwd_objective"):
                            r.check(y.args[1].args[0] == i, "arguments of the custom function", f"{W}/{nm}", e, f"{nm} is entry {y.args[1].args[0]} of the built pair")
            x = plain[named.index("n")] if "n" in named else None
            if x is not None and len(star) == 3:
                r.check(not contains(x, lambda y: y.kind == "attr" and y.args[1] == "requires_grad"), "arguments of the custom function", f"{W}/n", e, "counts the differentiable tensors only")
        if len(star) == 3:
            r.check(contains(star[2], lambda y: y.kind == "attr" and y.args[1] == "requires_grad"), "arguments of the custom function", f"{W}/inputs", e,
                    "differentiable tensors are not the last group")
            es = entries(star[2]) if star[2].kind == "coll" else None
            for en in es or ():
                g = [(x, p) for x, p in en.guards if contains(x, lambda y: y.kind == "attr" and y.args[1] == "requires_grad")]
                r.check(g and all(p for x, p in g), "arguments of the custom function", f"{W}/differentiable", e, "selects the tensors that need no gradient")
    # forward
    v = a.view(c, "forward", opaque=("_forward",), inline_key="c22d")
    W = "TheseusLayerDLMForward.forward"
    fw = [e for e in v.kinds("call") if e.term is not None and call_name(e.term) == "_forward"]
    gr = [e for e in v.kinds("call") if is_call(e.term, "grad")]
    em = [e for e in v.calls("error_metric")]
    for e in fw:
        r.check(grad_mode(e) != "on", "solver runs without gradients", W, e, "the solution is found with gradients recorded")
    for e in gr:
        r.check(grad_mode(e) == "on", "gradient at the solution", f"{W}/mode", e, "the gradient of the error is taken without recording it")
        r.check(any(x.seq < e.seq for x in fw), "gradient at the solution", f"{W}/order", e, "taken before the solution is found")
        au = get_arg(e.term, 7, "allow_unused")
        r.check(au is not None and is_const(au, True), "gradient at the solution", f"{W}/unused", e, "fails when an input is not used by the objective")
        x = get_arg(e.term, 1, "inputs")
        r.check(x is None or diff_slice(v.c(x)) is not False, "gradient at the solution", f"{W}/inputs", e, f"with respect to {show(v.c(x))[:60] if x is not None else ''}")
        from checks.C21 import lower_bound
        for g, p in core(v, e.guards):
            for h, hp in split_guard(v.c(g), p):
                ks = [y for y in subterms(h) if is_call(y, "len") and call_pos(y) and diff_slice(call_pos(y)[0])]
                d = lower_bound(h, hp) if ks else None
                if d is not None:
                    k = poly(ks[0])
                    rest = psub(d, k)
                    # true exactly for k >= 1
                    r.check(not psub(rest, poly(const(-1))), "gradient at the solution", f"{W}/when", e, f"taken when {show(h)[:60]} is {hp}")
    for e in em:
        if gr:
            r.check(grad_mode(e) == "on", "gradient at the solution", f"{W}/error", e, "the error is evaluated without recording it")
            r.check(p_param(call_recv(e.term), "objective"), "gradient at the solution", f"{W}/objective", e, f"error of {show(call_recv(e.term))[:40]}")
    for e in v.returns():
        t = v.c(e.value)
        if t.kind == "tuple":
            r.check(t.args[0][-1].kind != "star", "outputs", W, e, "information is not the last output")
    # keys, values and differentiable tensors
    sl = {}
    for e in v.events:
        for t in (e.value, e.term):
            if t is not None and hasattr(t, "kind"):
                for y in subterms(v.c(t)):
                    if y.kind == "sub" and y.args[1].kind == "slice" and show(y.args[0]).endswith("inputs"):
                        sl[y] = e
    n = poly(T("param", f.qual, "n"))
    two = {m: 2 * k for m, k in n.items()}
    zero = poly(const(0))
    for y, e in sl.items():
        lo, hi = y.args[1].args[:2]
        lo = zero if is_const(lo, None) else poly(lo)
        hi = None if is_const(hi, None) else poly(hi)
        ok = (not psub(lo, zero) and hi is not None and not psub(hi, n)) or (not psub(lo, n) and hi is not None and not psub(hi, two)) or (not psub(lo, two) and hi is None)
        r.check(ok, "arguments of the custom function", f"{W}/slices", e, f"{show(y)[:60]} is not keys, values or differentiable tensors")
    check_zip(r, v, W)
    check_zip(r, a.view(c, "backward", inline_key="c22d"), "TheseusLayerDLMForward.backward")
    check_dlm_backward(a, r, c)
    check_dlm_objective(a, r, c)


def diff_slice(t):
    if t.kind == "sub" and t.args[1].kind == "slice" and show(t.args[0]).endswith("inputs"):
        return is_const(t.args[1].args[1], None) and not is_const(t.args[1].args[0], None)
    return None


def check_dlm_backward(a, r, c):
    v = a.view(c, "backward", inline_key="c22d")
    W = "TheseusLayerDLMForward.backward"
    seq = {}
    for n in ("update", "linearize", "solve", "retract_vars_sequence", "error_metric", "grad"):
        evs = [e for e in v.calls(n)]
        if n == "update":
            evs = [e for e in evs if v.c(call_recv(e.term)).kind == "attr" and mentions_attr(v.c(call_recv(e.term)), "bwd_objective")]
        seq[n] = evs
    names = list(seq)
    for x, y in zip(names, names[1:]):
        if not seq[x]:
            r.bad("perturbed problem is solved", f"{W}/{x}", v, f"no call of {x}")
            continue
        if seq[y]:
            r.check(min(e.seq for e in seq[x]) < min(e.seq for e in seq[y]), "perturbed problem is solved", f"{W}/{x}<{y}", seq[y][0], f"{y} runs before {x}")
    for n in ("linearize", "solve", "retract_vars_sequence"):
        for e in seq[n]:
            r.check(grad_mode(e) == "off" or "once_differentiable" in " ".join(ast_decorators(v)), "solver runs without gradients", f"{W}/{n}", e, "recorded")
    for n in ("error_metric", "grad"):
        for e in seq[n]:
            r.check(grad_mode(e) == "on", "gradient at the perturbed solution", f"{W}/{n}", e, f"runs with gradients {grad_mode(e)}")
    for e in seq["grad"]:
        au = get_arg(e.term, 7, "allow_unused")
        r.check(au is not None and is_const(au, True), "gradient at the perturbed solution", f"{W}/unused", e, "fails when an input is not used by the objective")
    for e in seq["error_metric"]:
        r.check(mentions_attr(call_recv(e.term), "bwd_objective"), "gradient at the perturbed solution", f"{W}/objective", e, f"error of {show(call_recv(e.term))[:40]}")
    for e in seq["retract_vars_sequence"]:
        d, o = get_arg(e.term, 0, "delta"), get_arg(e.term, 1, "ordering")
        r.check(d is not None and contains(v.c(d), lambda y: is_call(y, "solve")), "perturbed problem is solved", f"{W}/delta", e, "the step is not the solution")
        if d is not None:
            dd = v.c(d)
            r.check(is_call(dd, "solve"), "perturbed problem is solved", f"{W}/full-step", e, f"step {show(dd)[:60]}")
        r.check(o is None or mentions_attr(v.c(o), "ordering") and mentions_attr(v.c(o), "bwd_optimizer"), "perturbed problem is solved", f"{W}/ordering", e, "in another ordering")
    # data of the perturbed problem: input values, detached solution, gradients by name
    sets = v.setitems()
    opt = [e for e in sets if e.index is not None and "optim_vars" in show(v.c(e.index)) and v.c(e.index).kind in ("key", "elem")]
    r.check(opt or not sets, "data of the perturbed problem", f"{W}/solution", v, "optimization variables do not start from the solution")
    for e in opt:
        x = v.c(e.value)
        r.check(contains(x, lambda y: y.kind == "attr" and y.args[1] == "saved_tensors"), "data of the perturbed problem", f"{W}/solution", e, f"{show(x)[:60]}")
        r.check(contains(x, lambda y: is_call(y, "detach")) or grad_mode(e) == "off", "data of the perturbed problem", f"{W}/detached", e, "starts from the solution with its graph")
    grads = [e for e in sets if e.index is not None and contains(v.c(e.index), lambda y: y.kind == "attr" and "SUFFIX" in y.args[1] or is_const(y, "_grad"))]
    r.check(grads or not sets, "data of the perturbed problem", f"{W}/gradients", v, "output gradients do not enter the perturbed problem")
    for e in grads:
        x = v.c(e.value)
        i = v.c(e.index)
        r.check(contains(x, lambda y: y.kind == "param" and "grad_outputs" in y.args[1]), "data of the perturbed problem", f"{W}/gradients", e, f"{show(x)[:60]}")
        r.check(i.kind == "bin" and i.args[0] == "+" and "optim_vars" in show(i), "data of the perturbed problem", f"{W}/gradient-name", e, f"stored as {show(i)[:60]}")
        if x.kind == "sub" and is_const(x.args[1]):
            r.bad("data of the perturbed problem", f"{W}/gradients", e, "every variable gets the same output gradient")
        if x.kind == "sub" and x.args[0].kind == "sub" and x.args[0].args[1].kind == "slice":
            s = x.args[0].args[1]
            r.check((is_const(s.args[0], None) or is_const(s.args[0], 0)) and (is_const(s.args[1], None) or peq(s.args[1], const(-1))), "data of the perturbed problem", f"{W}/gradient-order", e, "gradients are shifted against the variables")
    # the gradients and epsilon reach the objective
    for e in seq["update"]:
        d = get_arg(e.term, 0, "input_tensors")
        upd_names = []
        for m in v.kinds("mutcall", "call"):
            if m.term is not None and call_name(m.term) == "update" and m not in seq["update"] and m.seq < e.seq:
                upd_names.append(m)
        has = upd_names or contains(v.c(d), lambda y: y.kind == "param" and "grad_outputs" in y.args[1])
        r.check(has, "data of the perturbed problem", f"{W}/handed-over", e, "the output gradients are not handed to the objective")
        everything = [v.c(d)] + [v.c(x) for m in upd_names for x in call_pos(m.term)]
        eps = any(contains(t, lambda y: y.kind == "attr" and is_ctx(y.args[0]) and y.args[1] == "epsilon") for t in everything)
        r.check(eps, "data of the perturbed problem", f"{W}/epsilon", e, "epsilon is not handed to the objective")


def check_zip(r, v, W):
    """tensors are stored under their own keys"""
    for e in v.kinds("call"):
        t = v.c(e.term) if e.term is not None else None
        if t is not None and is_call(t, "zip") and len(call_pos(t)) == 2:
            x, y = call_pos(t)
            def keys(z):
                return mentions_attr(z, "input_keys") or z.kind == "sub" and z.args[1].kind == "slice" and show(z.args[0]).endswith("inputs") and is_const(z.args[1].args[0], None)
            if keys(x) or keys(y):
                r.check(keys(x) and not keys(y), "data of the perturbed problem", f"{W}/keys", e, "tensors and their names are exchanged")


def ast_decorators(v):
    import ast
    return [ast.unparse(d) for d in getattr(v.func.node, "decorator_list", [])]


def check_dlm_objective(a, r, c):
    f = a.p.func("theseus.theseus_layer._instantiate_dlm_bwd_objective")
    v = a.view_of(f, None)
    W = "_instantiate_dlm_bwd_objective"
    adds = v.calls("add")
    r.check(adds, "perturbation per variable", W, v, "no perturbation is added")
    for e in adds:
        r.check(any("optim_vars" in show(l[1]) for l in e.loops), "perturbation per variable", W, e, "not added for every optimization variable")
        r.check(not core(v, e.guards), "perturbation per variable", f"{W}/all", e, "added for some variables only")
        for y in subterms(v.c(e.term)):
            if y.kind in ("make", "call") and "_DLMPerturbation" in show(y)[:60] and a.p.cls("_DLMPerturbation") is not None:
                for i, nm in enumerate(("var", "epsilon", "grad")):
                    x = get_arg(y, i, nm)
                    if x is None:
                        continue
                    isgrad = contains(x, lambda z: z.kind == "attr" and "SUFFIX" in str(z.args[1]))
                    iseps = contains(x, lambda z: z.kind == "attr" and "EPSILON" in str(z.args[1]))
                    if isgrad or iseps:
                        r.check(nm == ("grad" if isgrad else "epsilon"), "perturbation per variable", f"{W}/{nm}", e, f"{nm} is {show(x)[:60]}")
                    elif nm == "var":
                        r.check("optim_vars" in show(x), "perturbation per variable", f"{W}/{nm}", e, f"{nm} is {show(x)[:60]}")
    copies = v.calls("copy")
    r.check(any(p_param(call_recv(e.term), "objective") for e in copies), "perturbation per variable", f"{W}/copy", v, "the original objective is modified")
    for e in adds:
        r.check(not p_param(v.c(call_recv(e.term)), "objective"), "perturbation per variable", f"{W}/target", e, "the perturbation is added to the original objective")
    for e in v.calls("Variable"):
        t = v.c(e.term)
        nm = get_arg(t, 1, "name")
        x = get_arg(t, 0, "tensor")
        if nm is None:
            continue
        if contains(nm, lambda y: y.kind == "attr" and "SUFFIX" in y.args[1]):
            r.check(nm.kind == "bin" and nm.args[0] == "+", "perturbation per variable", f"{W}/gradient-name", e, show(nm)[:60])
    n = 0
    for e in v.returns():
        t = v.c(e.value)
        if t.kind == "tuple" and len(t.args[0]) == 2:
            o = t.args[0][1]
            for y in subterms(o):
                if y.kind in ("make", "call") and ("GaussNewton" in show(y)[:40]):
                    s = get_arg(y, 99, "step_size")
                    if s is not None:
                        n += 1
                        r.check(peq(s, const(1.0)) or peq(s, const(1)), "perturbed problem is solved", f"{W}/step-size", e, f"step size {show(s)}")
    # the perturbation is sqrt(2) (epsilon x - g / 2)
    P = a.p.cls("_DLMPerturbation")
    if P is None:
        return
    from sa.algebra import NotAlgebraic, add, alg, atom, is_zero, mul, num, power
    from fractions import Fraction
    pv = a.view(P, "error", inline_key="c22p")

    def leaf(t):
        if t.kind == "attr" and t.args[1] == "tensor" and t.args[0].kind == "attr":
            return atom((t.args[0].args[1],))
        if is_call(t, "sqrt") and call_pos(t) and is_const(call_pos(t)[0], 2):
            return power(num(2), Fraction(1, 2))
        return None
    for e in pv.returns():
        try:
            t = pv.c(e.value)
            while is_call(t, "flatten", "view", "reshape"):
                t = call_recv(t)
            got = alg(t, leaf, ("view", "reshape", "flatten", "unsqueeze"))
        except NotAlgebraic as ex:
            r.skip("perturbation", "_DLMPerturbation.error", str(ex)[:100])
            continue
        want = mul(power(num(2), Fraction(1, 2)), add(mul(atom(("epsilon",)), atom(("var",))), mul(num(Fraction(1, 2)), atom(("grad",))), -1))
        r.check(is_zero(add(got, want, -1)), "perturbation", "_DLMPerturbation.error", e, "is not sqrt(2) (epsilon x - g / 2)")


def check(a, r):
    base = a.p.cls("NonlinearOptimizer")
    opt = a.p.cls("Optimizer")
    if base is None or opt is None:
        raise AnalysisBroken("the optimizer classes are gone")
    for cls in a.p.subclasses(opt):
        f = a.p.method(cls, "_optimize_impl")
        if f is not None and f.cls is cls and not abstract(f):
            r.part(check_modes, a, r, cls)
        f = a.p.method(cls, "_optimize_loop")
        if f is not None and f.cls is cls and not abstract(f):
            r.part(check_loop, a, r, cls)
        if a.p.method(cls, "compute_delta") is not None and not abstract(a.p.method(cls, "compute_delta")):
            r.part(check_delta, a, r, cls)
    for cls in a.p.subclasses(a.p.cls("Linearization")):
        r.part(check_linearization, a, r, cls)
    for cls in a.p.subclasses(a.p.cls("LinearSolver")):
        f = a.p.method(cls, "solve")
        if f is not None and not abstract(f):
            r.part(check_solver, a, r, cls)
    r.part(check_path, a, r)
    r.part(check_records, a, r)
    r.part(check_dlm, a, r)
    v = a.view("Optimizer", "optimize", inline_key="c22")
    bare_mode(a, r, v, "Optimizer.optimize")
    for e in v.calls("_optimize_impl"):
        r.check(grad_mode(e) == "ambient", "gradient mode of the iterations", "Optimizer.optimize", e, f"runs with gradients {grad_mode(e)}")
    base = a.p.cls("NonlinearLeastSquares")
    f = a.p.method(base, "_optimize_impl") if base is not None else None
    if f is not None:
        r.parallel(a, runs.parts(runs.gradients, f.loc))


def abstract(f):
    import ast
    return any("abstractmethod" in ast.unparse(d) for d in getattr(f.node, "decorator_list", []))
