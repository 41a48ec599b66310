"""Robust cost functions. The terms returned by weighted_error() and
weighted_jacobians_error() are put in a normal form per value of the flatten flag:
the squared result must be the loss of the inner weighted squared error (spread
over the dimensions), error and jacobians must carry the same factor, the square
root of the linearized loss at the same argument. Delegation of variables, weight,
setters and device moves is followed; the objective must use the robust values,
the linearizations the rescaled pair."""
from sa.algebra import NotAlgebraic, alg, atom, equal, mul, num, power
from sa.rules import *  # noqa: F401,F403
from checks.C13 import shape_index

CORE = ("implies", "forall", "loopdone")
SHAPE = ("unsqueeze", "squeeze", "view", "reshape", "expand", "expand_as", "view_as", "contiguous")


def core(gs):
    return [(g, p) for g, p in gs if g.kind not in CORE]


def local_guards(v, e):
    """conditions of an event other than not having raised before"""
    raised = [x.guards for x in v.events if x.kind == "raise"]
    return [(g, p) for g, p in core(e.guards) if not any(rg and rg[-1][0] is g and rg[-1][1] != p for rg in raised)]


INNER = self_attr("cost_function")


def inner_call(t, name):
    return is_call(t, name) and call_recv(t) is not None and INNER(call_recv(t))


def W_error(t):
    return inner_call(t, "weighted_error")


def W_pair(t, i):
    return t.kind == "sub" and inner_call(t.args[0], "weighted_jacobians_error") and is_const(t.args[1], i)


class Forms:
    def __init__(self, is_w):
        self.is_w = is_w
        self.W = None

    def alg(self, t):
        return alg(t, self.leaf, SHAPE)

    def leaf(self, t):
        if self.is_w(t):
            self.W = t
            return atom("W")
        if t.kind == "attr" and "EPS" in t.args[1]:
            return {}
        if t.kind == "sub" and shape_index(t.args[1]):
            return self.alg(t.args[0])
        if t.kind == "sub" and t.args[0].kind == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]) and t.args[1].args[0] in (1, -1) and self.is_w(t.args[0].args[0]):
            return atom("dim")
        if is_call(t, "size") and self.is_w(call_recv(t)) and call_pos(t) and is_const(call_pos(t)[0]) and call_pos(t)[0].args[0] in (1, -1):
            return atom("dim")
        if is_call(t, "dim") and call_recv(t) is not None and (is_self(call_recv(t)) or INNER(call_recv(t))):
            return atom("dim")
        if is_call(t, "sum", "norm", "vector_norm", "mean"):
            rc = call_recv(t)
            if rc is None or rc.kind == "module":
                rc = call_pos(t)[0] if call_pos(t) else None
            if rc is None or not self.has_w(rc):
                return None
            kw = call_kw(t)
            d = kw.get("dim")
            d = d if d is not None else next((x for x in call_pos(t) if is_const(x) and isinstance(x.args[0], int)), None)
            inner = self.alg(rc)
            sq = inner if is_call(t, "sum", "mean") else mul(inner, inner)
            over_dim = d is not None and (is_const(d) and d.args[0] in (1, -1) or d.kind in ("tuple", "list") and len(d.args[0]) == 1 and is_const(d.args[0][0]) and d.args[0][0].args[0] in (1, -1))
            if not equal(sq, power(atom("W"), 2)) or not over_dim:
                return atom("other")
            s = atom("S") if not is_call(t, "mean") else mul(atom("S"), power(atom("dim"), -1))
            return s if is_call(t, "sum", "mean") else power(s, "1/2")
        return None

    def has_w(self, t):
        return contains(t, self.is_w)


def losses(t, name):
    return [x for x in subterms(t) if is_call(x, name) and call_recv(x) is not None and mentions_attr(call_recv(x), "loss")]


def keepdim_ok(t):
    """reductions keep the batch dimension in a way that broadcasts with the error"""
    for x in subterms(t):
        if is_call(x, "sum", "norm", "vector_norm", "mean") and contains(x, lambda y: W_error(y) or W_pair(y, 1)):
            k = call_kw(x).get("keepdim")
            if not is_const(k, True):
                return False
    return True


def check_loss_call(r, where, e, L, F, flat, gnc):
    ps = list(call_pos(L)) + list(call_kw(L).values())
    arg = get_arg(L, 0, "x")
    if arg is None:
        r.skip("loss-argument", where, show(L)[:80])
        return
    try:
        got = F.alg(arg)
    except NotAlgebraic as ex:
        r.skip("loss-argument", where, str(ex))
        return
    if contains(arg, lambda y: is_call(y, "einsum", "bmm", "matmul", "dot")) and not flat:
        r.skip("loss-argument", where, show(arg)[:80])
    else:
        want = power(atom("W"), 2) if flat else atom("S")
        r.check(equal(got, want), "loss-argument", where, e, f"the loss is applied to {show(arg)[:100]}")
        if not flat:
            r.check(keepdim_ok(arg) or contains(arg, lambda y: is_call(y, "unsqueeze", "view", "reshape")), "loss-argument", where + "/shape", e, "the squared norm loses its dimension")
    rad = get_arg(L, 1, "log_radius")
    r.check(rad is not None and fresh(rad, "log_loss_radius"), "loss-uses-current-radius", where, e, f"radius {show(rad)[:60] if rad is not None else 'missing'}")
    if gnc:
        mu = get_arg(L, 2, "mu")
        r.check(mu is not None and fresh(mu, "gnc_control_val"), "loss-uses-current-radius", where + "/control", e, f"control value {show(mu)[:60] if mu is not None else 'missing'}")


def fresh(t, name):
    return t.kind == "attr" and t.args[1] == "tensor" and t.args[0].kind == "attr" and t.args[0].args[1] == name and is_self(t.args[0].args[0])


def per_flag(v, flat):
    k = None
    for e in v.returns():
        gs = list(core(e.guards))
        fl = [x for x in subterms(e.value) if x.kind == "attr" and x.args[1] == "flatten_dims"] + [x for g, _ in gs for x in subterms(g) if x.kind == "attr" and x.args[1] == "flatten_dims"]
        k = fl[0] if fl else k
        known = [(k, flat)] if k is not None else []
        if not sat(gs + known):
            continue
        t = assume_guards(v.c(e.value), known) if known else v.c(e.value)
        yield e, t


def check_class(a, r, n):
    gnc = any(c.name == "GNCRobustCostFunction" for c in a.p.mro(a.p.cls(n)))
    # ---- value
    v = a.view(n, "weighted_error")
    for flat in (True, False):
        where = f"{n}.weighted_error/{'flat' if flat else 'norm'}"
        for e, t in per_flag(v, flat):
            F = Forms(W_error)
            Ls = losses(t, "evaluate")
            if not Ls:
                r.check(bool(losses(t, "linearize")) is False and contains(t, lambda y: is_call(y, "_evaluate_loss")), "value-is-loss", where, e, f"the robust value is {show(t)[:100]}")
                continue
            r.check(F.has_w(t), "inner-weighted-error", where, e, f"the loss is applied to {show(t)[:80]}")
            if not F.has_w(t):
                continue
            L = Ls[0]
            check_loss_call(r, where, e, L, F, flat, gnc)
            try:
                h = alg(t, lambda x: atom("L") if x is L else F.leaf(x), SHAPE)
                want = atom("L") if flat else mul(atom("L"), power(atom("dim"), -1))
                r.check(equal(mul(h, h), want), "value-is-loss", where, e, f"returns {show(t)[:120]}")
            except NotAlgebraic as ex:
                r.skip("value-is-loss", where, str(ex))
            if not flat:
                full = [x for x in subterms(t) if is_call(x, "ones_like", "expand_as", "expand", "repeat", "new_ones", "ones", "broadcast_to")]
                r.check(full, "value-keeps-dimension", where, e, "the error loses its dimension")
    # ---- linearization
    v = a.view(n, "weighted_jacobians_error")
    for flat in (True, False):
        where = f"{n}.weighted_jacobians_error/{'flat' if flat else 'norm'}"
        for e, t in per_flag(v, flat):
            if t.kind != "tuple" or len(t.args[0]) != 2:
                r.skip("same-rescaling", where, show(t)[:80])
                continue
            J, E = t.args[0]
            F = Forms(lambda x: W_pair(x, 1))
            Ls = losses(t, "linearize")
            if not Ls:
                r.check(contains(t, lambda y: is_call(y, "_linearize")), "rescaling-is-linearized-loss", where, e, "the linearized loss is not used")
                continue
            L = Ls[0]
            if contains(L, W_error):
                F2 = Forms(W_error)
                check_loss_call(r, where, e, L, F2, flat, gnc)
            else:
                r.check(F.has_w(L), "inner-weighted-error", where, e, f"the loss is linearized at {show(L)[:80]}")
                if not F.has_w(L):
                    continue
                check_loss_call(r, where, e, L, F, flat, gnc)
            # every use of the linearization is at the same argument
            r.check(len(set(Ls)) == 1, "same-rescaling", where + "/argument", e, "error and jacobians use different rescalings")
            leaf = lambda x: atom("R") if x in Ls else F.leaf(x)  # noqa: E731
            want = power(atom("R"), "1/2")
            try:
                r.check(equal(alg(E, leaf, SHAPE), mul(want, atom("W"))), "same-rescaling", where + "/error", e, f"the error is {show(E)[:100]}")
                es = entries(J)
                if es is None or not es:
                    r.skip("same-rescaling", where, "jacobians not followed")
                    continue
                r.check(len(es) == 1 and es[0].loops and W_pair(es[0].loops[-1], 0) and not core(es[0].guards), "every-jacobian-once", where, e, f"blocks {show(J)[:100]}")
                for x in es:
                    val_ = x.value
                    base = [y for y in subterms(val_) if y.kind == "elem" and W_pair(y.args[0], 0)]
                    if not base:
                        r.check(False, "same-rescaling", where + "/jacobians", e, f"a block is {show(val_)[:100]}")
                        continue
                    lj = lambda y: atom("J") if y is base[0] else leaf(y)  # noqa: E731
                    r.check(equal(alg(val_, lj, SHAPE), mul(want, atom("J"))), "same-rescaling", where + "/jacobians", e, f"a block is {show(val_)[:100]}")
                    r.check(contains(val_, lambda y: (is_call(y, "unsqueeze", "view", "reshape", "einsum", "diag_embed", "diag") or y.kind == "sub" and y.args[0] is not base[0].args[0]) and contains(y, lambda z: z in Ls)),
                            "rescaling-per-row", where + "/axes", e, "the factor lacks the column axis of a jacobian")
                    for y in subterms(val_):
                        if is_call(y, "unsqueeze"):
                            d = get_arg(y, 0, "dim")
                            if d is not None and is_const(d):
                                r.check(d.args[0] in (2, -1), "rescaling-per-row", where, e, f"the factor broadcasts along dimension {d.args[0]}")
                        if y.kind == "sub" and shape_index(y.args[1]) and contains(y.args[0], lambda z: z in Ls):
                            ps = y.args[1].args[0] if y.args[1].kind == "tuple" else [y.args[1]]
                            ok = is_const(ps[-1], None)
                            r.check(ok, "rescaling-per-row", where, e, f"the factor is indexed by {show(y.args[1])[:40]}")
            except NotAlgebraic as ex:
                r.skip("same-rescaling", where, str(ex))
    # ---- the unweighted names are the weighted ones
    for m, w in (("error", "weighted_error"), ("jacobians", "weighted_jacobians_error")):
        v = a.view(n, m, opaque=("weighted_error", "weighted_jacobians_error"))
        for e in v.returns():
            t = v.c(e.value)
            ok = is_call(t, w) and is_self(call_recv(t))
            if not ok and contains(t, lambda y: inner_call(y, m)):
                r.check(False, "already-weighted", f"{n}.{m}", e, f"returns {show(t)[:80]}")
            elif ok:
                r.ok("already-weighted", f"{n}.{m}")
            elif inner_call(t, w) or is_call(t, "error", "jacobians"):
                r.check(False, "already-weighted", f"{n}.{m}", e, f"returns {show(t)[:80]}")
            else:
                r.skip("already-weighted", f"{n}.{m}", show(t)[:80])
    v = a.view(n, "dim")
    for e in v.returns():
        t = v.c(e.value)
        r.check(inner_call(t, "dim"), "dimension-of-inner", f"{n}.dim", e, f"dim() is {show(t)[:60]}")
    check_delegation(a, r, n, gnc)


def check_delegation(a, r, n, gnc):
    known = {x for x in a.known if not x.endswith("RobustCostFunction.__init__")} if a.known is not None else None
    v = a.view(n, "__init__", known=known, inline_key="c14", opaque=("register_optim_var", "register_aux_var", "register_optim_vars", "register_aux_vars", "register_vars"))
    got = {"optim": [], "aux": []}
    for e in v.events:
        if e.kind == "call" and is_call(e.term, "register_optim_var", "register_aux_var", "register_optim_vars", "register_aux_vars", "register_vars"):
            args = list(call_pos(e.term)) + list(call_kw(e.term).values())
            role = "optim" if "optim" in call_name(e.term) or is_call(e.term, "register_vars") and any(is_const(x, True) for x in args) else "aux"
            got[role].append((v.c(args[0]), e))
    for role in ("optim", "aux"):
        inner = [(t, e) for t, e in got[role] if mentions_attr(t, f"_{role}_vars_attr_names") or mentions_attr(t, f"{role}_vars")]
        other = "aux" if role == "optim" else "optim"
        wrong = [(t, e) for t, e in got[role] if mentions_attr(t, f"_{other}_vars_attr_names") or mentions_attr(t, f"{other}_vars")]
        r.check(inner and not wrong, "inner-variables-registered", f"{n}.__init__/{role}", v, f"{role} variables of the inner cost function are not registered in this role")
        for t, e in inner:
            r.check(not local_guards(v, e), "inner-variables-registered", f"{n}.__init__/{role}-all", e, "registration is conditional")
            if t.kind == "elem":
                r.check(t.args[0].kind == "attr", "inner-variables-registered", f"{n}.__init__/{role}-order", e, f"registers {show(t)[:60]}")
    names = [x.args[0] for t, e in got["aux"] for x in subterms(t) if is_const(x) and isinstance(x.args[0], str) and not local_guards(v, e)]
    for nm in ["log_loss_radius"] + (["gnc_control_val"] if gnc else []):
        r.check(nm in names, "radius-registered", f"{n}.{nm}", v, f"{nm} is not an auxiliary variable of the robust cost")
        st = [s for s in v.sets(nm) if s.base is not None and is_self(s.base)]
        for s in st:
            r.check(p_param(v.c(s.value), nm), "radius-registered", f"{n}.{nm}/stored", s, f"{nm} holds {show(v.c(s.value))[:60]}")
    for nm in ("cost_function", "flatten_dims"):
        st = [s for s in v.sets(nm) if s.base is not None and is_self(s.base)]
        r.check(st and all(p_param(v.c(s.value), nm) for s in st), "options-stored", f"{n}.{nm}", st[-1] if st else v, f"{nm} is not the constructor argument")
    st = [s for s in v.sets("loss") if s.base is not None and is_self(s.base)]
    for s in st:
        t = v.c(s.value)
        r.check(contains(t, lambda y: p_param(y, "loss_cls")), "options-stored", f"{n}.loss", s, f"the loss is {show(t)[:60]}")
    # order: inner variables first, so that indices agree
    idx = [e.seq for t, e in got["aux"] if mentions_attr(t, "_aux_vars_attr_names") or mentions_attr(t, "aux_vars")]
    own = [e.seq for t, e in got["aux"] if any(is_const(x, "log_loss_radius") for x in subterms(t))]
    if idx and own:
        r.check(max(idx) < min(own), "inner-variables-first", f"{n}.__init__", v, "the radius takes the index of an inner variable")
    for s in v.events:
        if s.kind == "call" and is_call(s.term, "setattr") and s.loops:
            ps = call_pos(s.term)
            if len(ps) == 3 and is_call(ps[2], "getattr"):
                g = call_pos(ps[2])
                r.check(g[1] is ps[1] and p_param(g[0], "cost_function") or g[1] is ps[1] and INNER(g[0]), "inner-variables-registered", f"{n}.__init__/stored", s, f"{show(ps[1])[:40]} holds {show(ps[2])[:60]}")
    # setters reach the inner cost
    for m, cnt in (("set_optim_var_at", "num_optim_vars"), ("set_aux_var_at", "num_aux_vars")):
        v = a.view(n, m, opaque=("set_optim_var_at", "set_aux_var_at"), inline_key="c14")
        es = [e for e in v.events if e.kind == "call" and inner_call(e.term, m)]
        r.check(es, "setter-reaches-inner", f"{n}.{m}", v, "the inner cost keeps the old variable")
        r.check(not [e for e in v.events if e.kind == "call" and is_call(e.term, "set_optim_var_at", "set_aux_var_at") and call_name(e.term) != m], "setter-reaches-inner", f"{n}.{m}/role", v, "another role is set")
        for e in es:
            i, x = get_arg(e.term, 0, "index"), get_arg(e.term, 1, "variable")
            r.check(i is not None and x is not None and p_param(i, "index") and p_param(x, "variable"), "setter-reaches-inner", f"{n}.{m}/arguments", e, f"forwards {show(e.term)[:80]}")
            gs = core(e.guards)
            if not gs:
                r.check(m != "set_aux_var_at", "setter-reaches-inner", f"{n}.{m}/guard", e, "the radius index is forwarded to the inner cost")
            for g, p in gs:
                if g.kind == "cmp" and g.args[0] in ("<", "<="):
                    ok = p and g.args[0] == "<" and p_param(g.args[1], "index") and contains(g.args[2], lambda y: inner_call(y, cnt) or y.kind == "attr" and y.args[1].startswith("_" + m.split("_")[1])) or \
                        not p and g.args[0] == "<=" and p_param(g.args[2], "index") and contains(g.args[1], lambda y: inner_call(y, cnt))
                    r.check(ok, "setter-reaches-inner", f"{n}.{m}/guard", e, f"forwarded only when {show(g)[:60]}")
        sup = [e for e in v.events if e.kind == "call" and is_call(e.term, m) and not inner_call(e.term, m)]
        setat = [e for e in v.events if e.kind == "call" and is_call(e.term, "setattr")]
        r.check(any(not core(e.guards) for e in sup + setat), "setter-reaches-self", f"{n}.{m}", v, "the robust cost keeps the old variable")
    # weight
    p = a.p.method(a.p.cls(n), "weight")
    cls = next((c for c in a.p.mro(a.p.cls(n)) if "weight" in c.methods), None)
    fs = [f for f in a.p.all_functions() if f.cls is not None and cls is not None and f.cls.name == cls.name and f.name.split("@")[0] in ("weight", "weight.setter")]
    for f in fs:
        w = a.view_of(f)
        if len(f.params) >= 2:
            ss = [s for s in w.sets("weight") if s.base is not None and INNER(s.base)]
            r.check(ss and all(p_param(w.c(s.value), f.params[1]) and not core(s.guards) for s in ss), "weight-is-inner-weight", f"{n}.weight (set)", w, "assigning the weight does not reach the inner cost")
        else:
            for e in w.returns():
                t = w.c(e.value)
                r.check(t.kind == "attr" and t.args[1] in ("weight", "_weight") and INNER(t.args[0]), "weight-is-inner-weight", f"{n}.weight", e, f"the weight is {show(t)[:60]}")
    if not any(len(f.params) >= 2 for f in fs) or not any(len(f.params) == 1 for f in fs):
        r.check(False, "weight-is-inner-weight", f"{n}.weight", cls.name if cls else n, "the weight is not taken from the inner cost function")
    v = a.view(n, "to")
    es = [e for e in v.events if e.kind == "call" and inner_call(e.term, "to")]
    r.check(any(not core(e.guards) and forwards_all(e.term) for e in es), "inner-moved", f"{n}.to", v, "the inner cost function is not moved")
    # masking is switched on the inner function, which evaluates the jacobians
    for f in a.p.all_functions():
        if f.cls is not None and f.cls.name == n and f.name.split("@")[0] in ("_supports_masking", "_supports_masking.setter") and len(f.params) == 2:
            w = a.view_of(f)
            ss = [s for s in w.sets() if s.base is not None and INNER(s.base)]
            r.check(ss and all(p_param(w.c(s.value), f.params[1]) and not core(s.guards) for s in ss), "setter-reaches-inner", f"{n}._supports_masking", w, "masking is not switched in the inner cost function")


def check_uses(a, r):
    v = a.view("Objective", "error", opaque=("_get_error_iter", "_get_jacobians_iter", "update"))
    for e in v.returns():
        t = v.c(e.value)
        bad = [x for x in subterms(t) if is_call(x, "weighted_jacobians_error", "jacobians") or is_call(x, "_get_jacobians_iter")]
        r.check(not bad and mentions_call(t, "weighted_error"), "objective-uses-robust-value", "Objective.error", e, f"the error is {show(t)[:100]}")
    v = a.view("Vectorize", "_get_fn_results_for_mode") if a.p.method(a.p.cls("Vectorize"), "_get_fn_results_for_mode") else None
    if v is not None:
        for e in v.returns():
            for gs, t in cases(v.c(e.value)):
                g2 = [(g, p) for g, p in [*core(e.guards), *gs]]
                full = any(p and mentions_attr(g, "FULL") for g, p in g2)
                werr = any(p and mentions_attr(g, "WEIGHTED_ERROR") for g, p in g2) or (all(not p for g, p in g2) and g2)
                if full:
                    r.check(is_call(t, "weighted_jacobians_error") or t.kind == "tuple" and mentions_call(t, "weighted_jacobians_error"), "linearization-uses-rescaled-pair", "Vectorize/full", e, f"full mode evaluates {show(t)[:60]}")
                elif werr:
                    r.check(mentions_call(t, "weighted_error") and not mentions_call(t, "weighted_jacobians_error"), "objective-uses-robust-value", "Vectorize/weighted", e, f"evaluates {show(t)[:60]}")
    n = 0
    for name in ("DenseLinearization", "SparseLinearization"):
        v = a.view(name, "_linearize_jacobian_impl")
        cs = [e for e in v.events if e.kind == "call" and is_call(e.term, "weighted_jacobians_error", "weighted_error", "error", "jacobians")]
        n += len(cs)
        r.check(cs and all(is_call(e.term, "weighted_jacobians_error") for e in cs), "linearization-uses-rescaled-pair", name, v, "the linear system is not built from the rescaled error and jacobians")
    # errors reported by the nonlinear optimizers are objective values
    for cls in sorted(a.p.subclasses(a.p.cls("NonlinearOptimizer"), strict=False), key=lambda c: c.name):
        for m in cls.methods.values():
            w = a.view_of(m)
            for e in w.events:
                if e.kind == "call" and is_call(e.term, "weighted_jacobians_error", "weighted_error") and e.func is m:
                    r.check(False, "objective-uses-robust-value", m.qual, e, "an optimizer evaluates cost functions itself")


def check(a, r):
    base = a.p.cls("RobustCostFunction")
    for c in sorted(a.p.subclasses(base, strict=False), key=lambda c: c.name):
        check_class(a, r, c.name)
    check_uses(a, r)
