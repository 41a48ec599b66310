"""Linear solvers: the factorized system is the linearization's current normal matrix
plus exactly the requested damping (matrix normal forms per damping setting), right-hand
side and matrix restricted to the same batch elements, linearization state untouched."""
from sa import linear as L
from sa.rules import *  # noqa: F401,F403
from sa.algebra import NotAlgebraic, add, alg, atom, equal, mul, num
from sa.batch import SHAPES
from checks.C21 import core_value, own


def forwards_kw(t):
    vals = list(call_pos(t)) + list(call_kw(t).values())
    return any(x.kind == "param" and str(x.args[1]).startswith("**") for y in vals for x in subterms(y))


TRANSPARENT = tuple(x for x in SHAPES if x != "squeeze") + ("squeeze", "clone")


def lin_attr(t, *names):
    return t.kind == "attr" and t.args[1] in names and mentions_attr(t.args[0], "linearization")


def ground(t):
    """strip indexing and reshaping"""
    while True:
        if t.kind == "sub":
            t = t.args[0]
        elif t.kind == "call" and call_name(t) in TRANSPARENT and call_recv(t) is not None and call_recv(t).kind != "module":
            t = call_recv(t)
        elif t.kind == "call" and call_name(t) in ("as_tensor", "tensor"):
            t = call_pos(t)[0] if call_pos(t) else call_kw(t).get("data", NONE)
        else:
            return t


NONE = T("const", None)


def env_truth(c, facts):
    """truth of a condition given facts about the damping argument"""
    ats = []
    atoms_of(c, ats)
    env = {}
    for x in ats:
        if x.kind == "param" and x.args[1] in facts:
            env[x] = facts[x.args[1]]
        elif x.kind == "param" and x.args[1] == "damping":
            pass
        elif is_none_test(x, lambda y: p_param(ground(y), "damping") and facts["damping"]):
            env[x] = False
        elif is_none_test(x, lambda y: p_param(ground(y), "damping") or is_const(y, None)):
            env[x] = not facts["damping"] or any(is_const(y, None) for y in x.args[1:] if hasattr(y, "kind") and not is_const(x.args[1], None))
            env[x] = not facts["damping"]
        elif is_call(x, "isinstance") and p_param(call_pos(x)[0], "damping"):
            s = show(call_pos(x)[1]).lower()
            env[x] = facts["damping"] and (facts["tensor"] if "tensor" in s else not facts["tensor"])
        elif x.kind == "cmp" and contains(x, lambda y: is_call(y, "numel", "ndimension", "dim", "size") and p_param(ground(call_recv(y)), "damping")) or (
                x.kind == "cmp" and contains(x, lambda y: y.kind == "attr" and y.args[1] in ("ndim", "shape") and p_param(ground(y.args[0]), "damping"))):
            if facts.get("tensor"):
                # one value per element: more than one value, one axis
                lo, hi = x.args[1], x.args[2]
                if x.args[0] in ("<", "<=") and is_const(lo):
                    env[x] = True
                elif x.args[0] in ("<", "<=") and is_const(hi):
                    env[x] = False
                elif x.args[0] == "==" and (is_const(lo) or is_const(hi)):
                    env[x] = contains(x, lambda y: is_call(y, "dim", "ndimension") or y.kind == "attr" and y.args[1] == "ndim") and any(is_const(y, 1) for y in (lo, hi))
                else:
                    env[x] = True
            else:
                env[x] = False
        elif is_call(x, "is_tensor"):
            env[x] = facts["damping"] and facts["tensor"]
    return eval3(c, env)


def settle(t, facts):
    def f(x):
        if x.kind == "phi":
            d = env_truth(x.args[0], facts)
            if d is not None:
                return x.args[1] if d else x.args[2]
        return x
    return rebuild(t, f)


def systems(t):
    """(matrix, right-hand side, call) of the linear solves in a term"""
    out = []
    for x in subterms(t):
        if not is_call(x, "solve", "cholesky_solve", "lu_solve", "solve_ex", "lstsq"):
            continue
        n = call_name(x)
        rc = call_recv(x)
        ps = list(call_pos(x)) + list(call_kw(x).values())
        fn = show(rc) if rc is not None else show(x.args[0])
        if n == "cholesky_solve":
            b, L = (ps[0], ps[1]) if rc is None or rc.kind == "module" else (rc, ps[0])
            if is_call(L, "cholesky", "cholesky_ex") or L.kind == "sub" and is_call(L.args[0], "cholesky_ex"):
                c = L if L.kind == "call" else L.args[0]
                m = call_pos(c)[0] if call_pos(c) else call_recv(c)
                up = call_kw(c).get("upper"), call_kw(x).get("upper")
                flip = sum(1 for u in up if u is not None and is_const(u, True))
                out.append((m, b, x, flip % 2 == 0))
            else:
                out.append((None, b, x, True))
        elif n in ("solve", "solve_ex") and "linalg" in fn:
            kw = call_kw(x)
            ps = list(call_pos(x))
            A, B = ps[0] if ps else kw.get("A"), ps[1] if len(ps) > 1 else kw.get("B")
            left = kw.get("left")
            if A is not None and B is not None:
                out.append((A, B, x, left is None or is_const(left, True)))
        elif n == "solve" and rc is not None and "linear_solver" not in fn and "linearization" not in fn and rc.kind != "self":
            out.append((ps[0], ps[1], x, True))
        elif n == "lu_solve":
            out.append((None, None, x, True))
    return out


def matrix_form(t, idx):
    def leaf(x):
        if lin_attr(x, "AtA"):
            return atom("M")
        if x.kind == "sub" and lin_attr(ground(x), "AtA", "Atb"):
            idx.append(x.args[1])
            return go(x.args[0])
        if x.kind == "param" and x.args[1] in ("damping", "damping_eps", "eps"):
            return atom(x.args[1])
        if x.kind == "sub" and p_param(ground(x), "damping"):
            idx.append(x.args[1])
            return go(x.args[0])
        if is_call(x, "as_tensor", "tensor"):
            return go(call_pos(x)[0] if call_pos(x) else call_kw(x)["data"])
        if is_call(x, "diagonal"):
            rc = call_recv(x)
            p = go(rc if rc.kind != "module" else call_pos(x)[0])
            dims = {y.args[0] % 3 for y in list(call_kw(x).values()) + list(call_pos(x)) if is_const(y) and isinstance(y.args[0], int)}
            if not equal(p, atom("M")) or dims != {1, 2}:
                return atom("other diagonal")
            return atom("d")
        if is_call(x, "diag_embed"):
            rc = call_recv(x)
            p = go(rc if rc is not None and rc.kind != "module" else call_pos(x)[0])
            if any(k in ("M", "E") for m in p for k, _ in m):
                raise NotAlgebraic("diag_embed of a matrix")
            return mul(p, atom("E"))
        if is_call(x, "eye"):
            return atom("E")
        if is_call(x, "ones_like", "ones"):
            return num(1)
        return None

    def go(y):
        return alg(y, leaf, TRANSPARENT)
    p = go(t)
    if any(k[0] == "t" for m in p for k, _ in m if isinstance(k, tuple)):
        raise NotAlgebraic("operand not recognised")
    return p


def check_dense(a, r, cls):
    W = f"{cls.name}.solve"
    v = a.view(cls, "solve", inline_key="c24")
    rets = v.returns()
    if not any(systems(v.c(e.value)) for e in rets):
        r.skip("system-solved", W, "no recognised solve")
        return
    M, E, d, lam, eps = atom("M"), atom("E"), atom("d"), atom("damping"), atom("damping_eps")
    for sing in (True, False):
        for none in (False, True):
            for ell in ((True, False) if not none else (True,)):
                for ten in ((True, False) if not none else (False,)):
                    facts = {"ellipsoidal_damping": ell, "damping": not none, "tensor": ten, "sing": sing}
                    name = f"{W}/{'check_singular' if sing else 'plain'}/{'undamped' if none else ('ellipsoidal' if ell else 'spherical')}{'-per-element' if ten else ''}"
                    seen = 0
                    for e in rets:
                        for gs, t in cases(e.value):
                            fl = [(g, p) for g, p in own(v, e) + list(gs) if contains(g, self_attr("_check_singular"))]
                            if any(self_attr("_check_singular")(g) and p != sing for g, p in fl):
                                continue
                            rest = [env_truth(settle(v.c(g), facts), facts) == (not p) for g, p in own(v, e) + list(gs) if env_truth(settle(v.c(g), facts), facts) is not None]
                            if any(rest):
                                continue
                            t = settle(v.c(t), facts)
                            for _, t2 in cases(t):
                                r.check(not is_call(t2, "new_zeros", "zeros", "zeros_like", "new_empty", "empty", "empty_like"), "system-solved", name + "/stored", e,
                                        f"returns {show(t2)[:60]}: the solution is dropped")
                                seen += one_system(r, v, e, t2, name, facts, (M, E, d, lam, eps))
                    if not seen:
                        r.skip("system-solved", name, "no recognised solve")


def sense(i):
    """index derived from failure infos: True selects the good ones, False the singular ones"""
    pos = True
    while True:
        if i.kind == "un" and i.args[0] in ("~", "not"):
            pos, i = not pos, i.args[1]
        elif is_call(i, "logical_not"):
            rc = call_recv(i)
            pos, i = not pos, rc if rc is not None and rc.kind != "module" else call_pos(i)[0]
        elif is_call(i, "bool", "to", "view", "squeeze", "flatten"):
            i = call_recv(i)
        else:
            break
    if i.kind == "cmp" and i.args[0] == "==" and any(is_const(x, 0) for x in i.args[1:]):
        return pos, i
    if i.kind == "sub" and is_call(i.args[0], "lu", "lu_factor_ex", "cholesky_ex", "lu_unpack", "inv_ex", "ldl_factor_ex"):
        return not pos, i
    if i.kind == "attr" and i.args[1] == "info":
        return not pos, i
    return None, i


def one_system(r, v, e, t, name, facts, fm):
    M, E, d, lam, eps = fm
    n = 0
    want = M
    if facts["damping"]:
        want = add(M, mul(add(mul(lam, d), eps), E)) if facts["ellipsoidal_damping"] else add(M, mul(lam, E))
    sysl = systems(t)
    for m, b, call, tri in sysl:
        n += 1
        r.check(tri, "system-solved", name + "/factor", e, "the factor is used as the wrong triangle")
        if m is None:
            r.skip("system-solved", name, show(call)[:80])
            continue
        idx = []
        try:
            got = matrix_form(m, idx)
            r.check(equal(got, want), "system-solved", name, e, f"solves with matrix {show(m)[:160]}")
        except NotAlgebraic as ex:
            r.skip("system-solved", name, str(ex))
        if facts["damping"] and facts["tensor"]:
            damping_axis(r, e, m, name)
        g = ground(b)
        r.check(lin_attr(g, "Atb"), "right-hand-side", name, e, f"right-hand side is {show(b)[:80]}")
        bi = [x.args[1] for x in subterms(b) if x.kind == "sub" and lin_attr(ground(x), "Atb")]
        mi = [x.args[1] for x in subterms(m) if x.kind == "sub" and lin_attr(ground(x), "AtA") and not (is_const(x.args[1]))]
        mi = [x for x in mi if x.kind != "tuple"]
        # only indices that select batch elements
        allm = set(mi)
        if facts.get("sing"):
            r.check(allm, "singular-left-out", name + "/selected", e, "check_singular requested but every system is factored")
        r.check(set(bi) == allm, "same-elements", name, e, f"matrix of {[show(x)[:30] for x in allm]}, right-hand side of {[show(x)[:30] for x in bi]}")
        if allm and facts["damping"] and facts["tensor"]:
            di = {x.args[1] for x in subterms(m) if x.kind == "sub" and p_param(ground(x), "damping")}
            r.check(di == allm, "same-elements", name + "/damping", e, "the damping is not restricted to the systems that are solved")
        for i in allm:
            s, root = sense(i)
            if s is None:
                r.skip("singular-left-out", name, show(i)[:60])
            else:
                r.check(s, "singular-left-out", name, e, "the singular systems are solved and the others left out")
                r.check(contains(root, lambda y: lin_attr(y, "AtA")), "singular-left-out", name + "/of", e, f"singularity of {show(root)[:60]}")
        # shape of the result and where it is stored
        for u in subterms(t):
            if u.kind == "upd" and contains(u.args[2], lambda y: y is call):
                r.check(u.args[1] in allm if allm else full_slice(u.args[1]), "same-elements", name + "/stored", e, f"solution stored at {show(u.args[1])[:50]}")
                z = u.args[0]
                zero = is_call(z, "new_zeros", "zeros", "zeros_like")
                un = is_call(z, "new_empty", "empty", "empty_like", "new_ones", "ones", "new_full", "ones_like")
                if zero or un:
                    r.check(zero, "singular-left-out", name + "/zero", e, f"the solution of a singular system is {show(z)[:40]}")
        sq = [x for x in subterms(t) if x.kind == "call" and call_recv(x) is call] + [x for x in subterms(t) if x.kind == "sub" and x.args[0] is call]
        if not sq:
            r.check(t is not call and not any(u.kind == "upd" and u.args[2] is call for u in subterms(t)), "step-shape", name, e, "the step keeps the column axis of the right-hand side")
        for x in sq:
            if is_call(x, "squeeze"):
                dm = get_arg(x, 0, "dim")
                r.check(dm is not None and is_const(dm) and dm.args[0] in (2, -1), "step-shape", name, e, f"squeezes {show(dm) if dm is not None else 'every axis of size one'}")
    return n


def damping_axis(r, e, m, name):
    """the per-element damping meets the batch axis of its partner"""
    for x in subterms(m):
        if x.kind != "bin" or x.args[0] != "*":
            continue
        for p, q in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if not p_param(ground(p), "damping"):
                continue
            if contains(q, lambda y: is_call(y, "eye", "diag_embed")):
                rank = 3
            elif is_call(ground(q), "diagonal"):
                rank = 2
            else:
                continue
            sh = p
            while sh.kind == "call" and call_name(sh) in ("to", "type", "double", "float", "clone"):
                sh = call_recv(sh)
            if is_call(sh, "view", "reshape"):
                ps = call_pos(sh)
                ps = ps[0].args[0] if len(ps) == 1 and ps[0].kind in ("tuple", "list") else ps
                vals = [y.args[0] if is_const(y) else None for y in ps]
                if None in vals or vals.count(-1) != 1:
                    r.skip("damping-per-element", name, show(sh)[:60])
                    continue
                r.check(len(vals) - vals.index(-1) == rank and len(vals) == rank, "damping-per-element", name + "/axis", e,
                        f"damping shaped {vals} against a batch of rank {rank}")
            elif is_call(sh, "as_tensor", "tensor") or p_param(sh, "damping") or sh.kind == "sub" and p_param(sh.args[0], "damping"):
                r.bad("damping-per-element", name + "/axis", e, "a per-element damping is applied along the last axis instead of the batch")
            else:
                r.skip("damping-per-element", name, show(sh)[:60])


# ------------------------------------------------------------------ sparse

ROLES = {
    "A_val": lambda a, t, v: lin_attr(t, "A_val"),
    "At_val": lambda a, t, v: lin_attr(t, "A_val"),
    "b": lambda a, t, v: lin_attr(t, "b"),
    "sparse_structure": lambda a, t, v: is_call(t, "structure") and mentions_attr(call_recv(t), "linearization"),
    "A_row_ptr": lambda a, t, v: self_attr("A_row_ptr")(t),
    "A_col_ind": lambda a, t, v: self_attr("A_col_ind")(t),
    "detach_hessian": lambda a, t, v: lin_attr(t, "detached_hessian"),
}


def check_sparse(a, r, cls):
    W = f"{cls.name}.solve"
    v = a.view(cls, "solve", inline_key="c24", opaque=("reset", "convert_to_alpha_beta_damping_tensors"))
    ap = [e for e in v.calls("apply")]
    r.check(ap, "system-solved", W, v, "no differentiable solve")
    scalar = False
    for e in ap:
        fn = show(call_recv(e.term)).split(".")[-1]
        try:
            fwd = a.p.method(a.p.cls(fn), "forward")
        except Exception:
            fwd = None
        if fwd is None:
            r.skip("system-solved", W, fn)
            continue
        params = [x for x in fwd.params if x != "ctx"]
        scalar = scalar or "damping" in params
        vals = list(call_pos(e.term))
        bound = dict(zip(params, vals))
        bound.update({k: x for k, x in call_kw(e.term).items()})
        for n in params:
            x = bound.get(n)
            if x is None:
                d = default_of(fwd, n)
                r.check(n not in ROLES and d != "required", "system-solved", f"{W}/{n}", e, f"{n} is not passed")
                continue
            x = v.c(x)
            if n in ROLES:
                r.check(ROLES[n](a, core_value(x), v), "system-solved", f"{W}/{n}", e, f"{n} is {show(x)[:80]}")
            elif n == "damping":
                for gs, y in cases(x):
                    given = None
                    for g, p in gs:
                        if is_none_test(g, lambda z: p_param(z, "damping")):
                            given = not p
                    if self_attr("_damping")(y):
                        r.check(given is False, "damping-requested", f"{W}/default", e, "the solver's own damping is used although another was requested")
                    else:
                        r.check(p_param(y, "damping") and given is not False, "damping-requested", W, e, f"damping is {show(y)[:60]}")
                if x.kind in ("or", "bool") or x.kind == "phi" and any(p_param(z, "damping") for z in subterms(x.args[0]) if z is x.args[0]):
                    r.bad("damping-requested", f"{W}/zero", e, "a requested damping of zero is replaced")
            elif n == "damping_alpha_beta":
                for gs, y in cases(x):
                    given = None
                    for g, p in gs:
                        if is_none_test(g, lambda z: p_param(z, "damping")):
                            given = not p
                    if is_const(y, None):
                        r.check(given is False, "damping-requested", W + "/none", e, "damping dropped although it was requested")
                    elif is_call(y, "convert_to_alpha_beta_damping_tensors"):
                        for i, q in enumerate(("damping", "damping_eps", "ellipsoidal_damping")):
                            z = get_arg(y, i, q)
                            r.check(z is not None and p_param(z, q), "damping-requested", f"{W}/{q}", e, f"{q}={show(z)[:50] if z is not None else None}")
                        z = get_arg(y, 3, "batch_size")
                        if z is not None:
                            r.check(contains(z, lambda q: lin_attr(q, "A_val", "b") or q.kind == "attr" and q.args[1] == "batch_size"), "damping-requested",
                                    f"{W}/batch_size", e, f"damping sized by {show(z)[:50]}")
                            if z.kind == "sub":
                                r.check(is_const(z.args[1], 0), "damping-requested", f"{W}/batch_size", e, f"damping sized by {show(z)[:50]}")
                        for q in ("device", "dtype"):
                            z = get_arg(y, 9, q)
                            if z is not None:
                                r.check(z.kind == "attr" and z.args[1] == q, "damping-requested", f"{W}/{q}", e, f"{q}={show(z)[:50]}")
                    else:
                        r.skip("damping-requested", W, show(y)[:80])
            elif n in ("symbolic_decomposition",):
                attrs = [y.args[1] for y in subterms(x) if y.kind == "attr" and is_self(y.args[0])]
                r.check(attrs and any("symbolic" in s for s in attrs), "system-solved", f"{W}/{n}", e, f"{n} is {show(x)[:60]}")
            elif n == "solver_context":
                check_rotation(a, r, cls, v, e, x, W)
            elif n == "check_factor_id":
                r.check(is_const(x, True), "stale-context-detected", W, e, f"check_factor_id={show(x)[:40]}")
        for e2 in v.returns():
            r.check(all(y is v.c(e.term) or contains(y, lambda z: z is v.c(e.term)) for _, y in cases(v.c(e2.value))) if len(ap) == 1 else True, "step-returned", W, e2,
                    f"returns {show(e2.value)[:60]}")
    # tensors refused where they cannot be used
    if scalar:
        ra = [e for e in v.raises() if any(is_call(x, "isinstance", "is_tensor") and any(p_param(y, "damping") for y in subterms(x)) for g, p in own(v, e) for x in subterms(g))]
        r.check(ra, "unsupported-refused", W, v, "per-element damping is not refused")
        TEN = {"damping": True, "tensor": True}
        sure = [e for e in ra if env_facts(v, e, TEN) is True]
        maybe = [e for e in ra if env_facts(v, e, TEN) is None and all(mentions_param(g, "damping") for g, p in own(v, e))]
        if sure or not maybe:
            r.check(sure, "unsupported-refused", W + "/tensor", v, "per-element damping is not refused")
        else:
            r.skip("unsupported-refused", W, "condition not recognised")
        for e in ra:
            bad = [f for f in ({"damping": False, "tensor": False}, {"damping": True, "tensor": False}) if env_facts(v, e, f) is True]
            r.check(not bad, "unsupported-refused", W + "/when", e, f"refused when {[(show(g)[:50], p) for g, p in own(v, e)]}")


def env_facts(v, e, facts):
    facts = {**facts}
    res = True
    for g, p in own(v, e):
        d = env_truth(v.c(g), facts)
        if d is None:
            res = None if res else res
        elif d != p:
            return False
    return res


def check_rotation(a, r, cls, v, e, x, W):
    """every solve uses the context after the one used last"""
    if x.kind != "sub":
        r.skip("contexts-rotate", W, show(x)[:60])
        return
    r.check(self_attr("_solver_contexts")(x.args[0]), "contexts-rotate", W, e, f"context from {show(x.args[0])[:50]}")
    i = x.args[1]
    last = [y for y in subterms(i) if self_attr("_last_solver_context")(y)]
    r.check(i.kind == "bin" and i.args[0] == "%" and last, "contexts-rotate", W + "/next", e, f"context number {show(i)[:80]}")
    if i.kind == "bin" and i.args[0] == "%" and last:
        r.check(peq(i.args[1], T("bin", "+", last[0], const(1))), "contexts-rotate", W + "/next", e, f"context number {show(i)[:80]}")
        n = i.args[2]
        ok = n.kind == "attr" and n.args[1] == "num_solver_contexts" or is_call(n, "len") and contains(n, self_attr("_solver_contexts"))
        r.check(ok, "contexts-rotate", W + "/modulus", e, f"wraps at {show(n)[:60]}")
    st = v.sets("_last_solver_context")
    r.check(any(v.c(s.value) is i and v.always([s], own(v, e)) for s in st), "contexts-rotate", W + "/recorded", e, "the context used is not recorded")


def const(x):
    return T("const", x)


def check_convert(a, r):
    try:
        f = a.p.func("theseus.optimizer.linear.utils.convert_to_alpha_beta_damping_tensors")
    except AnalysisBroken:
        return
    W = "convert_to_alpha_beta_damping_tensors"
    v = a.view_of(f, None)
    idx = []

    def leaf(x):
        if x.kind == "param":
            return atom(x.args[1])
        if is_call(x, "as_tensor", "tensor"):
            return go(call_pos(x)[0] if call_pos(x) else call_kw(x)["data"])
        if is_call(x, "full_like", "full"):
            z = get_arg(x, 1, "fill_value")
            return go(z) if z is not None else None
        if is_call(x, "ones", "new_ones", "ones_like"):
            return num(1)
        if is_call(x, "zeros", "new_zeros", "zeros_like"):
            return {}
        return None

    def go(y):
        return alg(y, leaf, TRANSPARENT)
    for e in v.returns():
        for gs, t in cases(e.value):
            t = v.c(t)
            ell = None
            for g, p in own(v, e) + list(gs):
                if g.kind == "param" and g.args[1] == "ellipsoidal_damping":
                    ell = p
            if t.kind == "phi" or ell is None:
                r.skip("damping-converted", W, show(t)[:80])
                continue
            if t.kind != "tuple" or len(t.args[0]) != 2:
                r.skip("damping-converted", W, show(t)[:80])
                continue
            for i, (x, want) in enumerate(zip(t.args[0], ((atom("damping"), atom("damping_eps")) if ell else ({}, atom("damping"))))):
                for gs2, y in cases(x):
                    try:
                        r.check(equal(go(y), want), "damping-converted", f"{W}/{'ellipsoidal' if ell else 'spherical'}/{'alpha beta'.split()[i]}", e,
                                f"{'alpha beta'.split()[i]} is {show(y)[:80]}")
                    except NotAlgebraic as ex:
                        r.skip("damping-converted", W, str(ex))
    rep = [e for e in v.calls("repeat", "expand", "full") if mentions_param(e.term, "batch_size")]
    r.check(rep, "damping-per-element", W, v, "a scalar damping is not given to every batch element")
    exp = [e for e in v.calls("expand", "expand_as", "broadcast_to")]
    r.check(not exp, "damping-stored-per-element", W, exp[0] if exp else v, "kernels index the damping per element; expanded views store one value")


# ------------------------------------------------------------------ forward of the solve functions

def check_forward(a, r, cls):
    f = cls.methods.get("forward")
    W = f"{cls.name}.forward"
    v = a.view_of(f, cls)
    ps = {n: T("param", f.qual, n) for n in f.params}
    A = ps.get("A_val") or ps.get("At_val")
    if A is None or "b" not in ps:
        return
    b = ps["b"]
    names = {n for n in ("A_row_ptr", "A_col_ind") if n in ps}
    # the factorization of the current matrix, damped before it is factored
    fac = v.calls("factor")
    damp = v.calls("damp", "apply_damping")
    mtm = v.calls("add_MtM", "mult_MtM")
    if mtm:
        for e in mtm:
            args = [core_value(x) for x in list(call_pos(e.term)) + list(call_kw(e.term).values())]
            r.check(any(strip_num(x) is A for x in args), "factorizes-current-matrix", W, e, f"builds the normal matrix from {show(e.term)[:80]}")
            order = [x for x in args if x in (ps.get("A_row_ptr"), ps.get("A_col_ind"))]
            r.check(order == [ps["A_row_ptr"], ps["A_col_ind"]], "factorizes-current-matrix", W + "/pattern", e, "row pointers and column indices exchanged or missing")
        r.check(damp, "damping-applied", W, v, "the damping is not applied")
        for e in damp:
            none = [(g, p) for g, p in own(v, e) if is_none_test(g, lambda y: y is ps.get("damping_alpha_beta"))]
            oth = [(g, p) for g, p in own(v, e) if (g, p) not in none and mentions_param(g, "damping_alpha_beta")]
            r.check(all(not p for g, p in none) and not oth, "damping-applied", W + "/when", e, "damping applied only in some cases")
            subs = [x.args[1].args[0] for y in (list(call_pos(e.term)) + list(call_kw(e.term).values())) for x in [strip_num(y)] if x.kind == "sub"
                    and is_const(x.args[1]) and any(z is ps["damping_alpha_beta"] for z in subterms(x.args[0]))]
            if subs:
                r.check(subs == [0, 1], "damping-applied", W + "/order", e, f"passes parts {subs}")
            for m in mtm:
                r.check(m.seq < e.seq, "damping-applied", W + "/after-matrix", e, "damped before the matrix is built")
            for q in fac:
                r.check(e.seq < q.seq, "damping-applied", W + "/before-factor", e, "damped after the factorization")
        r.check(fac and v.always(fac), "factorizes-current-matrix", W + "/factor", v, "the matrix is not factored")
        sol = [e for e in v.calls("solve")]
        for e in sol:
            for q in fac:
                r.check(q.seq < e.seq, "factorizes-current-matrix", W + "/order", e, "solved before the matrix is factored")
                r.check(v.c(call_recv(q.term)) is v.c(call_recv(e.term)), "factorizes-current-matrix", W + "/same", e, "solved with another factorization")
            x = call_pos(e.term)[0] if call_pos(e.term) else None
            if x is not None:
                y = core_value(v.c(x))
                r.check(is_call(y, "tmat_vec"), "right-hand-side", W, e, f"solves for {show(x)[:80]}")
                if is_call(y, "tmat_vec"):
                    zs = [strip_num(z) for z in list(call_pos(y)) + list(call_kw(y).values())]
                    last = zs[-1] if zs else None
                    r.check(last is b, "right-hand-side", W + "/b", e, f"multiplies {show(last)[:40] if last is not None else None}")
                    r.check(any(z is A for z in zs) or any(z.kind == "star" for z in zs), "right-hand-side", W + "/A", e, "not the current matrix")
    else:
        ch = v.calls("cholesky_AAt", "cholesky")
        r.check(ch, "factorizes-current-matrix", W, v, "no factorization")
        for e in ch:
            args = list(call_pos(e.term)) + list(call_kw(e.term).values())
            r.check(any(contains(v.c(x), lambda y: y is A) for x in args), "factorizes-current-matrix", W + "/matrix", e, f"factors {show(e.term)[:80]}")
            r.check(any(x is ps.get("damping") for x in args), "damping-applied", W, e, "the damping is not used")
            subs = [x for y in args for x in subterms(v.c(y)) if x.kind == "sub" and strip_num(x.args[0]) is A]
            its = e.loops
            for x in subs:
                ix = x.args[1].args[0][0] if x.args[1].kind == "tuple" else x.args[1]
                r.check(ix.kind in ("idx", "elem", "each") and its, "factorizes-current-matrix", W + "/element", e, f"factors element {show(ix)[:40]}")
        for e in v.setitems():
            if not e.loops:
                continue
            ix = e.index.args[0][0] if e.index.kind == "tuple" else e.index
            others = {y for x in subterms(v.c(e.value)) if x.kind == "sub" and (strip_num(x.args[0]) in (A, b)) for y in [x.args[1].args[0][0] if x.args[1].kind == "tuple"
                                                                                                                      else x.args[1]]}
            r.check(all(y is v.c(ix) or y is ix for y in others), "same-elements", W, e, f"element {show(ix)[:30]} computed from {[show(y)[:30] for y in others]}")
            if others:
                r.check(contains(v.c(e.value), lambda y: strip_num(y) is b), "right-hand-side", W, e, "does not use b")
    # what is returned is what was solved
    for e in v.returns():
        for _, x in cases(v.c(e.value)):
            y = core_value(strip_num(x))
            if mtm:
                sol = [q for q in v.calls("solve") if call_pos(q.term)]
                r.check(any(core_value(strip_num(v.c(call_pos(q.term)[0]))) is y or strip_num(v.c(q.term)) is y for q in sol if v.always([q])), "step-returned", W, e,
                        f"returns {show(x)[:60]}, which was not solved for")
            else:
                upd = [z for z in subterms(x) if z.kind == "upd" or z.kind in ("loopout", "comp", "coll")]
                emp = [z for z in [y] if is_call(z, "empty", "zeros", "new_zeros", "new_empty")]
                st = [q for q in v.setitems() if q.loops and v.c(q.base) is not None]
                r.check(not emp or st, "step-returned", W, e, "the step is never stored")
            conv = any(z.kind == "call" and call_name(z) == "double" and call_recv(z) in (A, b) or is_call(z, "double") and contains(z, lambda w: w in (A, b)) for q in v.events if q.term is not None
                       for z in subterms(q.term))
            if conv:
                to = [z for z in subterms(x) if z.kind == "attr" and z.args[1] == "dtype" and z.args[0] in (A, b)]
                r.check(to or is_call(x, "to", "type_as"), "step-dtype", W + "/cast", e, "the step keeps double precision")
    for q in v.events:
        if q.term is None or q.kind != "call":
            continue
        for x in q.term.args[1]:
            if x.kind == "sub" and x.args[0].kind == "attr" and x.args[0].args[1] == "shape" and x.args[0].args[0] in (A, b) and is_const(x.args[1]):
                r.check(x.args[1].args[0] == 0, "per-element", W, q, f"batch size taken from {show(x)}")
    if "mult_MtM" in [e.name for e in mtm]:
        for e in mtm:
            args = list(call_pos(e.term))
            if len(args) == 6 and not call_kw(e.term):
                r.check(strip_num(args[3]) is A and args[1] is ps["A_row_ptr"] and args[2] is ps["A_col_ind"], "factorizes-current-matrix", W + "/arguments", e, f"{show(e.term)[:80]}")
    # nothing writes into the inputs
    from checks.C13 import inplace
    bad = list(inplace(v, [n for n in f.params if n != "ctx"]))
    r.check(not bad, "inputs-untouched", W, bad[0] if bad else v, f"modifies {show(bad[0].base)[:50] if bad else ''}")
    for e in v.calls("damp", "apply_damping", "solve", "factor"):
        for x in list(call_pos(e.term)):
            if e.name != "damp" and call_name(e.term) == "solve":
                r.check(x not in (A, b), "inputs-untouched", W + "/solve", e, "solves in place in an input")
    for e in v.returns():
        for _, x in cases(v.c(e.value)):
            if is_call(x, "to") and call_recv(x) is not None:
                d = [y for y in list(call_pos(x)) + list(call_kw(x).values()) if y.kind == "attr" and y.args[1] == "dtype"]
                for y in d:
                    r.check(y.args[0] in (A, b), "step-dtype", W, e, f"returned as {show(y)[:50]}")


def strip_num(t):
    while t.kind == "call" and call_name(t) in ("double", "cpu", "float", "to", "contiguous", "clone", "detach", "numpy", "type") and call_recv(t) is not None:
        t = call_recv(t)
    return t


# ------------------------------------------------------------------ purity

STORED = ("A_val", "b", "A", "AtA", "Atb", "_AtA", "_Atb", "_A", "_AtA_diag", "A_row_ptr", "A_col_ind")


def check_pure(a, r, cls):
    for m in ("solve",):
        v = a.view(cls, m, inline_key="c24p", opaque=("reset",))
        W = f"{cls.name}.{m}"
        bad = []
        for e in v.events:
            b = e.base
            if e.kind in ("setitem", "aug", "del", "mutcall") or e.kind == "call" and e.name and e.name.endswith("_") and not e.name.startswith("_") and b is not None:
                if b is None:
                    continue
                g = ground(v.c(b))
                while g.kind == "upd":
                    g = ground(g.args[0])
                view = g
                while is_call(view, "diagonal", "transpose", "t", "narrow", "select", "permute") and call_recv(view) is not None:
                    view = ground(call_recv(view))
                if view.kind == "attr" and mentions_attr(view.args[0], "linearization"):
                    bad.append((e, view))
            if e.kind == "setattr" and b is not None and mentions_attr(v.c(b), "linearization"):
                bad.append((e, v.c(b)))
        r.check(not bad, "linearization-untouched", W, bad[0][0] if bad else v, f"modifies {show(bad[0][1])[:60] if bad else ''}")
        # keyword out= arguments
        for e in v.calls():
            o = call_kw(e.term).get("out") if e.term is not None and e.term.kind == "call" else None
            if o is not None:
                r.check(not mentions_attr(v.c(o), "linearization"), "linearization-untouched", W + "/out", e, f"writes to {show(o)[:50]}")


def check_reset(a, r, cls):
    """sparsity pattern handed to the factorization is the linearization's"""
    for m in ("__init__", "reset"):
        f = cls.methods.get(m)
        if f is None:
            continue
        v = a.view(cls, m, inline_key="c24r", opaque=("reset",) if m == "__init__" else ())
        for n, at in (("A_row_ptr", "row_ptr"), ("A_col_ind", "col_ind")):
            for e in v.sets(n):
                src = [x.args[1] for x in subterms(v.c(e.value)) if x.kind == "attr" and x.args[1] in ("row_ptr", "col_ind", "indptr", "indices")]
                r.check(src == [at] or set(src) == {at}, "pattern-of-linearization", f"{cls.name}.{m}/{n}", e, f"self.{n} from {src}")
                r.check(mentions_call(v.c(e.value), "structure"), "pattern-of-linearization", f"{cls.name}.{m}/{n}", e, "not the linearization's structure")
        for e in v.sets():
            if "symbolic" in (e.name or ""):
                r.check(contains(v.c(e.value), lambda x: is_call(x, "mock_csc_transpose") or is_call(x, "structure")), "pattern-of-linearization", f"{cls.name}.{m}/{e.name}", e,
                        f"analysed from {show(e.value)[:60]}")
        if m == "reset":
            for c in v.calls():
                t = c.term
                if t is None or t.kind != "call":
                    continue
                if call_name(t) == "CusolverLUSolver" or "CusolverLUSolver" in show(t)[:60]:
                    ps = list(call_pos(t))
                    s = ["indptr" if contains(x, lambda y: y.kind == "attr" and y.args[1] == "indptr") else "indices" if contains(
                        x, lambda y: y.kind == "attr" and y.args[1] == "indices") else None for x in ps]
                    want = [x for x in s if x]
                    if want:
                        r.check(want == ["indptr", "indices"], "pattern-of-linearization", f"{cls.name}.reset/contexts", c, f"pattern passed as {want}")
                if "SymbolicDecomposition" in show(t)[:70]:
                    ps = list(call_pos(t))
                    s = [n for x in ps[:3] for n in ("var_dims", "indptr", "indices") if contains(x, lambda y, n=n: y.kind == "attr" and y.args[1] == n) and not (
                        n == "var_dims" and x is not ps[0])]
                    r.check(s[:1] == ["var_dims"] and [x for x in s if x != "var_dims"] == ["indptr", "indices"], "pattern-of-linearization",
                            f"{cls.name}.reset/blocks", c, f"blocks passed as {s}")


def check(a, r):
    base = a.p.cls("LinearSolver")
    for c in sorted(a.p.subclasses(base), key=lambda c: c.name):
        f = a.p.method(c, "solve")
        if f is None or any("abstract" in str(d) for d in getattr(f, "decorators", ())):
            continue
        v = a.view(c, "solve", inline_key="c24", opaque=("reset", "convert_to_alpha_beta_damping_tensors"))
        check_pure(a, r, c)
        if v.calls("apply"):
            check_sparse(a, r, c)
        elif c.name != "DenseSolver":
            check_dense(a, r, c)
        check_reset(a, r, c)
        r.check("damping" in f.params, "damping-requested", f"{c.name}.solve/parameter", f, "solve takes no damping")
    for c in sorted(a.p.subclasses(base), key=lambda c: c.name):
        f = a.p.method(c, "solve")
        for q in ("damping", "ellipsoidal_damping", "damping_eps"):
            if f is not None and q in f.params:
                d = default_of(f, q)
                want = {"damping": None, "ellipsoidal_damping": True, "damping_eps": 1e-8}[q]
                r.check(d == want and type(d) is type(want), "damping-defaults", f"{c.name}.solve/{q}", f, f"default {q}={d}")
    check_convert(a, r)
    for c in a.p.all_classes():
        if "SolveFunction" in c.name and "forward" in c.methods:
            check_forward(a, r, c)
    r.floor("system-solved", 4)
    r.parallel(a, [(f, ()) for f in (L.solves, L.singular_checks)])
