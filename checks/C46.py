"""Robust losses. The closed forms returned by evaluate() and linearize() of every
concrete loss are put in a normal form branch by branch (element-wise selections
and max/min are split on their comparison); the derivative of the value with
respect to the squared error is computed symbolically on that normal form and
compared with the linearization. The value at zero and at branch borders, and the
named losses' formulas, are compared the same way."""
from sa.algebra import NotAlgebraic, alg, branches, decide_max, diff, equal, mul, num, power, add
from sa.rules import *  # noqa: F401,F403

MAXMIN = ("max", "maximum", "min", "minimum", "clamp", "where", "abs", "clip", "clamp_min", "clamp_max", "relu")


def operands(x):
    r = call_recv(x)
    ps = list(call_pos(x)) + list(call_kw(x).values())
    if r is not None and r.kind == "module":
        r, ps = (ps[0], ps[1:]) if ps else (None, [])
    return (r, ps[0]) if r is not None and len(ps) == 1 else None


def split(t, cond=(), depth=0):
    out = []
    for c, b in branches(t, cond):
        b = decide_max(b, c)
        m = next((x for x in subterms(b) if x.kind == "call" and call_name(x) in ("max", "maximum", "min", "minimum", "clamp") and operands(x)), None)
        if m is None or depth > 4:
            out.append((c, b))
            continue
        p, q = operands(m)
        if p is q:
            out += split(rebuild(b, lambda x: p if x is m else x), c, depth + 1)
            continue
        k = T("cmp", "<", p, q)
        k2 = T("cmp", "<", q, p)
        for pol in (True, False):
            cc = (*c, (k, pol)) if not any(y is k2 for y, _ in c) else c
            out += split(b, cc, depth + 1)
    return out


def consistent(c1, c2):
    return not contradictory((*c1, *c2))


def form(v, name):
    """single returned term of a function, or None"""
    rs = v.returns()
    return v.c(rs[0].value) if len(rs) == 1 and not rs[0].guards else None


def check(a, r):
    base = a.p.cls("RobustLoss")
    n = 0
    for cls in sorted(a.p.subclasses(base, strict=True), key=lambda c: c.name):
        if a.p.is_abstract(cls):
            continue
        n += 1
        check_loss(a, r, cls)
    r.floor("linearization-is-derivative", 1)


def loss_exact(cls, c, X, R, M):
    """normal form of the documented loss in the branch with conditions c"""
    from sa.algebra import expof
    if cls == "WelschLoss":
        return add(R, mul(R, expof(mul(num(-1), mul(X, power(R, -1))))), -1)
    if cls == "GemanMcClureLoss" and M is not None:
        return mul(mul(mul(M, R), X), power(add(mul(M, R), X), -1))
    return None


def is_outlier(c, xterm):
    """True when the branch is the one of large squared errors"""
    for k, p in c:
        if k.kind == "cmp" and k.args[0] in ("<", "<="):
            if k.args[2] is xterm:
                return p
            if k.args[1] is xterm:
                return not p
        if k.kind == "cmp" and k.args[0] in (">", ">="):
            if k.args[1] is xterm:
                return p
            if k.args[2] is xterm:
                return not p
    return None


def check_loss(a, r, cls):
    n = cls.name
    ve, vl = a.view(n, "evaluate"), a.view(n, "linearize")
    te, tl = form(ve, n), form(vl, n)
    fe, fl = ve.func, vl.func
    where = n
    if te is None or tl is None:
        r.skip("linearization-is-derivative", where, "several returns")
        return
    # name parameters alike in both functions
    pe, pl = [p for p in fe.params if p not in ("cls", "self")], [p for p in fl.params if p not in ("cls", "self")]
    if len(pe) != len(pl) or len(pe) < 2:
        r.skip("linearization-is-derivative", where, "signatures differ")
        return
    ren = dict(zip(pl, pe))
    tl = rebuild(tl, lambda x: T("param", fe.qual, ren[x.args[1]]) if x.kind == "param" and x.args[1] in ren else x)
    P = {p: next((x for t in (te, tl) for x in subterms(t) if x.kind == "param" and x.args[1] == p), None) for p in pe}
    X, LR = P[pe[0]], P[pe[1]]
    if X is None or LR is None:
        r.check(X is not None, "depends-on-error-and-radius", where, ve, "the loss ignores the squared error")
        r.check(LR is not None or X is None, "depends-on-error-and-radius", where + "/radius", ve, "the loss ignores the radius")
        return
    # the radius enters exponentiated, the other inputs as they are
    for t, v in ((te, ve), (tl, vl)):
        if contains(t, lambda x: x is LR):
            rest = rebuild(t, lambda x: NONE if is_call(x, "exp") and strip_recv(x) is LR else x)
            r.check(not contains(rest, lambda x: x is LR), "radius-is-exponentiated", f"{n}.{v.func.name}", v, "the logarithm of the radius is used as a radius")
    RT = next((x for t in (te, tl) for x in subterms(t) if is_call(x, "exp") and strip_recv(x) is LR), None)
    be, bl = split(te), split(tl)
    try:
        x = alg(X)
        xk = next(iter(x))[0][0]
        zero = num(0)
        for ce, b in be:
            for cl, d in bl:
                if not consistent(ce, cl):
                    continue
                cond = tuple(dict.fromkeys((*ce, *cl)))
                b2, d2 = decide_max(b, cond), decide_max(d, cond)
                if contradictory(cond):
                    continue
                if contains(b2, lambda y: y.kind == "call" and call_name(y) in MAXMIN) or contains(d2, lambda y: y.kind == "call" and call_name(y) in MAXMIN):
                    r.skip("linearization-is-derivative", where, "a selection is not resolved")
                    continue
                E, L = alg(b2), alg(d2)
                r.check(equal(diff(E, xk), L), "linearization-is-derivative", where + suffix(cond, X), vl,
                        f"{show(d2)[:80]} is not the derivative of {show(b2)[:80]}")
        # documented formulas
        R = alg(RT) if RT is not None else None
        M = alg(P[pe[2]]) if len(pe) > 2 and P[pe[2]] is not None else None
        for ce, b in be:
            if R is None or contradictory(ce) or contains(b, lambda y: y.kind == "call" and call_name(y) in MAXMIN):
                continue
            out = is_outlier(ce, X)
            E = alg(b)
            want = None
            if n in ("WelschLoss", "GemanMcClureLoss"):
                want = loss_exact(n, ce, x, R, M)
            elif n == "HuberLoss" and out is not None:
                want = add(mul(num(2), power(mul(R, x), "1/2")), R, -1) if out else x
            elif n == "HingeLoss" and out is not None:
                want = add(power(x, "1/2"), power(R, "1/2"), -1) if out else zero
            if want is not None:
                r.check(equal(E, want), "documented-loss", where + suffix(ce, X), ve, f"evaluates {show(b)[:100]}")
        # value at zero error and at the border between branches
        for ce, b in be:
            out = is_outlier(ce, X)
            if contradictory(ce) or contains(b, lambda y: y.kind == "call" and call_name(y) in MAXMIN):
                continue
            if out is not True:
                z = rebuild(b, lambda y: const(0) if y is X else y)
                try:
                    r.check(equal(alg(z), zero), "no-loss-without-error", where, ve, f"the loss at zero is {show(z)[:80]}")
                except NotAlgebraic:
                    pass
        for i, (c1, b1) in enumerate(be):
            for c2, b2 in be[i + 1:]:
                if contradictory(c1) or contradictory(c2):
                    continue
                ks = [k for k, p in c1 for k2, p2 in c2 if k is k2 and p != p2]
                if len(ks) != 1 or ks[0].kind != "cmp" or X not in (ks[0].args[1], ks[0].args[2]):
                    continue
                o = ks[0].args[2] if ks[0].args[1] is X else ks[0].args[1]
                if contains(o, lambda y: y is X):
                    continue
                e1, e2 = (alg(rebuild(bb, lambda y: o if y is X else y)) for bb in (b1, b2))
                r.check(equal(e1, e2), "continuous-at-radius", where, ve, "the loss jumps between its branches")
    except NotAlgebraic as ex:
        r.skip("linearization-is-derivative", where, f"not a closed form: {ex}")


def suffix(c, X):
    o = is_outlier(c, X)
    return "" if o is None else "/outlier" if o else "/inlier"


def strip_recv(x):
    rc = call_recv(x)
    if rc is not None and rc.kind == "module":
        return call_pos(x)[0] if call_pos(x) else None
    return rc


def norm(c):
    """conditions with ties between branches ignored: a < b is the negation of b < a"""
    out = []
    for k, p in c:
        if k.kind == "cmp" and k.args[0] in ("<", "<=", ">", ">="):
            x, y = k.args[1], k.args[2]
            if k.args[0] in (">", ">="):
                x, y = y, x
            if x.uid > y.uid:
                x, y, p = y, x, not p
            out.append((T("cmp", "<", x, y), p))
        else:
            out.append((k, p))
    return out


def contradictory(c):
    n = norm(c)
    return any(k is k2 and p != p2 for k, p in n for k2, p2 in n)
