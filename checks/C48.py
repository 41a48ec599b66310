"""Residuals of the library's cost functions. error() of every cost function is extracted from the source as algebraic
normal forms over symbolic variables (abstract interpretation) and compared with the documented residual: the
logarithm of the deviation from the target or measurement, the integrator and Gaussian process models, the pushing
model, reprojection, limits, collision and contact distances; and the weighted squares of the Gaussian process weight."""
import math
from sa import cases as C
from sa import geom as g
from sa import jac
from sa import normal as nf
from sa import spec
from sa import tensor as tn
from sa.jac import Wrong, attempt, ten_of
from checks.C19 import At, compare
from checks.C40 import method_loc

ASSUMPTIONS = ["real arithmetic; rounding is not modelled", "a form that agrees at two points in general position is the documented one",
               "torch operations behave as documented"]


def sub(u, v):
    return [x - y for x, y in zip(u, v)]


def local(k, X, Y):
    if k.startswith("Point"):
        return sub(Y, X)
    return spec.logm(k, spec.mm(spec.inverse(k, X), Y))


class Points(At):
    """the matrix of a vector is the vector; names of replaced operands are followed"""

    def __init__(self, s, names=None):
        super().__init__(s)
        self.names = names or {}

    def __call__(self, w, b):
        row, mat = super().__call__(w, b)
        to = (lambda n: self.names.get(n, n))
        return lambda n: row(to(n)), lambda n, k: row(to(n)) if k.startswith("Point") else mat(to(n), k)


def between(k, X, Y):
    return sub(Y, X) if k.startswith("Point") else spec.mm(spec.inverse(k, X), Y)


def kind(tag):
    return tag.split(",")[0]


def bilinear(s, w, b, pt):
    """interpolated field value at pt (inside the grid)"""
    def at(n, *i):
        if n + "_" in s.operands:
            n += "_"
        return w[(n, b if s.operands[n][1].shape[0] > 1 else 0, *i)]
    c = at("cell", 0)
    col, row = (pt[0] - at("origin", 0)) / c, (pt[1] - at("origin", 1)) / c
    rows, cols = s.operands["field"][1].shape[1:]
    if not (0 <= col <= cols - 1 and 0 <= row <= rows - 1):
        raise jac.Unknown("query outside the grid")
    c0, r0 = min(int(col), cols - 2), min(int(row), rows - 2)
    u, v = col - c0, row - r0
    F = (lambda i, j: at("field", r0 + i, c0 + j))
    return (1 - v) * ((1 - u) * F(0, 0) + u * F(0, 1)) + v * ((1 - u) * F(1, 0) + u * F(1, 1))


def reference(cls, tag, s):
    """documented residual as a function of (row, matrix) readers, the point and the batch element"""
    k = kind(tag)
    if cls == "Local":
        return lambda row, m, w, b: local(k, m("t", k), m("x", k))
    if cls == "Between":
        return lambda row, m, w, b: local(k, m("m", k), between(k, m("x", k), m("y", k)))
    if cls == "MovingFrameBetween":
        def f(row, m, w, b):
            p1 = between(k, m("f1", k), m("p1", k))
            p2 = between(k, m("f2", k), m("p2", k))
            return local(k, m("m", k), between(k, p1, p2))
        return f
    if cls in ("DoubleIntegrator", "GPMotionModel"):
        return lambda row, m, w, b: [x - row("dt")[0] * v for x, v in zip(local(k, m("p1", k), m("p2", k)), row("v1"))] + sub(row("v2"), row("v1"))
    if cls == "Nonholonomic":
        if k == "SE2":
            return lambda row, m, w, b: [row("v")[1]]
        return lambda row, m, w, b: [row("v")[1] * math.cos(row("x")[2]) - row("v")[0] * math.sin(row("x")[2])]
    if cls == "HingeCost":
        return lambda row, m, w, b: [max(lo + t - x, x - up + t, 0.0) for x, lo, up, t in zip(row("x"), row("down"), row("up"), row("thr"))]
    if cls == "Collision2D":
        return lambda row, m, w, b: [max(0.0, row("eps")[0] - bilinear(s, w, b, row("x")[:2]))]
    if cls == "EffectorObjectContactPlanar":
        def contact(row, m, w, b):
            p = spec.act("SE2", spec.inverse("SE2", m("x", "SE2")), row("y")[:2])
            d = bilinear(s, w, b, p)
            return [abs(d - row("rad")[0])]
        return contact
    if cls == "QuasiStaticPushingPlanar":
        def push(row, m, w, b):
            def xy(n):
                return row(n)[:2]
            c, sn = row("o2")[2:]

            def obj(v):
                return [c * v[0] + sn * v[1], -sn * v[0] + c * v[1]]
            p = spec.act("SE2", spec.inverse("SE2", m("o2", "SE2")), xy("e2"))
            v = obj(sub(xy("o2"), xy("o1")))
            vp = obj(sub(xy("e2"), xy("e1")))
            R = spec.mm(spec.inverse("SE2", m("o1", "SE2")), m("o2", "SE2"))
            om = math.atan2(R[1][0], R[0][0])
            return [v[0] - p[1] * om - vp[0], v[1] + p[0] * om - vp[1], -p[1] * v[0] + p[0] * v[1] - row("c2")[0] * om]
        return push
    if cls == "Reprojection":
        def rep(row, m, w, b):
            q = spec.act("SE3", m("cam", "SE3"), row("pt"))
            p = [-q[0] / q[2], -q[1] / q[2]]
            n = p[0] ** 2 + p[1] ** 2
            f = row("f")[0] * (1 + row("k1")[0] * n + row("k2")[0] * n * n)
            return [p[0] * f - row("img")[0], p[1] * f - row("img")[1]]
        return rep
    if cls == "_XYDifference":
        return lambda row, m, w, b: sub(row("x")[:2], row("t"))
    return None


def residual(a, r, cls, build, ins, tag, sizes):
    name = cls + (f"[{tag}]" if tag else "") + (" batch " + ",".join(f"{k}={v}" for k, v in sorted(sizes.items())) if sizes else "")

    def run():
        s = C.Setup(a, sizes=sizes)
        o = build(s)
        ref = reference(cls, tag, s)
        if ref is None:
            raise jac.Unknown(f"no documented residual recorded for {cls}")
        F = ten_of(s.do(o, "error"))
        at = Points(s)
        B = max(t.shape[0] for _, t, _ in s.operands.values())
        if F.shape and F.shape[0] == 1 and B > 1:       # an error that does not mention the batched variables
            F = s.do(F, "expand", B, *F.shape[1:])
        compare(s, F, lambda w, b: ref(*at(w, b), w, b), B)
    attempt(r, "residual", name, method_loc(a, cls, "error"), run)


def renamed(s, name, t):
    """another value for operand `name`"""
    new = name + "_"
    sh = s.operands[name][1].shape
    u = tn.symbols(new, sh, s.dtype)
    sp, _, fn = s.operands[name]

    def f(b, seed):
        w, old = fn(b, seed + 17), fn(b, seed)
        if all(w[k] == old[k] for k in w):
            w = {k: v * 1.01 for k, v in w.items()}
        return {(new, *k[1:]): v for k, v in w.items() if k[0] == name}
    s.operands[new] = (sp, u, f)
    for b in range(sh[0]):
        s.w.update(f(b, 11 + b))
    return new, u if t.shape == u.shape else s.do(u, "reshape", *t.shape)


def replaced(a, r, cls, build, tag, how):
    """the residual follows variables that are replaced or updated after construction"""
    for group in ("optim", "aux"):
        i = n = 0
        while i == 0 or i < n:
            def run():
                nonlocal n
                s = C.Setup(a)
                o = build(s)
                ref = reference(cls, tag, s)
                if ref is None:
                    raise jac.Unknown(f"no documented residual recorded for {cls}")
                n = s.do(o, f"num_{group}_vars")
                if i >= n:
                    return
                s.do(o, "error")
                var = s.do(o, f"{group}_var_at", i)
                t = ten_of(var)
                keys = {k[0] for f in t.arr().data.values() for m in f for k, _ in m}
                if len(keys) != 1 or (name := keys.pop()) not in s.operands:
                    raise jac.Unknown(f"operand behind {group} variable {i}")
                new, u = renamed(s, name, t)
                if how == "replaced":
                    s.do(o, f"set_{group}_var_at", i, g.variable(s.it, var.c.name, u, new))
                else:
                    s.do(var, "update", u)
                F = ten_of(s.do(o, "error"))
                at = Points(s, {name: new})
                B = max(t.shape[0] for _, t, _ in s.operands.values())
                if F.shape and F.shape[0] == 1 and B > 1:
                    F = s.do(F, "expand", B, *F.shape[1:])
                try:
                    compare(s, F, lambda w, b: ref(*at(w, b), w, b), B)
                except Wrong as e:
                    raise Wrong(f"after {group} variable {i} was {how}: {e}") from None
            attempt(r, "current variables", f"{cls}{f'[{tag}]' if tag else ''} {group} {i} {how}", method_loc(a, cls, "error"), run)
            i += 1


def gp_square(a, r, d, batch, through):
    """squared weighted residual of the Gaussian process weight"""
    def run():
        s = C.Setup(a)
        w = C.gp_weight(s, d, batch)
        e = s.tensor("e", (2, 2 * d))
        if through == "error":
            F = ten_of(s.do(w, "weight_error", e))
            get = None
        else:
            J = s.tensor("J", (2, 2 * d, 3))
            got = s.do(w, "weight_jacobians_and_error", [J], e)
            Js, F = got
            get = ten_of(Js[0])
            if tuple(get.shape) != (2, 2 * d, 3):
                raise Wrong(f"weighted jacobian of shape {tuple(get.shape)}")
        if tuple(F.shape) != (2, 2 * d):
            raise Wrong(f"weighted error of shape {tuple(F.shape)}")
        ent = jac.entries(F)
        for pt in (s.w, s.points(7)):
            if not g.holds(s.it, s.it.region.decided, pt):
                continue
            for b in range(2):
                q = b if batch > 1 else 0
                dt = pt[("dtw", 0, 0)]
                Q = [[pt[("Qc", q, i, j)] for j in range(d)] for i in range(d)]
                k = [[12 / dt ** 3, -6 / dt ** 2], [-6 / dt ** 2, 4 / dt]]
                M = [[k[i // d][j // d] * Q[i % d][j % d] for j in range(2 * d)] for i in range(2 * d)]
                ev = [pt[("e", b, i)] for i in range(2 * d)]
                we = [nf.value(ent[(b, i)], pt) for i in range(2 * d)]
                want = sum(x * y for x, y in zip(ev, spec.mv(M, ev)))
                if abs(sum(x * x for x in we) - want) > 1e-6 * max(1, abs(want)):
                    raise Wrong(f"squared weighted error {sum(x * x for x in we):.6g} of batch element {b}, the process covariance gives {want:.6g}")
                if get is not None:
                    je = jac.entries(get)
                    for c in range(3):
                        jc = [pt[("J", b, i, c)] for i in range(2 * d)]
                        got_ = sum(nf.value(je[(b, i, c)], pt) * we[i] for i in range(2 * d))
                        want = sum(x * y for x, y in zip(jc, spec.mv(M, ev)))
                        if abs(got_ - want) > 1e-6 * max(1, abs(want)):
                            raise Wrong(f"column {c} of the weighted jacobian does not give the gradient of the squared weighted error")
    attempt(r, "process weight", f"GPCostWeight[{d}] {through} batch {batch}", method_loc(a, "GPCostWeight", "_compute_cost_weight"), run)


def check(a, r):
    jobs = []
    for cls, build, ins, tag in C.costs():
        for sizes in [{}] + ([{ins[0]: 1}, {n: 1 for n in ins[1:]}] if len(ins) > 1 else []):
            jobs.append((residual, (cls, build, ins, tag, sizes)))
        if cls in ("Local", "Between", "MovingFrameBetween"):
            jobs.append((residual, (cls, build, ins, tag, {n: 1 for n in ins})))
    # measurements and targets with a batch of their own
    for k in C.LIE:
        jobs.append((residual, ("Local", lambda s, k=k: s.new("Local", s.var("x", k), s.var("t", k), s.weight()), ["x"], k, {})))
        jobs.append((residual, ("Local", lambda s, k=k: s.new("Local", s.var("x", k, 1), s.var("t", k), s.weight()), ["x"], k, {"x": 1})))
        jobs.append((residual, ("Between", lambda s, k=k: s.new("Between", s.var("x", k), s.var("y", k), s.var("m", k), s.weight()), ["x", "y"], k, {"y": 1})))
    seen = set()
    for cls, build, ins, tag in C.costs():
        if cls not in seen or tag.startswith("SE2"):
            seen.add(cls)
            jobs += [(replaced, (cls, build, tag, how)) for how in ("replaced", "updated")]
    jobs += [(gp_square, (d, b, t)) for d in (1, 2) for b in (1, 2) for t in ("error", "jacobian")]
    r.parallel(a, jobs)
