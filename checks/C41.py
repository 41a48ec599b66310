"""exp and log invert each other. Both maps of every Lie group class and of the torchlie tables are composed by the
abstract interpreter in both orders, separately for every region of the rotation angle the source distinguishes (from
zero over the series near zero to half a turn, negative and wrapped angles) and for both precisions; the composed closed form is
compared with the identity at points inside the region and at its borders."""
import math
from sa import cases as C
from sa import geom as g
from sa import normal as nf
from sa import spec
from sa import tensor as tn
from sa.interp import Cls, Interp, Region
from sa.jac import Wrong, attempt, ten_of, entries
from checks.C40 import AXES, at_axis, lie_fns, method_loc

ASSUMPTIONS = ["real arithmetic; rounding is not modelled (tolerance 1e-6, and 2e-4 with the wider single precision regions)", "torch operations behave as documented"]
ANGLES = (0.0, *g.ANGLES, math.pi - 1e-7)
WRAPPED = (math.pi + 0.1, 4.0, 2 * math.pi - 0.05, 2 * math.pi + 0.3, 7.5)
TOL = {"float64": 2e-6, "float32": 3e-4}


def maps(a, it, kind, api):
    if api == "class":
        cl = Cls(g.cls_of(it, kind))
        return (lambda t: it.call(it.getattr(cl, "exp_map"), [t], {}),
                lambda x: it.call(it.getattr(x if not hasattr(x, "arr") else g.variable(it, kind, x, "x"), "log_map"), [], {}))
    fns = lie_fns(it, kind)
    return (lambda t: it.call(it.getattr(fns, "exp"), [t], {}), lambda x: it.call(it.getattr(fns, "log"), [ten_of(x)], {}))


TRUNCATED = []      # cases showing the truncated translation of SE3 exp near zero


def judge(what, F, ref, lin, th, kind, dtype, w, axis, sign=1):
    """F against ref; lin: the linear part of the tangent vector"""
    e = entries(F)
    dev = {i: nf.value(e[(0, *i)], w) - x for i, x in spec.flat(ref)}
    if max(map(abs, dev.values())) <= TOL[dtype]:
        return
    if kind == "SE3" and abs(th) < 0.02:
        # the coefficient of the rotation (1 - t^2/4) in place of 1 - t^2/6
        left = dict(dev)
        for i in range(3):
            k = (i,) if (i,) in dev else (i, 3)
            left[k] += th * th / 12 * lin[i]
        if max(map(abs, left.values())) <= 3e-7 * (10 if dtype == "float32" else 1):
            TRUNCATED.append(f"{max(map(abs, dev.values())):.2g} at rotation angle {th:.6g}")
            return
    raise Wrong(f"{what} by {max(map(abs, dev.values())):.2g} for rotation angle {th:.6g}, axis {axis}")


def angle_of(kind, M):
    if kind in ("SO2", "SE2"):
        return abs(math.atan2(M[1][0], M[0][0]))
    c = (M[0][0] + M[1][1] + M[2][2] - 1) / 2
    return math.acos(max(-1, min(1, c)))


def tangent(a, kind, api, dtype, axis, th):
    """log(exp(v)) = v and exp(log(exp(v))) = exp(v)"""
    s = C.space(kind)
    w = at_axis(s, "t", th, axis, "exp")
    tn.LIMIT[0] = 3
    it = Interp(a, Region(dict(w)), dtype)
    exp, log = maps(a, it, kind, api)
    X = exp(tn.symbols("t", (1, s.dof), dtype))
    L = ten_of(log(X))
    v = [w[("t", 0, i)] for i in range(s.dof)]
    if tuple(L.shape) != (1, s.dof):
        raise Wrong(f"log has shape {tuple(L.shape)}")
    if abs(th) < math.pi - 1e-3:
        judge("log(exp(v)) differs from v", L, v, v, th, kind, dtype, it.region.w, axis)
    judge("exp(log(exp(v))) differs from exp(v)", ten_of(exp(L)), spec.data(kind, spec.expm(spec.hat(kind, v))), [2 * x for x in v[:3]], th, kind, dtype, it.region.w, axis)
    return it


def half_turn(kind, w, n):
    """exactly half a turn about the unit axis n"""
    if kind in ("SO2", "SE2"):
        (c, s), = [[("t", 0, i), ("t", 0, i + 1)] for i in (0 if kind == "SO2" else 2,)]
        w[c], w[s] = -1.0, 0.0
        return
    for i in range(3):
        for j in range(3):
            w[("t", 0, i, j)] = 2 * n[i] * n[j] - (1.0 if i == j else 0.0)


HALF = ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (0.6, 0.8, 0.0), (0.0, -0.6, 0.8), (-0.8, 0.0, 0.6), (2 / 3, 1 / 3, -2 / 3), (1 / 9, 4 / 9, 8 / 9), (-8 / 9, -4 / 9, 1 / 9))


def element(a, kind, api, dtype, axis, th, half=False):
    """exp(log(g)) = g, with the logarithm in the principal domain"""
    s = C.space(kind)
    w = at_axis(s, "t", th, AXES[0] if half else axis, "log")
    if half:
        half_turn(kind, w, axis)
    tn.LIMIT[0] = 3
    it = Interp(a, Region(dict(w)), dtype)
    exp, log = maps(a, it, kind, api)
    t = s.symbols("t", 1, dtype)
    L = ten_of(log(t))
    M = spec.matrix(kind, lambda *i: w[("t", 0, *i)])
    e = entries(L)
    rot = [nf.value(e[(0, i)], it.region.w) for i in range(s.dof)][-1 if kind in ("SO2", "SE2") else -3:]
    if spec.norm(rot) > math.pi + 1e-3:
        raise Wrong(f"the logarithm has rotation angle {spec.norm(rot):.4g}, more than half a turn")
    if abs(spec.norm(rot) - angle_of(kind, M)) > max(TOL[dtype], 1e-5):
        raise Wrong(f"the logarithm of a rotation by {angle_of(kind, M):.6g} has angle {spec.norm(rot):.6g}")
    judge("exp(log(g)) differs from g", ten_of(exp(L)), spec.data(kind, M), [nf.value(e[(0, i)], it.region.w) for i in range(3)] if kind == "SE3" else None, th,
          kind, dtype, it.region.w, axis)
    return it


def exp_loc(a):
    m = next((m for n, m in a.p.modules.items() if n.endswith("functional.se3_impl")), None)
    f = m.functions.get("_exp_impl_helper") if m else None
    return f"{m.path}:{f.node.lineno}" if f is not None and hasattr(m, "path") else "torchlie.functional.SE3"


def round_trip(a, r, kind, api, dtype, what):
    loc = method_loc(a, kind, ("exp_map" if what == "tangent" else "log_map")) if api == "class" else f"torchlie.functional.{kind}"
    fn = tangent if what == "tangent" else element
    planar = kind in ("SO2", "SE2")
    told = []
    for axis in AXES[:1] if planar else AXES:
        signs = (1, -1) if planar else (1,)
        for sg in signs:
            for th in (*ANGLES, *(WRAPPED if what == "tangent" else ())):
                def run():
                    TRUNCATED.clear()
                    inner()
                    if TRUNCATED and not told:
                        told.append(1)
                        r.check(False, "round trip", f"{kind} translation near zero", exp_loc(a), "the translation of the exponential near zero is multiplied by the "
                                f"coefficient 1 - t^2/4 of the rotation's Cayley form instead of sin(t)/t = 1 - t^2/6: off by {TRUNCATED[0]}")

                def inner():
                    it = fn(a, kind, api, dtype, axis, sg * th)
                    if not 1e-6 < th < math.pi - 1e-4:
                        return
                    # the borders of the region
                    lo, hi = g.borders(it, it.region.decided, lambda x: {**at_axis(C.space(kind), "t", sg * x, axis, "exp" if what == "tangent" else "log")}, th)
                    for x in (lo, hi):
                        if 1e-6 < x < math.pi - 1e-6:
                            fn(a, kind, api, dtype, axis, sg * x)
                attempt(r, f"{what} round trip", f"{kind}[{api},{dtype}] angle {sg * th:.6g} axis {axis}", loc, run)


def half_turns(a, r, kind, api, dtype):
    loc = method_loc(a, kind, "log_map") if api == "class" else f"torchlie.functional.{kind}"
    for n in HALF[:1] if kind in ("SO2", "SE2") else HALF:
        attempt(r, "element round trip", f"{kind}[{api},{dtype}] exactly half a turn about {tuple(round(x, 3) for x in n)}", loc,
                lambda: element(a, kind, api, dtype, n, math.pi, True) and None)


def check(a, r):
    jobs = [(half_turns, (k, api, dt)) for k in ("SE3", "SO3", "SE2", "SO2") for api in (("class", "torchlie") if k in ("SE3", "SO3") else ("class",))
            for dt in ("float64", "float32")]
    for k in ("SE3", "SO3", "SE2", "SO2"):
        for api in ("class", "torchlie") if k in ("SE3", "SO3") else ("class",):
            for dt in ("float64", "float32"):
                for what in ("tangent", "element"):
                    jobs.append((round_trip, (k, api, dt, what)))
    r.parallel(a, jobs)
