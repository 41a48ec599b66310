"""Group operations. The closed form of every operation of the variable classes (SO2, SE2, SO3, SE3, points
and vectors) and of the torchlie operator tables is extracted from the source as algebraic normal forms over
symbolic operands (abstract interpretation) and compared, entry by entry at points in general position, with
the documented matrix group operation: products, inverses, exponential, logarithm, adjoint, hat and vee,
actions on points, projections of gradients, conversions and constructors; for all batch combinations."""
import math
from sa import cases as C
from sa import geom as g
from sa import jac
from sa import lietensor
from sa import spec
from sa import tensor as tn
from sa.algebra import num, add
from sa.interp import Cls, Ten
from sa.jac import Wrong, attempt, ten_of
from checks.C40 import lie_fns, method_loc

ASSUMPTIONS = ["real arithmetic; rounding is not modelled", "a form that agrees at two points in general position is the documented one",
               "torch operations behave as documented"]
LIE = C.LIE


def compare(s, F, spec_of, B, tol=1e-7, lead=None):
    """entries of F against the documented value of every batch element"""
    pts = [w for w in (s.w, s.points(7)) if g.holds(s.it, s.it.region.decided, w)]
    if not isinstance(F, Ten):
        raise Wrong(f"the result is {type(F).__name__}")
    if not F.shape or F.shape[0] != B:
        raise Wrong(f"result of shape {tuple(F.shape)} for batch size {B}")
    if not pts:
        raise jac.Unknown("no point of the region")
    e = jac.entries(F)
    for w in pts:
        for b in range(B):
            v = spec_of(w, b)
            sh = spec.shape(v)
            if tuple(F.shape[1:]) != sh:
                raise Wrong(f"result of shape {tuple(F.shape)}, documented {(B, *sh)}")
            for i, x in spec.flat(v):
                ok, d = g.close(add(tn.poly(e[(b, *i)]), num(x), -1), w, tol)
                if not ok:
                    raise Wrong(f"entry {i} of batch element {b} differs from the documented value by {d:.3g}")


class At:
    """operands at a point"""

    def __init__(self, s):
        self.s = s

    def __call__(self, w, b):
        s = self.s

        def row(name):
            bb = b if s.operands[name][1].shape[0] > 1 else 0
            sh = s.operands[name][1].shape[1:]

            def go(i):
                return w[(name, bb, *i)] if len(i) == len(sh) else [go((*i, k)) for k in range(sh[len(i)])]
            return go(())

        def mat(name, kind):
            bb = b if s.operands[name][1].shape[0] > 1 else 0
            return spec.matrix(kind, lambda *i: w[(name, bb, *i)])
        return row, mat


def case(a, r, rule, name, loc, build):
    if hasattr(r, "take"):      # collected for another rule
        return r.take(rule, name, loc, build)

    def run():
        s = C.Setup(a)
        F, B, f = build(s)
        at = At(s)
        compare(s, ten_of(F), lambda w, b: f(*at(w, b)), B)
    attempt(r, rule, name, loc, run)


def variables(a, r, k):
    """operations of a Lie group class"""
    sp = C.space(k)
    dat = spec.data

    def go(name, meth, build):
        case(a, r, "variable", f"{k}.{name}", method_loc(a, k, meth), build)
    combos = ((2, 2), (1, 2), (2, 1), (1, 1))
    for b1, b2 in combos:
        B = max(b1, b2)
        t = f"[{b1},{b2}]"
        go("compose" + t, "compose", lambda s: (s.do(s.var("x", k, b1), "compose", s.var("y", k, b2)), B,
                                                lambda row, m: dat(k, spec.mm(m("x", k), m("y", k)))))
        go("between" + t, "between", lambda s: (s.do(s.var("x", k, b1), "between", s.var("y", k, b2)), B,
                                                lambda row, m: dat(k, spec.mm(spec.inverse(k, m("x", k)), m("y", k)))))
        go("local" + t, "local", lambda s: (s.do(s.var("x", k, b1), "local", s.var("y", k, b2)), B,
                                            lambda row, m: spec.logm(k, spec.mm(spec.inverse(k, m("x", k)), m("y", k)))))
        go("retract" + t, "retract", lambda s: (s.do(s.var("x", k, b1), "retract", s.tangent("v", k, b2)), B,
                                                lambda row, m: dat(k, spec.mm(m("x", k), spec.expm(spec.hat(k, row("v")))))))
        for fn in ("compose", "between", "local"):
            spec_ = {"compose": lambda row, m: dat(k, spec.mm(m("x", k), m("y", k))),
                     "between": lambda row, m: dat(k, spec.mm(spec.inverse(k, m("x", k)), m("y", k))),
                     "local": lambda row, m: spec.logm(k, spec.mm(spec.inverse(k, m("x", k)), m("y", k)))}[fn]
            case(a, r, "function", f"{fn}({k}){t}", "theseus.geometry", lambda s, fn=fn, spec_=spec_: (
                s.it.call(C.geometry_function(s.it, fn), [s.var("x", k, b1), s.var("y", k, b2)], {}), B, spec_))
    go("inverse", "inverse", lambda s: (s.do(s.var("x", k), "inverse"), 2, lambda row, m: dat(k, spec.inverse(k, m("x", k)))))
    go("log_map", "log_map", lambda s: (s.do(s.var("x", k), "log_map"), 2, lambda row, m: spec.logm(k, m("x", k))))
    go("adjoint", "adjoint", lambda s: (s.do(s.var("x", k), "adjoint"), 2, lambda row, m: spec.adjoint(k, m("x", k))))
    go("to_matrix", "to_matrix", lambda s: (s.do(s.var("x", k), "to_matrix"), 2, lambda row, m: m("x", k)))
    go("copy", "copy", lambda s: (s.do(s.var("x", k), "copy"), 2, lambda row, m: dat(k, m("x", k))))

    def cl(s):
        return Cls(g.cls_of(s.it, k))
    go("exp_map", "exp_map", lambda s: (s.do(cl(s), "exp_map", s.tangent("v", k)), 2, lambda row, m: dat(k, spec.expm(spec.hat(k, row("v"))))))
    go("hat", "hat", lambda s: (s.do(cl(s), "hat", s.tangent("v", k)), 2, lambda row, m: spec.hat(k, row("v"))))
    go("vee", "vee", lambda s: (s.do(cl(s), "vee", s.do(cl(s), "hat", s.tangent("v", k))), 2, lambda row, m: row("v")))
    for fn, f in (("inverse", lambda row, m: dat(k, spec.inverse(k, m("x", k)))), ("log_map", lambda row, m: spec.logm(k, m("x", k))),
                  ("adjoint", lambda row, m: spec.adjoint(k, m("x", k)))):
        case(a, r, "function", f"{fn}({k})", "theseus.geometry", lambda s, fn=fn, f=f: (s.it.call(C.geometry_function(s.it, fn), [s.var("x", k)], {}), 2, f))
    case(a, r, "function", f"exp_map({k})", "theseus.geometry", lambda s: (s.it.call(C.geometry_function(s.it, "exp_map"), [s.var("x", k), s.tangent("v", k)], {}), 2,
                                                                            lambda row, m: dat(k, spec.expm(spec.hat(k, row("v"))))))
    case(a, r, "function", f"retract({k})", "theseus.geometry", lambda s: (s.it.call(C.geometry_function(s.it, "retract"), [s.var("x", k), s.tangent("v", k)], {}), 2,
                                                                            lambda row, m: dat(k, spec.mm(m("x", k), spec.expm(spec.hat(k, row("v")))))))
    if k in ("SO2", "SE2"):
        go("normalize", "normalize", lambda s: (s.do(cl(s), "normalize", s.tensor("t", (2, sp.shape[0]), lo=0.4)), 2,
                                                lambda row, m: row("t")[:-2] + [x / spec.norm(row("t")[-2:]) for x in row("t")[-2:]]))
    n = 2 if k in ("SO2", "SE2") else 3
    P = f"Point{n}"
    acts = {"SO2": ("rotate", "unrotate"), "SO3": ("rotate", "unrotate"), "SE2": ("transform_from", "transform_to"), "SE3": ("transform_from", "transform_to")}[k]
    for meth, inv in zip(acts, (False, True)):
        for b1, b2 in combos[:3]:
            for raw in (False, True):
                def build(s, meth=meth, inv=inv, b1=b1, b2=b2, raw=raw):
                    x, p = s.var("x", k, b1), s.var("p", P, b2)
                    return (s.do(x, meth, ten_of(p) if raw else p), max(b1, b2),
                            lambda row, m: spec.act(k, spec.inverse(k, m("x", k)) if inv else m("x", k), row("p")))
                go(f"{meth}[{b1},{b2}{',tensor' if raw else ''}]", meth, build)
    # gradients with respect to the stored entries -> tangent gradients

    def project(s):
        x = s.var("x", k)
        s.tensor("G", (2, *sp.shape) if k in ("SO2", "SE2") else (2, *sp.shape))

        def f(row, m, s=s):
            return tangent_gradient(k, m("x", k), row("G"))
        return s.do(x, "project", s.operands["G"][1]), 2, f
    go("project", "project", project)

    def project2(s):
        x = s.var("x", k)
        s.tensor("G", (2, 3, *sp.shape))
        return s.do(x, "project", s.operands["G"][1], is_sparse=True), 2, lambda row, m: [tangent_gradient(k, m("x", k), q) for q in row("G")]
    go("project rows of each element", "project", project2)

    def project3(s):
        x = s.var("x", k)
        t = s.tensor("G", (2, 3, *sp.shape))
        return s.do(s.do(x, "project", s.do(t, "transpose", 0, 1)), "transpose", 0, 1), 2, \
            lambda row, m: [tangent_gradient(k, m("x", k), q) for q in row("G")]
    go("project leading rows", "project", project3)


def tangent_gradient(k, M, G):
    """sum over entries of gradient times derivative of the entry along each direction"""
    d = C.space(k).dof
    out = []
    for i in range(d):
        e = [1.0 if j == i else 0.0 for j in range(d)]
        V = spec.mm(M, spec.hat(k, e))
        D = spec.data(k, V) if k != "SO2" else [V[0][0], V[1][0]]
        out.append(sum(x * dict(spec.flat(G))[j] for j, x in spec.flat(D)))
    return out


def parts_of(a, r):
    """conversions, parts and constructors"""
    def go(k, name, meth, build):
        case(a, r, "conversion", f"{k}.{name}", method_loc(a, k, meth), build)

    def cl(s, k):
        return Cls(g.cls_of(s.it, k))
    th = (lambda row, m: [math.atan2(m("x", "SO2")[1][0], m("x", "SO2")[0][0])])
    go("SO2", "theta", "theta", lambda s: (s.do(s.var("x", "SO2"), "theta"), 2, th))
    go("SO2", "theta=", "__init__", lambda s: (s.it.call(cl(s, "SO2"), [], {"theta": s.tensor("t", (2, 1))}), 2,
                                               lambda row, m: [math.cos(row("t")[0]), math.sin(row("t")[0])]))
    go("SO2", "update_from_angle", "update_from_angle", lambda s: (updated(s, s.var("x", "SO2"), "update_from_angle", s.tensor("t", (2, 1))), 2,
                                                                   lambda row, m: [math.cos(row("t")[0]), math.sin(row("t")[0])]))
    cs = (lambda row, m: row("x"))
    go("SO2", "to_cos_sin", "to_cos_sin", lambda s: (stack(s, s.do(s.var("x", "SO2"), "to_cos_sin")), 2, cs))
    go("SE2", "theta", "theta", lambda s: (s.do(s.var("x", "SE2"), "theta"), 2, lambda row, m: [math.atan2(row("x")[3], row("x")[2])]))
    go("SE2", "xy", "xy", lambda s: (s.do(s.var("x", "SE2"), "xy"), 2, lambda row, m: row("x")[:2]))
    go("SE2", "translation", "translation", lambda s: (s.it.getattr(s.var("x", "SE2"), "translation"), 2, lambda row, m: row("x")[:2]))
    go("SE2", "rotation", "rotation", lambda s: (s.it.getattr(s.var("x", "SE2"), "rotation"), 2, lambda row, m: row("x")[2:]))
    pose = (lambda row, m: row("t")[:2] + [math.cos(row("t")[2]), math.sin(row("t")[2])])
    go("SE2", "x_y_theta=", "__init__", lambda s: (s.it.call(cl(s, "SE2"), [], {"x_y_theta": s.tensor("t", (2, 3))}), 2, pose))
    go("SE2", "update_from_x_y_theta", "update_from_x_y_theta", lambda s: (updated(s, s.var("x", "SE2"), "update_from_x_y_theta", s.tensor("t", (2, 3))), 2, pose))
    go("SE2", "update_from_rot_and_trans", "update_from_rot_and_trans",
       lambda s: (updated(s, s.var("x", "SE2"), "update_from_rot_and_trans", s.var("q", "SO2"), s.var("p", "Point2")), 2, lambda row, m: row("p") + row("q")))
    go("SE3", "translation", "translation", lambda s: (s.do(s.var("x", "SE3"), "translation"), 2, lambda row, m: [q[3] for q in row("x")]))
    go("SE3", "rotation", "rotation", lambda s: (s.do(s.var("x", "SE3"), "rotation"), 2, lambda row, m: [q[:3] for q in row("x")]))
    go("SE3", "update_from_rot_and_trans", "update_from_rot_and_trans",
       lambda s: (updated(s, s.var("x", "SE3"), "update_from_rot_and_trans", s.var("q", "SO3"), s.var("p", "Point3")), 2,
                  lambda row, m: [u + [v] for u, v in zip(row("q"), row("p"))]))

    def unit(s, name="q", n=4, off=0):
        t = s.tensor(name, (2, n))

        def fn(b, seed):
            rr = g.Rnd(seed)
            v = [rr() for _ in range(4)]
            z = spec.norm(v)
            w = {(name, b, off + i): v[i] / z for i in range(4)}
            w.update({(name, b, i): rr() for i in range(off)})
            return w
        s.operands[name] = (None, t, fn)
        for b in range(2):
            s.w.update(fn(b, 5 + b))
        return t
    rot = (lambda row, m: spec.quat(row("q")))
    rot3 = (lambda row, m: [u + [v] for u, v in zip(spec.quat(row("q")[3:]), row("q")[:3])])
    go("SO3", "quaternion=", "__init__", lambda s: (s.it.call(cl(s, "SO3"), [], {"quaternion": unit(s), "disable_checks": True}), 2, rot))
    go("SO3", "unit_quaternion_to_SO3", "unit_quaternion_to_SO3", lambda s: (s.do(cl(s, "SO3"), "unit_quaternion_to_SO3", unit(s)), 2, rot))
    go("SO3", "update_from_unit_quaternion", "update_from_unit_quaternion", lambda s: (updated(s, s.var("x", "SO3"), "update_from_unit_quaternion", unit(s)), 2, rot))
    go("SE3", "x_y_z_quaternion=", "__init__", lambda s: (s.it.call(cl(s, "SE3"), [], {"x_y_z_quaternion": unit(s, n=7, off=3), "disable_checks": True}), 2, rot3))
    go("SE3", "x_y_z_unit_quaternion_to_SE3", "x_y_z_unit_quaternion_to_SE3", lambda s: (s.do(cl(s, "SE3"), "x_y_z_unit_quaternion_to_SE3", unit(s, n=7, off=3)), 2, rot3))
    go("SE3", "update_from_x_y_z_quaternion", "update_from_x_y_z_quaternion",
       lambda s: (updated(s, s.var("x", "SE3"), "update_from_x_y_z_quaternion", unit(s, n=7, off=3)), 2, rot3))
    for ang in (1e-3, 0.3, 1.5, 2.9, math.pi - 1e-6):
        for axis in range(3):
            def q4(row, m):
                R = m("x", "SO3")
                w = spec.rotlog(R)
                t = spec.norm(w)
                return [math.cos(t / 2)] + [x / t * math.sin(t / 2) for x in w]

            def q7(row, m):
                R = [q[:3] for q in m("x", "SE3")[:3]]
                w = spec.rotlog(R)
                t = spec.norm(w)
                return [q[3] for q in row("x")] + [math.cos(t / 2)] + [x / t * math.sin(t / 2) for x in w]
            go("SO3", f"to_quaternion at {ang:.4g}, axis {axis}", "to_quaternion", lambda s: (s.do(axisvar(s, "SO3", ang, axis), "to_quaternion"), 2, q4))
            if ang in (0.3, 2.9):
                go("SE3", f"to_x_y_z_quaternion at {ang:.4g}, axis {axis}", "to_x_y_z_quaternion",
                   lambda s: (s.do(axisvar(s, "SE3", ang, axis), "to_x_y_z_quaternion"), 2, q7))


def axisvar(s, kind, angle, axis):
    """element rotated by `angle` about an axis whose largest component is `axis`"""
    x = s.var("x", kind)
    sp, t, fn = s.operands["x"]

    def f(b, seed):
        w = fn(b, seed)
        rr = g.Rnd(seed)
        v = [0.3 * rr(), -0.4 * rr(), 0.35 * rr()]
        v[axis] = 0.9 if b == 0 else -0.85
        z = spec.norm(v)
        R = g.rodrigues([q / z for q in v], angle)
        w.update({("x", b, i, j): R[i][j] for i in range(3) for j in range(3)})
        return w
    s.operands["x"] = (sp, t, f)
    for b in range(2):
        s.w.update(f(b, 31 + b))
    return x


def updated(s, o, meth, *args):
    s.do(o, meth, *args)
    return o


def stack(s, ts):
    from sa.interp import Ext
    return s.it.call(Ext("torch.stack"), [list(ts)], {"dim": 1})


def vectors(a, r):
    def go(k, name, meth, build):
        case(a, r, "vector", f"{k}.{name}", method_loc(a, "Vector" if k.startswith("vec") else k, meth), build)
    for k in ("vec3", "Point2", "Point3"):
        n = C.space(k).dof
        both = (lambda s: (s.var("x", k), s.var("y", k)))

        def op(name, o, f, k=k):
            go(k, name, f"__{name}__", lambda s: (s.it.binop(o, s.var("x", k), s.var("y", k)), 2, lambda row, m: [f(u, v) for u, v in zip(row("x"), row("y"))]))
        op("add", "+", lambda u, v: u + v)
        op("sub", "-", lambda u, v: u - v)
        op("mul", "*", lambda u, v: u * v)
        op("truediv", "/", lambda u, v: u / v)
        for o, nm, f in (("*", "mul", lambda u, v: u * v), ("/", "truediv", lambda u, v: u / v)):
            go(k, nm + " tensor", f"__{nm}__", lambda s, o=o, f=f: (s.it.binop(o, s.var("x", k), s.tensor("c", (2, 1))), 2, lambda row, m, f=f: [f(u, row("c")[0]) for u in row("x")]))
        go(k, "neg", "__neg__", lambda s: (s.do(s.var("x", k), "__neg__"), 2, lambda row, m: [-u for u in row("x")]))
        go(k, "abs", "abs", lambda s: (s.do(s.var("x", k), "abs"), 2, lambda row, m: [abs(u) for u in row("x")]))
        go(k, "dot", "dot", lambda s: (s.do(*_two(s, k, "dot")), 2, lambda row, m: sum(u * v for u, v in zip(row("x"), row("y")))))
        go(k, "outer", "outer", lambda s: (s.do(*_two(s, k, "outer")), 2, lambda row, m: [[u * v for v in row("y")] for u in row("x")]))
        go(k, "norm", "norm", lambda s: (s.do(s.var("x", k), "norm", dim=1), 2, lambda row, m: spec.norm(row("x"))))
        if k == "vec3":
            go(k, "cat", "cat", lambda s: (s.do(*_two(s, k, "cat")), 2, lambda row, m: row("x") + row("y")))
            go(k, "to_matrix", "to_matrix", lambda s: (s.do(s.var("x", k), "to_matrix"), 2, lambda row, m: row("x")))
        for nm, f in (("compose", lambda u, v: u + v), ("between", lambda u, v: v - u), ("local", lambda u, v: v - u)):
            for b1, b2 in ((2, 2), (1, 2)):
                go(k, f"{nm}[{b1},{b2}]", nm, lambda s, nm=nm, f=f, b1=b1, b2=b2: (s.do(s.var("x", k, b1), nm, s.var("y", k, b2)), 2,
                                                                            lambda row, m: [f(u, v) for u, v in zip(row("x"), row("y"))]))
        go(k, "inverse", "inverse", lambda s: (s.do(s.var("x", k), "inverse"), 2, lambda row, m: [-u for u in row("x")]))
        go(k, "log_map", "log_map", lambda s: (s.do(s.var("x", k), "log_map"), 2, lambda row, m: row("x")))
        go(k, "retract", "retract", lambda s: (s.do(s.var("x", k), "retract", s.tensor("v", (2, n))), 2, lambda row, m: [u + v for u, v in zip(row("x"), row("v"))]))
        go(k, "exp_map", "exp_map", lambda s: (s.do(Cls(g.cls_of(s.it, "Vector" if k == "vec3" else k)), "exp_map", s.tensor("v", (2, n))), 2, lambda row, m: row("v")))
        go(k, "adjoint", "adjoint", lambda s: (s.do(s.var("x", k), "adjoint"), 2, lambda row, m: spec.eye(n)))

        def proj(s, k=k, n=n):
            x = s.var("x", k)
            return s.do(x, "project", s.tensor("G", (2, n))), 2, lambda row, m: row("G")
        go(k, "project", "project", proj)
        if k != "vec3":
            for i, c in enumerate("xyz"[:n]):
                go(k, c, c, lambda s, c=c, i=i: (s.do(s.var("x", k), c), 2, lambda row, m, i=i: row("x")[i]))


def _two(s, k, meth):
    return s.var("x", k), meth, s.var("y", k)


def torchlie(a, r, k, lead):
    n = math.prod(lead)
    loc = f"torchlie.functional.{k}"
    sp = C.space(k)

    def flatten(s, t):
        if not isinstance(t, Ten):
            raise Wrong(f"the result is {type(t).__name__}")
        if tuple(t.shape[:len(lead)]) != tuple(lead):
            raise Wrong(f"result of shape {tuple(t.shape)} for leading dimensions {lead}")
        return s.do(t, "reshape", n, *t.shape[len(lead):])

    def go(op, args, f):
        def build(s):
            xs = []
            for nm, kind in args:
                t = s.group(nm, kind, n) if kind in LIE else s.tangent(nm, k, n) if kind == "tangent" else s.tensor(nm, (n, *kind))
                if kind == "tangent" and op == "vee":
                    t = s.do(lie_fns(s.it, k), "hat", t)
                xs.append(s.do(t, "reshape", *lead, *t.shape[1:]))
            return flatten(s, s.do(lie_fns(s.it, k), op, *xs)), n, f
        case(a, r, "torchlie", f"{k}.{op} leading {lead}", loc, build)
    dat = spec.data
    go("exp", [("v", "tangent")], lambda row, m: dat(k, spec.expm(spec.hat(k, row("v")))))
    go("log", [("x", k)], lambda row, m: spec.logm(k, m("x", k)))
    go("adj", [("x", k)], lambda row, m: spec.adjoint(k, m("x", k)))
    go("inv", [("x", k)], lambda row, m: dat(k, spec.inverse(k, m("x", k))))
    go("hat", [("v", "tangent")], lambda row, m: spec.hat(k, row("v")))
    go("vee", [("v", "tangent")], lambda row, m: row("v"))
    go("compose", [("x", k), ("y", k)], lambda row, m: dat(k, spec.mm(m("x", k), m("y", k))))
    go("transform", [("x", k), ("p", (3,))], lambda row, m: spec.act(k, m("x", k), row("p")))
    go("untransform", [("x", k), ("p", (3,))], lambda row, m: spec.act(k, spec.inverse(k, m("x", k)), row("p")))
    rows = 3 if k == "SO3" else 4

    def lift(v):
        return spec.hat("SO3", v) if k == "SO3" else [q + [0.5 * 0 + v[i]] for i, q in enumerate(spec.skew(v[3:]))]
    go("lift", [("v", "tangent")], lambda row, m: lifted(k, row("v")))
    go("project", [("A", (3, rows))], lambda row, m: projected(k, row("A")))
    go("left_act", [("x", k), ("A", (3, 2))], lambda row, m: spec.mm([q[:3] for q in m("x", k)[:3]], row("A")))
    go("left_project", [("x", k), ("A", (3, rows))], lambda row, m: projected(k, spec.mm(spec.tr([q[:3] for q in m("x", k)[:3]]), row("A"))))
    if k == "SO3":
        def build(s):
            t = s.tensor("q", (n, 4))

            def fn(b, seed):
                rr = g.Rnd(seed)
                v = [rr() for _ in range(4)]
                z = spec.norm(v)
                return {("q", b, i): v[i] / z for i in range(4)}
            s.operands["q"] = (None, t, fn)
            for b in range(n):
                s.w.update(fn(b, 3 + b))
            return flatten(s, s.do(lie_fns(s.it, k), "quaternion_to_rotation", s.do(t, "reshape", *lead, 4))), n, lambda row, m: spec.quat(row("q"))
        case(a, r, "torchlie", f"{k}.quaternion_to_rotation leading {lead}", loc, build)


def projected(k, A):
    w = [A[2][1] - A[1][2], A[0][2] - A[2][0], A[1][0] - A[0][1]]
    return w if k == "SO3" else [A[0][3], A[1][3], A[2][3]] + w


def lifted(k, v):
    return spec.hat("SO3", v) if k == "SO3" else [q + [v[i]] for i, q in enumerate(spec.skew(v[3:]))]


def broadcast(a, r, k):
    """torchlie binary operations broadcast their leading dimensions"""
    for l1, l2 in (((2, 1), (3,)), ((), (2,)), ((2,), (1,))):
        for op in ("compose", "transform", "untransform"):
            def run():
                s = C.Setup(a)
                n1, n2 = math.prod(l1), math.prod(l2)
                x = s.group("x", k, n1)
                y = s.group("y", k, n2) if op == "compose" else s.tensor("y", (n2, 3))
                F = s.do(lie_fns(s.it, k), op, s.do(x, "reshape", *l1, *x.shape[1:]), s.do(y, "reshape", *l2, *y.shape[1:]))
                from sa import comp
                lead = comp.bshape(l1, l2)
                if tuple(F.shape[:len(lead)]) != tuple(lead):
                    raise Wrong(f"result of shape {tuple(F.shape)} for leading dimensions {l1} and {l2}")
                e = jac.entries(F)
                import itertools
                for w in (s.w, s.points(7)):
                    for i in itertools.product(*map(range, lead)):
                        b1 = pos(l1, comp.index_in(l1, lead, i))
                        b2 = pos(l2, comp.index_in(l2, lead, i))
                        X = spec.matrix(k, lambda *j: w[("x", b1, *j)])
                        if op == "compose":
                            v = spec.data(k, spec.mm(X, spec.matrix(k, lambda *j: w[("y", b2, *j)])))
                        else:
                            v = spec.act(k, X if op == "transform" else spec.inverse(k, X), [w[("y", b2, j)] for j in range(3)])
                        for j, z in spec.flat(v):
                            if (*i, *j) not in e:
                                raise Wrong(f"result of shape {tuple(F.shape)}")
                            ok, d = g.close(add(e[(*i, *j)], num(z), -1), w)
                            if not ok:
                                raise Wrong(f"entry {j} of element {i} differs from the documented value by {d:.3g}")
            attempt(r, "torchlie", f"{k}.{op} leading {l1} and {l2}", f"torchlie.functional.{k}", run)


def pos(sh, i):
    n = 0
    for s, j in zip(sh, i):
        n = n * s + j
    return n


def constructors(a, r, k):
    """random and identity elements belong to the group"""
    for meth in ("rand", "randn", "identity"):
        for where in ("variable", "torchlie"):
            if where == "torchlie" and k not in ("SO3", "SE3") or where == "variable" and meth == "identity":
                continue

            def run():
                s = C.Setup(a)
                o = Cls(g.cls_of(s.it, k)) if where == "variable" else lie_fns(s.it, k)
                F = ten_of(s.do(o, meth, 2, dtype=s.it.ext("torch.float64")))
                if tuple(F.shape) != (2, *C.space(k).shape):
                    raise Wrong(f"shape {tuple(F.shape)}")
                e = jac.entries(F)
                from sa import normal as nf
                for b in range(2):
                    M = spec.matrix(k, lambda *j: nf.value(e[(b, *j)], s.it.region.w))
                    n = 2 if k in ("SO2", "SE2") else 3
                    R = [q[:n] for q in M[:n]]
                    d = max(abs(x) for q in spec.madd(spec.mm(R, spec.tr(R)), spec.eye(n), -1) for x in q)
                    if d > 1e-9 or det(R) < 0:
                        raise Wrong(f"the rotation part is not a rotation (off by {d:.2g}, determinant {det(R):.2g})")
                    if meth == "identity" and max(abs(x) for q in spec.madd(M, spec.eye(len(M)), -1) for x in q) > 1e-12:
                        raise Wrong("not the identity")
            attempt(r, "constructor", f"{k}.{meth} ({where})", method_loc(a, k, meth) if where == "variable" else f"torchlie.functional.{k}", run)


def det(R):
    if len(R) == 2:
        return R[0][0] * R[1][1] - R[0][1] * R[1][0]
    return sum(x * y for x, y in zip(R[0], spec.cross(R[1], R[2])))


def check(a, r):
    jobs = [(variables, (k,)) for k in reversed(LIE)]
    jobs += [(torchlie, (k, lead)) for k in ("SE3", "SO3") for lead in ((2,), (2, 1), ())]
    jobs += [(parts_of, ()), (vectors, ())]
    jobs += [(broadcast, (k,)) for k in ("SO3", "SE3")]
    jobs += [(constructors, (k,)) for k in LIE]
    jobs += lietensor.jobs(a)
    r.parallel(a, jobs)


__all__ = ["check"]
