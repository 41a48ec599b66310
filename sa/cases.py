"""Operations of the library set up for the abstract interpreter: every case builds its
operands from symbols, runs the operation and hands back operands and results."""
import math
from . import geom as g
from . import tensor as tn
from .geom import Space
from .interp import Cls, Interp, Mod, Obj, Raised, Region, Ten
from .comp import Malformed, Unknown
from .algebra import NotAlgebraic

LIE = ("SO2", "SE2", "SO3", "SE3")
SP = {"SO2": Space("SO2"), "SE2": Space("SE2"), "SO3": Space("SO3"), "SE3": Space("SE3"), "Point2": Space("vec", 2), "Point3": Space("vec", 3)}


def space(name):
    return SP[name] if name in SP else Space("vec", int(name[3:]))


class Setup:
    """interpreter with operands; records what goes in"""

    def __init__(self, a, dtype="float64", seed=1, angles=None, hooks=None, sizes=None):
        self.a, self.dtype, self.seed, self.angles = a, dtype, seed, angles or {}
        self.w = {}
        self.sizes = sizes or {}
        tn.LIMIT[0], tn.GRAD[0] = 3, True
        self.it = Interp(a, Region(self.w), dtype, hooks=hooks)
        self.operands = {}     # name -> (space, Ten)
        self.vars = {}         # variable objects
        self.n = 0

    def points(self, seed):
        """another point of the same operand spaces"""
        w, n = {}, 0
        for name, (s, t, fn) in self.operands.items():
            n += 1
            for b in range(t.shape[0]):
                w.update(fn(b, seed * 101 + n * 10 + b))
        return w

    def add(self, name, s, ten, fn):
        self.operands[name] = (s, ten, fn)
        for b in range(ten.shape[0]):
            self.w.update(fn(b, self.seed * 101 + len(self.operands) * 10 + b))
        return ten

    def tensor(self, name, shape, lo=None, scale=1.0):
        """free tensor with a batch axis; entries positive when lo is given"""
        t = tn.symbols(name, shape, self.dtype)

        def fn(b, seed):
            r = g.Rnd(seed)
            return {(name, *i): (lo + abs(r()) if lo is not None else scale * r()) for i in t.arr().data if i[:1] == (b,)}
        return self.add(name, None, t, fn)

    def var(self, name, kind, batch=2, angle=None):
        s = space(kind)
        batch = self.sizes.get(name, batch)
        t = s.symbols(name, batch, self.dtype)
        ang = angle if angle is not None else self.angles.get(name)
        self.add(name, s, t, lambda b, seed: s.point(name, b, seed, ang))
        v = self.vars[name] = g.variable(self.it, kind if kind in SP else "Vector", t, name)
        return v

    def group(self, name, kind, batch=2, angle=None, lead=None):
        s = space(kind)
        t = s.symbols(name, batch, self.dtype)
        self.add(name, s, t, lambda b, seed: s.point(name, b, seed, angle))
        return t

    def tangent(self, name, kind, batch=2, angle=None):
        s = space(kind)
        t = tn.symbols(name, (batch, s.dof), self.dtype)
        self.add(name, Space("vec", s.dof), t, lambda b, seed: s.tangent_point(name, b, seed, angle if angle is not None else 0.8 + 0.01 * b))
        return t

    def aux(self, name, shape, lo=None, scale=1.0):
        if name in self.sizes:
            shape = (self.sizes[name], *shape[1:])
        t = self.tensor(name, shape, lo, scale)
        v = self.vars[name] = self.it.call(Cls(g.cls_of(self.it, "Variable")), [t], {"name": name})
        return v

    def weight(self, dim=None):
        return self.it.call(Cls(g.cls_of(self.it, "ScaleCostWeight")), [self.tensor("weight", (1, 1), lo=0.5)], {})

    def new(self, cls, *args, **kw):
        return self.it.call(Cls(g.cls_of(self.it, cls)), list(args), kw)

    def do(self, o, meth, *args, **kw):
        return self.it.call(self.it.getattr(o, meth), list(args), kw)


def ten_of(x):
    return x.attrs["tensor"] if isinstance(x, Obj) and "tensor" in x.attrs else x


class Case:
    def __init__(self, name, qual, run, out, ins, seeds=(1, 2), angles=(None,), key="jacobians", cls=None):
        self.name, self.qual, self.run, self.out, self.ins, self.seeds, self.angles = name, qual, run, out, ins, seeds, angles


def theseus_ops():
    """operations with jacobians of the variable classes"""
    out = []

    def unary(k, meth, outk):
        def run(s, jac):
            x = s.var("x", k)
            kw = {"jacobian" if meth == "inverse" else "jacobians": jac}
            return s.do(x, meth, **kw) if jac is not None else s.do(x, meth)
        out.append(Case(f"{k}.{meth}", (k, meth), run, outk, ["x"]))

    def binary(k, meth, k2, outk, batches=((2, 2), (1, 2), (2, 1)), raw=False):
        for b1, b2 in batches:
            def run(s, jac, b1=b1, b2=b2):
                x, y = s.var("x", k, b1), s.var("y", k2, b2)
                arg = ten_of(y) if raw else y
                return s.do(x, meth, arg, **({"jacobians": jac} if jac is not None else {}))
            out.append(Case(f"{k}.{meth}[{b1},{b2}{',tensor' if raw else ''}]", (k, meth), run, outk, ["x", "y"]))
    for k in (*LIE, "Point2", "Point3"):
        d = f"vec{space(k).dof}"

        def exp(s, jac, k=k):
            t = s.tangent("x", k)
            return s.do(Cls(g.cls_of(s.it, k)), "exp_map", t, **({"jacobians": jac} if jac is not None else {}))
        out.append(Case(f"{k}.exp_map", (k, "exp_map"), exp, k, ["x"]))
        unary(k, "log_map", d)
        unary(k, "inverse", k)
        binary(k, "compose", k, k)
        binary(k, "between", k, k)
        binary(k, "local", k, d, ((2, 2), (1, 2)))
    for k, p in (("SO2", "Point2"), ("SO3", "Point3")):
        for m in ("rotate", "unrotate"):
            binary(k, m, p, p)
            binary(k, m, p, p, ((2, 2),), raw=True)
    for k, p in (("SE2", "Point2"), ("SE3", "Point3")):
        for m in ("transform_from", "transform_to"):
            binary(k, m, p, p)
            binary(k, m, p, p, ((2, 2),), raw=True)
    unary("SE2", "theta", "vec1")
    unary("SE2", "xy", "Point2")
    # the same operations as functions
    for k in (*LIE, "Point2"):
        d = f"vec{space(k).dof}"
        for fn, key, o in (("inverse", "jacobian", k), ("log_map", "jacobians", d)):
            def call1(s, jac, k=k, fn=fn, key=key):
                return s.it.call(geometry_function(s.it, fn), [s.var("x", k)], {key: jac} if jac is not None else {})
            out.append(Case(f"{fn}({k})", (k, fn), call1, o, ["x"]))
        for fn, o in (("compose", k), ("between", k), ("local", d)):
            def call2(s, jac, k=k, fn=fn):
                return s.it.call(geometry_function(s.it, fn), [s.var("x", k), s.var("y", k)], {"jacobians": jac} if jac is not None else {})
            out.append(Case(f"{fn}({k})", (k, fn), call2, o, ["x", "y"]))

        def call3(s, jac, k=k):
            x = s.var("z", k)
            t = s.tangent("x", k)
            return s.it.call(geometry_function(s.it, "exp_map"), [x, t], {"jacobians": jac} if jac is not None else {})
        out.append(Case(f"exp_map({k})", (k, "exp_map"), call3, k, ["x"]))
    return out


def geometry_function(it, name):
    """function exported by theseus.geometry"""
    for m in it.a.p.modules.values():
        if m.name.startswith("theseus.geometry") and name in m.functions:
            return it.getattr(Mod(m), name)
    raise Unknown(f"function {name}")


def sdf_parts(s, bs, rows=4, cols=5):
    # a field around the query points, which have coordinates in (-2, 2)
    o = s.tensor("origin", (bs, 2))
    s.operands["origin"] = (None, o, lambda b, seed: {("origin", b, 0): -4.1, ("origin", b, 1): -3.9})
    for b in range(bs):
        s.w.update(s.operands["origin"][2](b, 0))
    c = s.tensor("cell", (bs, 1))
    s.operands["cell"] = (None, c, lambda b, seed: {("cell", b, 0): 2.3})
    for b in range(bs):
        s.w.update(s.operands["cell"][2](b, 0))
    d = s.tensor("field", (bs, rows, cols))
    V = Cls(g.cls_of(s.it, "Variable"))
    return g.variable(s.it, "Point2", o, "origin"), s.it.call(V, [d], {"name": "field"}), s.it.call(V, [c], {"name": "cell"})


def costs():
    """cost functions of the library: (class, builder of the object, operand names)"""
    out = []

    def add(cls, build, ins, tag=""):
        out.append((cls, build, ins, tag))
    for k in (*LIE, "Point2"):
        add("Local", lambda s, k=k: s.new("Local", s.var("x", k), s.var("t", k, 1), s.weight()), ["x"], k)
        add("Between", lambda s, k=k: s.new("Between", s.var("x", k), s.var("y", k), s.var("m", k, 1), s.weight()), ["x", "y"], k)
    for k in ("SO2", "SE2", "Point2"):
        add("MovingFrameBetween", lambda s, k=k: s.new("MovingFrameBetween", s.var("f1", k), s.var("f2", k), s.var("p1", k), s.var("p2", k), s.var("m", k, 1), s.weight()),
            ["f1", "f2", "p1", "p2"], k)
    for k in ("SE2", "Point2", "SO2", "SE3"):
        d = space(k).dof
        for nm in ("DoubleIntegrator", "GPMotionModel"):
            def build(s, k=k, d=d, nm=nm):
                w = s.weight() if nm == "DoubleIntegrator" else gp_weight(s, d)
                return s.new(nm, s.var("p1", k), s.var("v1", f"vec{d}"), s.var("p2", k), s.var("v2", f"vec{d}"), s.aux("dt", (1, 1), lo=0.3), w)
            if k != "SE3" or nm == "DoubleIntegrator":
                add(nm, build, ["p1", "v1", "p2", "v2"], k)
    for k in ("SE2", "vec3", "Point3"):
        add("Nonholonomic", lambda s, k=k: s.new("Nonholonomic", s.var("x", k), s.var("v", "vec3"), s.weight()), ["x", "v"], k)
    for side, lo, hi in (("inside", -5, 5), ("below", 3, 9), ("above", -9, -3), ("mixed", (-9, 3), (-3, 9)), ("sides", (-5, -9, 3), (5, -3, 9))):
        def build(s, lo=lo, hi=hi):
            x = s.var("x", "vec3")
            nb = 2 if isinstance(lo, tuple) and len(lo) == 2 else 1
            lim = [s.tensor(n, (nb, 3)) for n in ("down", "up", "thr")]
            for n, v in (("down", lo), ("up", hi), ("thr", 0.5)):
                at = (lambda b, i, v=v: v if not isinstance(v, tuple) else v[b] if len(v) == 2 else v[i])
                s.operands[n] = (None, s.operands[n][1], lambda b, seed, n=n, at=at: {(n, b, i): at(b, i) + 0.1 * i for i in range(3)})
                for b in range(nb):
                    s.w.update(s.operands[n][2](b, 0))
            return s.new("HingeCost", x, *lim, s.weight())
        add("HingeCost", build, ["x"], side)
    for k in ("SE2", "Point2"):
        for b in (1, 2):
            for tag, eps in (("near", (4.0,)), ("far", (-4.0,)), ("mixed", (-4.0, 4.0))):
                def build(s, k=k, b=b, eps=eps):
                    x = s.var("x", k)
                    o, f, c = sdf_parts(s, b)
                    e = s.tensor("eps", (len(eps), 1))
                    s.operands["eps"] = (None, e, lambda b, seed: {("eps", b, 0): eps[b]})
                    for j in range(len(eps)):
                        s.w.update(s.operands["eps"][2](j, 0))
                    return s.new("Collision2D", x, o, f, c, s.it.call(Cls(g.cls_of(s.it, "Variable")), [e], {}), s.weight())
                if b == 2:
                    add("Collision2D", build, ["x"], f"{k},{tag}")
    for tag, rad in (("outside", (-3.0,)), ("inside", (3.0,)), ("mixed", (-3.0, 3.0))):
        def build(s, rad=rad):
            x, y = s.var("x", "SE2"), s.var("y", "SE2")
            # keep the effector close to the object
            for n in ("x", "y"):
                sp, t, fn = s.operands[n]
                s.operands[n] = (sp, t, lambda b, seed, fn=fn, n=n: {k: (v * 0.3 if k[2] < 2 else v) for k, v in fn(b, seed).items()})
                for b in range(2):
                    s.w.update(s.operands[n][2](b, 7 + b + 3 * (n == "y")))
            o, f, c = sdf_parts(s, 2)
            e = s.tensor("rad", (len(rad), 1))
            s.operands["rad"] = (None, e, lambda b, seed: {("rad", b, 0): rad[b]})
            for j in range(len(rad)):
                s.w.update(s.operands["rad"][2](j, 0))
            return s.new("EffectorObjectContactPlanar", x, y, o, f, c, s.it.call(Cls(g.cls_of(s.it, "Variable")), [e], {}), s.weight())
        add("EffectorObjectContactPlanar", build, ["x", "y"], tag)
    add("QuasiStaticPushingPlanar", lambda s: s.new("QuasiStaticPushingPlanar", s.var("o1", "SE2"), s.var("o2", "SE2"), s.var("e1", "SE2"), s.var("e2", "SE2"),
                                                    s.aux("c2", (1, 1), lo=0.5), s.weight()), ["o1", "o2", "e1", "e2"])

    def rep(s):
        cam, pt = s.var("cam", "SE3"), s.var("pt", "Point3")
        k = [s.var(n, "vec1", 1) for n in ("f", "k1", "k2")]
        return s.new("Reprojection", cam, pt, s.var("img", "Point2", 1), k[0], k[1], k[2], weight=s.weight())
    add("Reprojection", rep, ["cam", "pt"])
    add("_XYDifference", lambda s: s.new("_XYDifference", s.var("x", "SE2"), s.var("t", "Point2", 1), s.weight()), ["x"])
    return out


def gp_weight(s, d, batch=1):
    q = s.tensor("Qc", (batch, d, d))

    def fn(b, seed):
        r = g.Rnd(seed)
        m = [[r() * 0.3 for _ in range(d)] for _ in range(d)]
        return {("Qc", b, i, j): sum(m[i][k] * m[j][k] for k in range(d)) + (1.0 if i == j else 0) for i in range(d) for j in range(d)}
    s.operands["Qc"] = (None, q, fn)
    for b in range(batch):
        s.w.update(fn(b, 5 + b))
    return s.new("GPCostWeight", q, s.aux("dtw", (1, 1), lo=0.3))


__all__ = ["Setup", "Case", "theseus_ops", "costs", "space", "SP", "LIE", "ten_of", "gp_weight", "sdf_parts", "math", "Raised", "Malformed", "Unknown", "NotAlgebraic", "Ten"]
