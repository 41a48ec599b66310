"""Values and gradients stay finite at the singular points. Every group operation, cost function, jacobian and robust loss is
interpreted with its operands exactly at the points where closed forms divide by zero (zero tangent vectors, identities, equal
elements, half turns, zero residuals, limits); there no result may be infinite, and no operation on the differentiable path may be
applied where its value or derivative is infinite, in the alternative torch.where does not select either (its gradient would be nan)."""
import math
from sa import cases as C
from sa import everything as ev
from sa import geom as g
from sa import normal as nf
from sa.comp import Unknown
from sa import tensor as tn
from sa.interp import Cls, Raised, Ten
from sa.jac import Wrong, attempt, entries
from checks.C40 import method_loc

ASSUMPTIONS = ["torch's derivative rules: division, roots, logarithms, inverse sines and atan2 are singular exactly where they are in mathematics; the "
               "derivative of a norm at zero and of abs at zero is zero"]
AXES = {"x": (1.0, 0.0, 0.0), "y": (0.0, 1.0, 0.0), "z": (0.0, 0.0, 1.0), "xy": (0.6, 0.8, 0.0), "xyz": (2 / 3, 1 / 3, 2 / 3)}


def turned(name, s, b, w, R, zero_lin):
    """entries of a group element with the given rotation"""
    if s.kind in ("SO2", "SE2"):
        o = 0 if s.kind == "SO2" else 2
        w[(name, b, o)], w[(name, b, o + 1)] = R[0][0], R[1][0]
        if o and zero_lin:
            w[(name, b, 0)] = w[(name, b, 1)] = 0.0
        return
    for i in range(3):
        for j in range(3):
            w[(name, b, i, j)] = R[i][j]
        if s.kind == "SE3" and zero_lin:
            w[(name, b, i, 3)] = 0.0


EYE = [[float(i == j) for j in range(3)] for i in range(3)]


def half_turn(kind, n):
    if kind in ("SO2", "SE2"):
        return [[-1.0, 0.0], [0.0, -1.0]]
    return [[2 * n[i] * n[j] - (i == j) for j in range(3)] for i in range(3)]


class Singular(C.Setup):
    """operands at singular points in batch element 0 (general position in the others)"""

    def __init__(self, a, pattern, dtype="float64"):
        self.pattern, self.first = pattern, {}
        super().__init__(a, dtype)
        self.at = []
        it = self.it

        def seen(what, p):
            if it.mode:
                self.at.append((what, it.here()))
        it.region.watch = seen

    def add(self, name, s, ten, fn):
        super().add(name, s, ten, fn)
        kind, w, p = getattr(s, "kind", None), self.w, self.pattern
        if s is None:
            return ten
        if kind == "vec":
            key = ("vec", tuple(ten.shape[1:]))
        else:
            key = kind
        if p == "zero":
            if kind == "vec":
                w.update({(name, *i): 0.0 for i in ten.arr().data if i[0] == 0})
            else:
                turned(name, s, 0, w, EYE, True)
        elif p == "identity rotation" and kind != "vec":
            turned(name, s, 0, w, EYE, False)
        elif p == "equal":
            if key in self.first and ten.shape[0] <= self.first[key][1]:
                other = self.first[key][0]
                w.update({(name, *i): w[(other, *i)] for i in ten.arr().data})
            self.first.setdefault(key, (name, ten.shape[0]))
        elif isinstance(p, tuple) and kind != "vec":
            # a half turn from the identity
            if self.first.get(kind) is None:
                turned(name, s, 0, w, half_turn(kind, AXES[p[1]]), False)
            else:
                turned(name, s, 0, w, EYE, False)
            self.first.setdefault(kind, (name, 1))
        return ten

    def tangent(self, name, kind, batch=2, angle=None):
        t = super().tangent(name, kind, batch, angle)
        p = self.pattern
        if p == "identity rotation" or isinstance(p, tuple):
            d = t.shape[1]
            lin = {"SE2": 2, "SE3": 3}.get(kind, 0 if kind in C.LIE else d)
            for i in range(lin, d):
                self.w[(name, 0, i)] = 0.0 if not isinstance(p, tuple) else math.pi * (1.0 if d - lin == 1 else AXES[p[1]][i - lin])
        return t


PATTERNS = ("zero", "identity rotation", "equal", ("half turn", "x"), ("half turn", "y"), ("half turn", "z"), ("half turn", "xyz"))


def finite(s, results):
    for label, t in results:
        for i, p in entries(t).items():
            if isinstance(p, dict):
                v = nf.value(p, s.w)
                if v != v or abs(v) > 1e15:
                    raise Wrong(f"{label}{list(i)} is not finite")


def watched(s, go):
    results = go()
    finite(s, results)
    if s.at:
        what, where = s.at[0]
        raise Wrong(f"{what} at {where}: its gradient is not finite")
    for cls, ctx, inputs, out in list(s.it.applied):
        if isinstance(out, Ten) and s.it.mode:
            backward(s, cls, ctx, inputs, out)
    return results


def backward(s, cls, ctx, inputs, out):
    """the derivative rule of an autograd function at the same point"""
    grad = tn.symbols("grad", tuple(out.shape), out.dtype)
    s.w.update({k: 0.3 + 0.1 * n for n, k in enumerate(m[0][0] for f in grad.arr().data.values() for m in f)})
    watch, s.it.region.watch = s.it.region.watch, None
    try:
        res = s.it.call(s.it.getattr(cls, "backward"), [ctx, grad], {})
    except (Unknown, Raised):
        return      # C25 decides whether the rule applies
    finally:
        s.it.region.watch = watch
    for n, x in enumerate(res if isinstance(res, (tuple, list)) else [res]):
        if isinstance(x, Ten):
            finite(s, [(f"gradient of input {n} of {cls.c.name}", x)])


def runs(a, r, make, patterns, *args):
    for run in make(a, *args):
        for p in patterns:
            if any(n in run.name and p == q for n, q in UNDEFINED):
                continue

            def go():
                s = Singular(a, p)
                watched(s, lambda: run.go(s))
            attempt(r, "singular point", f"{run.name} at {p if isinstance(p, str) else ' about '.join(p)}", run.loc, go)


# the operation itself is undefined there: dividing by a zero vector, a point in the plane of the camera
UNDEFINED = (("truediv", "zero"), ("Reprojection", "zero"))


def named(a, name):
    return next((c for c in a.p.all_classes() if c.name == name), None)


def losses(a, r):
    """robust losses at zero error and at their radius, and robust costs with a zero error"""
    for cls in ("HuberLoss", "WelschLoss", "HingeLoss", "GemanMcClureLoss"):
        c = named(a, cls)
        if c is None:
            continue
        for x in (0.0, 1.0, 4.0):
            for meth in ("evaluate", "linearize"):
                def go():
                    s = Singular(a, "none")
                    e, rad = s.tensor("x", (1, 1)), s.tensor("log_radius", (1, 1))
                    s.w[("x", 0, 0)], s.w[("log_radius", 0, 0)] = x, 0.0
                    args = [e, rad]
                    if cls == "GemanMcClureLoss":
                        args.append(s.tensor("mu", (1, 1), lo=1.0))
                    watched(s, lambda: ev.tensors(s.it.call(s.it.getattr(Cls(c), meth), args, {}), meth))
                attempt(r, "robust loss", f"{cls}.{meth} at squared error {x:g}, radius 1", method_loc(a, cls, meth), go)
    for kind in ("vec2", "SE3", "SO2"):
        for cls in ("HuberLoss", "WelschLoss", "HingeLoss", "GemanMcClureLoss"):
            if named(a, cls) is None:
                continue
            for flat in (False, True):
                for meth in ("error", "weighted_error", "weighted_jacobians_error"):
                    def go():
                        s = Singular(a, "zero")
                        inner = s.new("Local", s.var("x", kind), s.var("t", kind), s.weight())
                        robust = "GNCRobustCostFunction" if cls == "GemanMcClureLoss" else "RobustCostFunction"
                        args = [inner, Cls(named(a, cls)), s.aux("log_radius", (1, 1))]
                        if cls == "GemanMcClureLoss":
                            args.append(s.aux("mu", (1, 1), lo=1.0))
                        f = s.new(robust, *args, flatten_dims=flat)
                        s.w[("log_radius", 0, 0)] = 0.3
                        watched(s, lambda: ev.tensors(s.do(f, meth), meth))
                    attempt(r, "robust cost", f"{cls} of a zero {kind} residual{', flattened' if flat else ''}: {meth}", method_loc(a, "RobustCostFunction", meth), go)


def sampling(a, r):
    """the deviation of a single best sample is zero"""
    from checks import C31
    for n in (1, 2):
        def go():
            v = C31.Valley(a, 2, 1, temp=None, n_elite=n)
            C31.spread(v)
            at, it = [], v.it

            def seen(what, p):
                at.append((what, it.here()))
            it.region.watch, it.region.strict = seen, True
            v.s.do(v.opt, "_CEM_step")
            if at:
                raise Wrong(f"{at[0][0]} at {at[0][1]}: its gradient is not finite")
        attempt(r, "sampling", f"step of DCEM with {n} elite", method_loc(a, "DCEM", "_CEM_step"), go)


def check(a, r):
    jobs = [(runs, (ev.group_operations, PATTERNS, p)) for p in ev.PARTS]
    jobs += [(runs, (ev.with_jacobians, PATTERNS, k)) for k in ev.JAC]
    jobs += [(runs, (ev.torchlie_jacobians, PATTERNS))]
    jobs += [(runs, (ev.cost_functions, PATTERNS[:4]))]
    jobs += [(losses, ()), (sampling, ())]
    r.parallel(a, jobs)
