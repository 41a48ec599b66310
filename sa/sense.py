"""Gradients of solutions. The layer is interpreted on client problems whose minimizer is known in closed form; the gradients that the backward modes
leave on the returned values are compared with the derivative of the minimizer with respect to every input."""
from . import cases as C
from . import normal as nf
from . import system
from . import tensor as tn
from .comp import Unknown
from .geom import cls_of
from .interp import Cls
from .jac import Wrong, attempt, ten_of
from .state import accepted

FIT = '''
import torch


class Fit(CostFunction):
    """m [x, y] - t"""

    def __init__(self, x, y, m, t, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.x, self.y, self.m, self.t = x, y, m, t
        self.register_optim_vars(["x", "y"])
        self.register_aux_vars(["m", "t"])

    def error(self):
        v = torch.cat([self.x.tensor, self.y.tensor], dim=1)
        return (self.m.tensor * v.unsqueeze(1)).sum(dim=2) - self.t.tensor

    def jacobians(self):
        m = self.m.tensor
        return [m[:, :, :2], m[:, :, 2:]], self.error()

    def dim(self):
        return self.t.tensor.shape[1]

    def _copy_impl(self, new_name=None):
        return Fit(self.x.copy(), self.y.copy(), self.m.copy(), self.t.copy(), self.weight.copy(), name=new_name)


class Bend(CostFunction):
    """q (y - p) + (y - p)^3: vanishes at y = p"""

    def __init__(self, y, p, q, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.y, self.p, self.q = y, p, q
        self.register_optim_vars(["y"])
        self.register_aux_vars(["p", "q"])

    def error(self):
        d = self.y.tensor - self.p.tensor
        return self.q.tensor * d + d * d * d

    def jacobians(self):
        d = self.y.tensor - self.p.tensor
        return [(self.q.tensor + 3 * d * d).unsqueeze(2)], self.error()

    def dim(self):
        return 1

    def _copy_impl(self, new_name=None):
        return Bend(self.y.copy(), self.p.copy(), self.q.copy(), self.weight.copy(), name=new_name)
'''
ROWS, COLS = 4, 3


# ------------------------------------------------------------------ the minimizer, in complex numbers: its derivative is the imaginary part of a step
def gauss(H, g):
    n = len(g)
    M = [list(H[i]) + [g[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(M[k][i]))
        M[i], M[p] = M[p], M[i]
        for k in range(n):
            if k != i:
                f = M[k][i] / M[i][i]
                M[k] = [u - f * v for u, v in zip(M[k], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


class World:
    """inputs x (2), y (1), m (ROWS x COLS), t (ROWS), weights w and v, p and q of the second cost function"""

    def __init__(self, a, optimizer, batch=2, bend=False, solved=False, shared=(), solver=None, leaves=(), order=(), **params):
        s = self.s = C.Setup(a, hooks={"warnings.warn": lambda it, *x, **k: None, **(system.hooks() if solver and "Sparse" in solver else {})})
        it = self.it = s.it
        it.grads = True
        self.batch, self.bend = batch, bend
        client = it.define(FIT, "theseus.core.cost_function")
        size = lambda n: 1 if n in shared else batch
        self.vars = {"x": s.var("x", "vec2", batch), "y": s.var("y", "vec1", batch), "m": s.aux("m", (size("m"), ROWS, COLS)), "t": s.aux("t", (size("t"), ROWS)),
                     "w": s.aux("w", (size("w"), 1), lo=0.5)}
        scale = lambda n: it.call(Cls(cls_of(it, "ScaleCostWeight")), [self.vars[n]], {})
        costs = [it.call(client["Fit"], [self.vars[n] for n in "xymt"] + [scale("w")], {"name": "fit"})]
        if bend:
            self.vars.update({"p": s.aux("p", (size("p"), 1)), "q": s.aux("q", (size("q"), 1), lo=0.5), "v": s.aux("v", (size("v"), 1), lo=0.5)})
            costs.append(it.call(client["Bend"], [self.vars[n] for n in "ypq"] + [scale("v")], {"name": "bend"}))
        self.objective = s.new("Objective", dtype=it.ext("torch.float64"))
        for c in costs:
            s.do(self.objective, "add", c)
        self.tensors = {n: ten_of(v) for n, v in self.vars.items()}
        for k in list(s.w):
            if k[0] == "m":     # well conditioned
                s.w[k] = 0.5 * s.w[k] + (1.5 if k[2] == k[3] else 0.0)
        if bend or solved:
            self.settle(shared)
        kw = {"linear_solver_cls": Cls(cls_of(it, solver))} if solver else {}
        if order:
            o = s.new("VariableOrdering", self.objective, default_order=False)
            for n in order:
                s.do(o, "append", self.vars[n])
            kw["linearization_kwargs"] = {"ordering": o}
        self.opt = s.new(optimizer, self.objective, **{"max_iterations": 3, **params}, **kw)
        self.layer = s.new("TheseusLayer", self.opt, vectorize=False)
        it.leaves = {id(self.tensors[n].store) for n in leaves}

    def settle(self, shared):
        """residuals vanish at the given values"""
        w = self.s.w
        if "t" in shared or "p" in shared:
            raise Unknown("shared target")
        for b in range(self.batch):
            v = [w["x", b, 0], w["x", b, 1], w["y", b, 0]]
            for r in range(ROWS):
                w["t", b, r] = sum(w["m", 0 if "m" in shared else b, r, c] * v[c] for c in range(COLS))
            if self.bend:
                w["p", b, 0] = w["y", b, 0]

    def inputs(self):
        return dict(self.tensors)

    def keys(self):
        """differentiable inputs"""
        return [(n, key_of(v)) for n, t in self.tensors.items() if n not in ("x", "y") for v in t.arr().data.values()]

    def value(self, change, n, b, *i):
        t = self.tensors[n]
        k = (n, 0 if t.shape[0] == 1 else b, *i)
        return self.s.w[k] + (1e-30j if change == k else 0)

    def minimizer(self, b, change):
        """minimizer of batch element b, one more Newton step from a known solution when residuals vanish"""
        get = lambda n, *i: self.value(change, n, b, *i)
        A = [[get("m", r, c) for c in range(COLS)] for r in range(ROWS)]
        w2 = get("w", 0) ** 2
        H = [[w2 * sum(A[r][i] * A[r][j] for r in range(ROWS)) for j in range(COLS)] for i in range(COLS)]
        g = [w2 * sum(A[r][i] * get("t", r) for r in range(ROWS)) for i in range(COLS)]
        if self.bend:
            v2 = get("v", 0) ** 2 * get("q", 0) ** 2
            H[2][2] += v2
            g[2] += v2 * get("p", 0)
        return gauss(H, g)

    def slopes(self, tensors):
        """(entry, batch element, key) -> derivative"""
        out = {}
        for b in range(self.batch):
            for k, (n, i) in enumerate((("x", 0), ("x", 1), ("y", 0))):
                p = tn.poly(ten_of(tensors[n]).arr().data[(b, i)])
                for name, key in self.keys():
                    d = nf.derive(p, lambda z, key=key: {(): 1} if z == key else None)
                    out[k, b, key] = nf.value(d, self.s.w) if d else 0.0
        return out

    def agree(self, tensors, tol=1e-7):
        for b in range(self.batch):
            want = self.minimizer(b, None)
            for k, (n, i) in enumerate((("x", 0), ("x", 1), ("y", 0))):
                v = nf.value(tn.poly(ten_of(tensors[n]).arr().data[(b, i)]), self.s.w)
                if abs(v - want[k]) > tol * (1 + abs(want[k])):
                    raise Wrong(f"entry {i} of {n} of batch element {b} is {v:.6g}, the minimizer {want[k]:.6g}")
        got = self.slopes(tensors)
        for (k, b, key), v in got.items():
            want = self.minimizer(b, key)[k].imag / 1e-30 if isinstance(self.minimizer(b, key)[k], complex) else 0.0
            if abs(v - want) > tol * (1 + abs(want)):
                raise Wrong(f"the gradient of solution entry {k} of batch element {b} with respect to {key[0]}{list(key[1:])} is {v:.6g} instead of {want:.6g}")


def key_of(v):
    (m, _), = tn.poly(v).items()
    return m[0][0]


# optimizer, arguments of the run, closed form reached: linear residuals (any values) or residuals that vanish at the given values
MODES = [("unroll", {}), ("truncated", {"backward_num_iterations": 1}), ("truncated", {"backward_num_iterations": 2}), ("implicit", {})]
SOLVERS = (None, "LUDenseSolver", "CholmodSparseSolver")


def reordered(a, r, loc):
    """values are returned under the names of the variables, whatever order the linear system has"""
    for order in (("x", "y"), ("y", "x")):
        for solver in SOLVERS:
            for mode, kw in (("unroll", {}), ("implicit", {})):
                def go():
                    w = World(a, "GaussNewton", solver=solver, max_iterations=3, order=order)
                    out = accepted("a run", lambda: w.s.do(w.layer, "forward", w.inputs(), {"backward_mode": mode, **kw}))
                    if sorted(out[0]) != ["x", "y"]:
                        raise Wrong(f"values are returned for {sorted(out[0])}")
                    for n in order:
                        if tuple(ten_of(out[0][n]).shape) != tuple(ten_of(w.vars[n]).shape):
                            raise Wrong(f"the value for {n} has shape {tuple(ten_of(out[0][n]).shape)} instead of {tuple(ten_of(w.vars[n]).shape)}")
                    w.agree(out[0])
                attempt(r, "values under their names", f"ordering {'-'.join(order)}, {solver or 'default solver'}, {mode}", loc, go)


def exact(a, r, loc, optimizer, mode, kw, solvers=SOLVERS):
    for solver in solvers:
        for what, opts in (("linear residuals", {}), ("linear residuals, shared matrix and weight", {"shared": ("m", "w")}),
                           ("vanishing residuals", {"bend": True}), ("vanishing residuals, shared matrix", {"bend": True, "shared": ("m", "q", "v")})):
            newton = optimizer == "GaussNewton"
            if not newton and not (mode == "implicit" and "vanishing" in what):
                continue        # damped steps reach the minimizer only in the limit
            for n, size in ((1, 1.0), (3, 1.0), (2, 0.5)):
                if mode == "implicit" and "linear" in what and n == 1:
                    continue        # the only step starts away from the solution
                if size != 1.0 and not (mode == "implicit" and "vanishing" in what):
                    continue

                def go():
                    w = World(a, optimizer, solver=solver, max_iterations=n, step_size=size, **opts)
                    out = accepted("a run", lambda: w.s.do(w.layer, "forward", w.inputs(), {"backward_mode": mode, **kw}))
                    w.agree(out[0])
                if mode == "truncated" and kw["backward_num_iterations"] > n:
                    continue
                attempt(r, "gradient of the solution", f"{optimizer}[{mode}{' %d' % kw['backward_num_iterations'] if kw else ''}, {what}, {n} iterations{', step size %g' % size if size != 1.0 else ''}{', ' + solver if solver else ''}]", loc, go)


# ------------------------------------------------------------------ direct loss minimization
class plain:
    """what autograd does around the methods of its functions"""

    def __init__(self, it):
        self.it = it

    def __enter__(self):
        tn.GRAD[0] = self.it.mode = False

    def __exit__(self, *e):
        tn.GRAD[0] = self.it.mode = True


DIRECT = (("linear residuals", {}), ("linear residuals, shared matrix and weight", {"shared": ("m", "w")}), ("vanishing residuals", {"bend": True}))


def direct(a, r, loc, n=None):
    """the gradient converges to the one of the solution as the perturbation gets small"""
    for what, opts in DIRECT if n is None else DIRECT[n:n + 1]:
        for leaves in (("m", "t", "w"), ("t",), ("w", "x", "m"), ("x", "y")):
            for eps in (1e-3, 1e-5, None):
                def go():
                    w = World(a, "GaussNewton", batch=2, leaves=leaves, **opts)
                    it = w.it
                    mode = {"backward_mode": "dlm", **({"dlm_epsilon": eps} if eps else {})}
                    for again in (False, True):
                        with plain(it):
                            out, _ = accepted("a run", lambda: w.s.do(w.layer, "forward", w.inputs(), mode))
                        for b in range(w.batch):
                            want = w.minimizer(b, None)
                            for k, (n, i) in enumerate((("x", 0), ("x", 1), ("y", 0))):
                                v = nf.value(tn.poly(ten_of(out[n]).arr().data[(b, i)]), w.s.w)
                                if abs(v - want[k]) > 1e-7 * (1 + abs(want[k])):
                                    raise Wrong(f"entry {i} of {n} of batch element {b} is {v:.6g}, the minimizer {want[k]:.6g}")
                        cls, ctx, args, outs = it.applied[-1]
                        seed = {n: w.s.tensor(f"g{n}{again}", tuple(ten_of(out[n]).shape)) for n in ("x", "y")}
                        grads = [seed[n] for n in out]
                        with plain(it):
                            res = accepted("the backward pass", lambda: it.call(it.getattr(cls, "backward"), [ctx, *grads, None], {}))
                        if len(res) != len(args):
                            raise Wrong(f"backward returns {len(res)} gradients for {len(args)} inputs")
                        tail = len(args) - len(leaves)
                        if any(x is not None for x in res[:tail]):
                            raise Wrong("backward returns a gradient for an input that needs none")
                        given = [n for n in w.inputs() if n in leaves]
                        for n, g in zip(given, res[tail:]):
                            compare(w, n, g, again, eps or 1e-2)
                attempt(r, "direct loss minimization", f"{what}, gradients of {', '.join(leaves)}, epsilon {eps or 'default'}", loc, go)


def compare(w, n, g, again, eps):
    t = w.tensors[n]
    if n in ("x", "y"):
        if g is not None and any(nf.value(tn.poly(v), w.s.w) for v in ten_of(g).arr().data.values()):
            raise Wrong(f"the starting value {n} has a gradient")
        return
    if g is None:
        raise Wrong(f"{n} has no gradient")
    if tuple(g.shape) != tuple(t.shape):
        raise Wrong(f"the gradient of {n} has shape {tuple(g.shape)} instead of {tuple(t.shape)}")
    got = {i: nf.value(tn.poly(v), w.s.w) for i, v in g.arr().data.items()}
    want = {}
    for i, v in t.arr().data.items():
        tot = 0.0
        for b in range(w.batch):
            m = w.minimizer(b, key_of(v))
            for k, (u, j) in enumerate((("x", 0), ("x", 1), ("y", 0))):
                tot += w.s.w[f"g{u}{again}", b, j] * (m[k].imag / 1e-30 if isinstance(m[k], complex) else 0.0)
        want[i] = tot
    scale = max(1.0, *map(abs, want.values()))
    for i, v in want.items():
        if not abs(got[i] - v) <= max(30 * eps, 1e-4) * scale:
            raise Wrong(f"the gradient of {n}{list(i)} is {got[i]:.6g}, the derivative of the minimizer gives {v:.6g}")


# ------------------------------------------------------------------ poses
def product(kind, p, q):
    """tensors of group elements as flat lists"""
    if kind == "SO2":
        return [p[0] * q[0] - p[1] * q[1], p[1] * q[0] + p[0] * q[1]]
    if kind == "SE2":
        x, y, c, s = p
        return [x + c * q[0] - s * q[1], y + s * q[0] + c * q[1], *product("SO2", [c, s], q[2:])]
    m = 3 if kind == "SO3" else 4
    P, Q = ([[u[i * m + j] if m == 4 else u[3 * i + j] for j in range(m)] for i in range(3)] for u in (p, q))
    out = []
    for i in range(3):
        for j in range(m):
            out.append(sum(P[i][k] * Q[k][j] for k in range(3)) + (P[i][3] if j == 3 else 0))
    return out


def tangents(kind, p):
    """derivatives of p exp(v) at v = 0"""
    if kind == "SO2":
        return [[-p[1], p[0]]]
    if kind == "SE2":
        c, s = p[2:]
        return [[c, s, 0, 0], [-s, c, 0, 0], [0, 0, -s, c]]
    m = 3 if kind == "SO3" else 4
    R = [[p[i * m + j] for j in range(3)] for i in range(3)]
    out = []
    for a in range(3 if m == 4 else 0):
        out.append([R[i][a] if j == 3 else 0.0 for i in range(3) for j in range(4)])
    for a in range(3):
        b, c = (a + 1) % 3, (a + 2) % 3
        hat = [[0.0] * 3 for _ in range(3)]
        hat[c][b], hat[b][c] = 1.0, -1.0
        out.append([sum(R[i][k] * hat[k][j] for k in range(3)) if j < 3 else 0.0 for i in range(3) for j in range(m)])
    return out


def poses(a, r, loc, kind, mode, kw, chain, optimizer="GaussNewton"):
    """x1 is at p, and x2 at p q: moving p and q moves the solution along"""
    def go():
        s = C.Setup(a, hooks={"warnings.warn": lambda it, *x, **k: None})
        it = s.it
        it.grads = True
        p, x1 = s.var("p", kind, 1), s.var("x1", kind, 1)
        q, x2 = (s.var("q", kind, 1), s.var("x2", kind, 1)) if chain else (None, None)
        idx = list(ten_of(p).arr().data)
        put = lambda n, v: s.w.update({(n, *i): z for i, z in zip(idx, v)})
        val = {"p": [s.w[("p", *i)] for i in idx]}
        put("x1", val["p"])
        want = {"x1": val["p"]}
        if chain:
            val["q"] = [s.w[("q", *i)] for i in idx]
            want["x2"] = product(kind, val["p"], val["q"])
            put("x2", want["x2"])
        objective = s.new("Objective", dtype=it.ext("torch.float64"))
        wt = lambda n: it.call(Cls(cls_of(it, "ScaleCostWeight")), [s.aux(n, (1, 1), lo=0.5)], {})
        s.do(objective, "add", s.new("Local", x1, p, wt("wp"), name="prior"))
        if chain:
            s.do(objective, "add", s.new("Between", x1, x2, q, wt("wq"), name="link"))
        opt = s.new(optimizer, objective, max_iterations=2)
        layer = s.new("TheseusLayer", opt, vectorize=False)
        given = {n: ten_of(v) for n, v in (("p", p), ("x1", x1), ("q", q), ("x2", x2)) if v is not None}
        base = dict(s.w)
        out, _ = accepted("a run", lambda: s.do(layer, "forward", dict(given), {"backward_mode": mode, **kw}))
        moves = [("p", v, {"x1": v, **({"x2": through(kind, val["p"], v, val["q"])} if chain else {})}) for v in tangents(kind, val["p"])]
        if chain:
            moves += [("q", v, {"x1": [0.0] * len(v), "x2": product_linear(kind, val["p"], v)}) for v in tangents(kind, val["q"])]
        for n, x in want.items():
            e = ten_of(out[n]).arr().data
            for j, i in enumerate(idx):
                v = nf.value(tn.poly(e[i]), dict(base))
                if abs(v - x[j]) > 1e-6:
                    raise Wrong(f"{n} moves away from the solution (entry {i} is {v:.6g} instead of {x[j]:.6g})")
            for src in ("p", "q") if chain else ("p",):
                D = {}
                for j, i in enumerate(idx):
                    f = tn.poly(e[i])
                    for k, i2 in enumerate(idx):
                        d = nf.derive(f, lambda z, key=(src, *i2): {(): 1} if z == key else None)
                        D[j, k] = nf.value(d, dict(base)) if d else 0.0
                for name, v, res in moves:
                    if name != src:
                        continue
                    for j, i in enumerate(idx):
                        g = sum(D[j, k] * v[k] for k in range(len(v)))
                        if abs(g - res[n][j]) > 1e-5 * (1 + abs(res[n][j])):
                            raise Wrong(f"moving {src} moves entry {i[1:]} of {n} by {g:.6g} instead of {res[n][j]:.6g}")
    attempt(r, "gradient of the solution", f"{optimizer}[{mode}, {kind} {'chain' if chain else 'prior'}]", loc, go)


def product_linear(kind, p, v):
    """p times a tangent (a difference of elements): translations are rotated, not moved"""
    zero = {"SO2": lambda: list(p), "SE2": lambda: [0, 0, *p[2:]], "SO3": lambda: list(p), "SE3": lambda: [0 if k % 4 == 3 else p[k] for k in range(12)]}[kind]()
    return product(kind, zero, v)


def through(kind, p, v, q):
    """derivative of p q along the tangent v of p"""
    h = 1.0
    return [(x - y) / h for x, y in zip(product(kind, [u + h * d for u, d in zip(p, v)], q), product(kind, p, q))]
