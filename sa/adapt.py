"""Levenberg-Marquardt and Dogleg runs on a client's nonlinear cost function, followed symbolically; every state the runs leave behind is compared
with the documented update rules (damped normal equations, dogleg path, gain ratio, per batch element)."""
import math
from . import cases as C
from . import normal as nf
from . import system
from . import tensor as tn
from .interp import Cls, Native
from .jac import Wrong, attempt, ten_of
from .state import accepted, refused

CURVE = '''
import torch


class Curve(CostFunction):
    def __init__(self, x, t, m, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.x, self.t, self.m = x, t, m
        self.register_optim_vars(["x"])
        self.register_aux_vars(["t", "m"])

    def error(self):
        d = self.x.tensor - self.t.tensor
        m = self.m.tensor
        a, b = d[:, 0], d[:, 1]
        return torch.stack([m[:, 0] * a + m[:, 1] * b + m[:, 4] * a * a, m[:, 2] * a + m[:, 3] * b + m[:, 5] * b * b], dim=1)

    def jacobians(self):
        d = self.x.tensor - self.t.tensor
        m = self.m.tensor
        top = torch.stack([m[:, 0] + 2 * m[:, 4] * d[:, 0], m[:, 1]], dim=1)
        low = torch.stack([m[:, 2], m[:, 3] + 2 * m[:, 5] * d[:, 1]], dim=1)
        return [torch.stack([top, low], dim=1)], self.error()

    def dim(self):
        return 2

    def _copy_impl(self, new_name=None):
        return Curve(self.x.copy(), self.t.copy(), self.m.copy(), self.weight.copy(), name=new_name)
'''
# per batch element: start, target, matrix and curvature
MILD = [((0.4, -0.3), (0.1, 0.2), (1.1, 0.3, -0.2, 0.9, 0.1, -0.05)), ((2.0, 1.0), (-0.2, 0.4), (0.7, -0.4, 0.5, 1.2, 0.2, 0.1)),
        ((-0.6, 0.9), (0.3, -0.1), (0.9, 0.2, 0.1, 0.5, -0.3, 0.2))]
# slopes close to zero: steps that overshoot
HARD = [((0.55, 0.6), (0.1, 0.2), (1.0, 0.1, 0.1, 1.0, -1.0, -1.1)), ((0.27, 0.1), (-0.2, 0.4), (1.0, 0.05, 0.0, 1.0, -1.0, 1.5)),
        ((-0.6, 0.9), (0.3, -0.1), (0.9, 0.2, 0.1, 0.5, -0.3, 0.2))]
WILD = [((0.47, 0.1), (0.0, 0.0), (1.0, 0.02, 0.03, 1.0, -1.0, 0.4)), ((0.1, 0.48), (0.0, 0.0), (1.0, -0.04, 0.05, 1.0, 0.3, -1.0)),
        ((-0.51, 0.2), (0.0, 0.0), (1.0, 0.0, 0.02, 1.0, 1.0, 0.5))]
TINY = [(x, t, tuple(1e-4 * v for v in m)) for x, t, m in MILD]
REST = [((0.5, 0.25), (0.5, 0.25), (1.1, 0.3, -0.2, 0.9, 0.1, -0.05)), MILD[1], HARD[2]]
STILL = [((0.5, 0.25), (0.5, 0.25), (1.1, 0.3, -0.2, 0.9, 0.1, -0.05)), ((-1.0, 2.0), (-1.0, 2.0), (0.7, -0.4, 0.5, 1.2, 0.2, 0.1))]


# ------------------------------------------------------------------ the documented rules
def residual(x, t, m):
    a, b = x[0] - t[0], x[1] - t[1]
    return (m[0] * a + m[1] * b + m[4] * a * a, m[2] * a + m[3] * b + m[5] * b * b)


def normal(x, t, m, w):
    a, b = x[0] - t[0], x[1] - t[1]
    J = ((w * (m[0] + 2 * m[4] * a), w * m[1]), (w * m[2], w * (m[3] + 2 * m[5] * b)))
    e = [w * v for v in residual(x, t, m)]
    H = [[sum(J[k][i] * J[k][j] for k in (0, 1)) for j in (0, 1)] for i in (0, 1)]
    g = [-sum(J[k][i] * e[k] for k in (0, 1)) for i in (0, 1)]
    return J, H, g


def solve(H, g):
    det = H[0][0] * H[1][1] - H[0][1] * H[1][0]
    return [(g[0] * H[1][1] - g[1] * H[0][1]) / det, (H[0][0] * g[1] - H[1][0] * g[0]) / det]


def cost(x, t, m, w):
    return sum((w * v) ** 2 for v in residual(x, t, m)) / 2


def ratio(x, y):
    """x / y with the conventions of floating point numbers"""
    return x / y if y else math.nan if x == 0 or x != x else math.copysign(math.inf, x)


def dot(u, v):
    return u[0] * v[0] + u[1] * v[1]


class Levenberg:
    tol = 1e-7

    def __init__(self, kw):
        self.kw = kw
        self.start = kw.get("damping", 1e-3)

    def step(self, J, H, g, mem):
        lam = mem
        if self.kw.get("ellipsoidal_damping"):
            D = [lam * H[i][i] + self.kw.get("damping_eps", 1e-8) for i in (0, 1)]
        else:
            D = [lam, lam]
        return solve([[H[0][0] + D[0], H[0][1]], [H[1][0], H[1][1] + D[1]]], g)

    def judge(self, J, H, g, d, old, new, mem):
        kw = self.kw
        if not kw.get("adaptive_damping"):
            return False, mem, ""
        D = [mem * H[i][i] if kw.get("ellipsoidal_damping") else mem for i in (0, 1)]
        den = sum(d[i] * (D[i] * d[i] + g[i]) for i in (0, 1)) / 2
        rho = ratio(old - new, den)
        bad = rho <= kw.get("damping_accept", 0.1)
        mem = mem * kw.get("up_damping_ratio", 11.0) if bad else mem / kw.get("down_damping_ratio", 9.0)
        return bad, min(max(mem, 1e-7), 1e7), "reject" if bad else "accept"


class Region:
    tol = 2e-4      # the guards of its divisors

    def __init__(self, kw):
        self.kw = kw
        self.start = kw["trust_region_init"]

    def step(self, J, H, g, tr):
        gn = solve(H, g)
        if dot(gn, gn) < tr * tr:
            return gn
        Jg = [dot(J[0], g), dot(J[1], g)]
        n = dot(g, g)
        c = [v * ratio(n, dot(Jg, Jg)) for v in g]
        if dot(c, c) > tr * tr:
            s = tr / math.sqrt(dot(c, c))
            return [s * v for v in c]
        d = [gn[i] - c[i] for i in (0, 1)]
        A, B, Q = dot(d, d), 2 * dot(c, d), dot(c, c) - tr * tr
        tau = min((-B + math.sqrt(B * B - 4 * A * Q)) / (2 * A), 1.0)
        return [c[i] + tau * d[i] for i in (0, 1)]

    def judge(self, J, H, g, d, old, new, tr):
        kw = self.kw
        Jd = [dot(J[0], d), dot(J[1], d)]
        model = -dot(d, g) + dot(Jd, Jd) / 2
        rho = ratio(old - new, -model)
        how = ""
        if rho < kw.get("shrink_threshold", 0.25):
            tr, how = tr * kw.get("shrink_ratio", 0.25), "shrink"
        elif rho > kw.get("expand_threshold", 0.75):
            tr, how = tr * kw.get("expand_ratio", 2.0), "expand"
        bad = rho < kw.get("accept_threshold", 0.0)
        return bad, min(max(tr, kw.get("min_trust_region", 1e-5)), kw.get("max_trust_region", 1e5)), how + (" reject" if bad else "")


def reference(rule, elements, w, n, scale, limit=3):
    """state of every batch element after every iteration"""
    xs = [list(e[0]) for e in elements]
    mem = [rule.start] * len(elements)
    out, log, tries, done = [], [], 0, 0
    while done < n:
        new, refused, notes = [], [], []
        for b, (_, t, m) in enumerate(elements):
            J, H, g = normal(xs[b], t, m, w)
            d = [scale * v for v in rule.step(J, H, g, mem[b])]
            y = [xs[b][i] + d[i] for i in (0, 1)]
            bad, mem[b], how = rule.judge(J, H, g, d, cost(xs[b], t, m, w), cost(y, t, m, w), mem[b])
            new.append(xs[b] if bad else y)
            refused.append(bad)
            notes.append(how)
        log.append(notes)
        if all(refused):
            tries += 1
            if tries < limit:
                continue
        tries = 0
        xs = new
        out.append([list(x) for x in xs])
        done += 1
    return out, log


# ------------------------------------------------------------------ the runs
class Adaptive:
    def __init__(self, a, cls, elements, n=4, solver=None, hooks=None, **params):
        s = self.s = C.Setup(a, hooks={"warnings.warn": lambda it, *x, **k: None, **(hooks or {})})
        it = self.it = s.it
        self.n, self.elements, self.params = n, elements, params
        client = it.define(CURVE, "theseus.core.cost_function")
        B = len(elements)
        self.objective = s.new("Objective", dtype=it.ext("torch.float64"))
        self.x, self.t, self.m = s.var("x", "vec2", B), s.aux("t", (B, 2)), s.aux("m", (B, 6))
        wt = s.aux("w", (1, 1))
        self.w = s.w[("w", 0, 0)] = 1.3
        for b, e in enumerate(elements):
            for name, vs in zip("xtm", e):
                s.w.update({(name, b, i): v for i, v in enumerate(vs)})
        s.do(self.objective, "add", it.call(client["Curve"], [self.x, self.t, self.m, it.call(Cls(C.g.cls_of(it, "ScaleCostWeight")), [wt], {})], {"name": "curve"}))
        s.do(self.objective, "update", {})
        kw = {"linear_solver_cls": Cls(C.g.cls_of(it, solver))} if solver else {}
        self.scale = params.get("step_size", 1.0)
        self.opt = s.new(cls, self.objective, max_iterations=n, abs_err_tolerance=0.0, rel_err_tolerance=0.0, **params, **kw)

    def values(self):
        t = ten_of(self.x)
        e = t.arr().data
        return [[nf.value(tn.poly(e[(b, i)]), self.s.w) for i in (0, 1)] for b in range(len(self.elements))]

    def run(self, rule, kw, what):
        want, log = reference(rule, self.elements, self.w, self.n, self.scale)
        got = []
        accepted("a run", lambda: self.s.do(self.opt, "optimize", end_iter_callback=Native(lambda *x: got.append(self.values())), **kw))
        if len(got) != len(want):
            raise Wrong(f"{what}: {len(got)} iterations reported, {len(want)} expected")
        got.append(self.values())
        for k, (g_, w_) in enumerate(zip(got, [*want, want[-1]])):
            for b in range(len(self.elements)):
                for i in (0, 1):
                    u, v = g_[b][i], w_[b][i]
                    if not abs(u - v) <= rule.tol * max(1, abs(v)):
                        raise Wrong(f"{what}: after iteration {k + 1} entry {i} of batch element {b} is {u:.6g}, the documented update gives {v:.6g}")
        return log


LM = [
    ("default damping", MILD, {}, {}),
    ("fixed damping", MILD, {"damping": 0.3}, {}),
    ("fixed damping, short steps", MILD, {"damping": 0.05}, {"step_size": 0.6}),
    ("ellipsoidal damping", MILD, {"damping": 0.4, "ellipsoidal_damping": True, "damping_eps": 0.02}, {}),
    ("adaptive damping", HARD, {"damping": 0.01, "adaptive_damping": True}, {}),
    ("adaptive damping, own ratios", HARD, {"damping": 0.02, "adaptive_damping": True, "down_damping_ratio": 3.0, "up_damping_ratio": 5.0, "damping_accept": 0.3}, {}),
    ("adaptive ellipsoidal damping", HARD, {"damping": 0.05, "adaptive_damping": True, "ellipsoidal_damping": True}, {}),
    ("adaptive damping, all refused at first", WILD, {"damping": 1e-4, "adaptive_damping": True}, {}),
    ("adaptive damping, short steps", HARD, {"damping": 0.05, "adaptive_damping": True}, {"step_size": 0.7}),
    ("adaptive damping at the bounds", MILD, {"damping": 3e-7, "adaptive_damping": True, "down_damping_ratio": 100.0}, {}),
    ("adaptive damping beyond the bounds", WILD, {"damping": 1e-4, "adaptive_damping": True, "up_damping_ratio": 1e14, "down_damping_ratio": 1e5}, {}),
    ("adaptive damping, strict acceptance", MILD, {"damping": 3.0, "adaptive_damping": True, "damping_accept": 0.9}, {}),
    ("adaptive ellipsoidal damping, strict acceptance", MILD, {"damping": 3.0, "adaptive_damping": True, "ellipsoidal_damping": True, "damping_accept": 1.05}, {}),
    ("adaptive damping, far apart", HARD, {"damping": 0.02, "adaptive_damping": True, "up_damping_ratio": 1e4, "down_damping_ratio": 10.0}, {}),
    ("adaptive ellipsoidal damping, far apart", HARD, {"damping": 0.02, "adaptive_damping": True, "ellipsoidal_damping": True, "up_damping_ratio": 1e4, "down_damping_ratio": 10.0}, {}),
    ("ellipsoidal damping, nothing added", TINY, {"damping": 0.4, "ellipsoidal_damping": True, "damping_eps": 0.0}, {}),
    ("ellipsoidal damping, weak residuals", TINY, {"damping": 0.4, "ellipsoidal_damping": True}, {}),
    ("damping, weak residuals", TINY, {"damping": 1e-8}, {}),
    ("adaptive damping at rest", REST, {"damping": 0.1, "adaptive_damping": True}, {}),
    ("adaptive damping, every element at rest", STILL, {"damping": 0.1, "adaptive_damping": True}, {}),
]
TR = [
    ("wide region", MILD, {"trust_region_init": 50.0}, {}),
    ("narrow region", MILD, {"trust_region_init": 0.2}, {}),
    ("region crossing the dogleg path", MILD, {"trust_region_init": 1.1}, {}),
    ("curved", HARD, {"trust_region_init": 30.0}, {}),
    ("own thresholds", HARD, {"trust_region_init": 0.9, "accept_threshold": 0.1, "shrink_threshold": 0.6, "expand_threshold": 0.9, "shrink_ratio": 0.5, "expand_ratio": 3.0}, {}),
    ("refused at first", WILD, {"trust_region_init": 40.0, "accept_threshold": 0.2}, {}),
    ("bounded region", MILD, {"trust_region_init": 0.3, "min_trust_region": 0.25, "max_trust_region": 0.4}, {}),
    ("region bounded from below", WILD, {"trust_region_init": 3.0, "accept_threshold": 0.1, "shrink_ratio": 0.01, "min_trust_region": 0.3}, {}),
    ("short steps", HARD, {"trust_region_init": 3.0, "expand_threshold": 0.9, "accept_threshold": 0.2}, {"step_size": 0.8}),
    ("at rest", REST, {"trust_region_init": 0.4}, {}),
    ("every element at rest", STILL, {"trust_region_init": 0.4}, {}),
]
TALK = []


def runs(a, r, loc, cls, table, solvers):
    rule = Levenberg if cls == "LevenbergMarquardt" else Region
    for name, elements, kw, params in table:
        for solver in solvers:
            if solver and "Sparse" in solver and (kw.get("adaptive_damping") or kw.get("ellipsoidal_damping")):
                continue

            def go():
                w = Adaptive(a, cls, elements, solver=solver, hooks=system.hooks() if solver and "Sparse" in solver else None, **params)
                TALK.append((cls, name, w.run(rule(kw), kw, "first run")))
                # a second run starts from the requested values again
                w.s.do(w.x, "update", w.s.tensor("x'", (len(elements), 2)))
                w.elements = [(tuple(v + 0.07 for v in e[0]), *e[1:]) for e in elements]
                for b, e in enumerate(w.elements):
                    w.s.w.update({("x'", b, i): v for i, v in enumerate(e[0])})
                w.run(rule(kw), kw, "second run")
            attempt(r, "documented update", f"{cls}: {name}{', ' + solver if solver else ''}", loc, go)


# ------------------------------------------------------------------ refusals and the solver's own reset
UNSUPPORTED = [{"adaptive_damping": True}, {"ellipsoidal_damping": True}, {"damping_eps": 0.01}]
INVALID = [{"shrink_ratio": 0.0}, {"shrink_ratio": -0.5}, {"shrink_ratio": 1.5}, {"expand_ratio": 0.9},
           {"accept_threshold": 0.25}, {"accept_threshold": 0.4}, {"shrink_threshold": 0.75}, {"shrink_threshold": 0.8}]
VALID = [{"shrink_ratio": 1.0}, {"expand_ratio": 1.0}, {"accept_threshold": 0.24}, {"shrink_threshold": 0.74}]
# a solver which takes a scalar damping and nothing else
PLAIN = '''
class Plain(DenseSolver):
    def _apply_damping(self, matrix, damping, ellipsoidal=True, eps=1e-8):
        return matrix

    def solve(self, damping=None, **kwargs):
        return self.linearization.Atb.squeeze(2)

    def _solve_sytem(self, Atb, AtA):
        return Atb.squeeze(2)
'''
RESETS = '''
class Counting(LUDenseSolver):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.seen = []

    def reset(self, **kwargs):
        self.seen.append(kwargs)
        super().reset(**kwargs)
'''


def refusals(a, r, loc, cls):
    """modes the linear solver cannot honour and parameters without meaning are refused, the others accepted"""
    if cls == "LevenbergMarquardt":
        table = [(f"{next(iter(kw))} with a solver without such damping", "Plain", kw, ("NotImplementedError", "ValueError", "RuntimeError")) for kw in UNSUPPORTED]
        table += [("fixed damping with a solver without other damping", "Plain", {"damping": 0.2}, None)]
        table += [(f"{next(iter(kw))} with {s}", s, kw, None) for kw in UNSUPPORTED for s in ("CholeskyDenseSolver", "LUDenseSolver")]
    else:
        table = [(f"{kw}", None, kw, ("ValueError",)) for kw in INVALID] + [(f"{kw}", None, kw, None) for kw in VALID]
    for name, solver, kw, kinds in table:
        def go():
            w = Adaptive(a, cls, MILD, n=1, solver=None if solver == "Plain" else solver)
            if solver == "Plain":
                plain = w.it.define(PLAIN, "theseus.optimizer.linear.dense_solver")["Plain"]
                w.opt = w.s.new(cls, w.objective, max_iterations=1, linear_solver_cls=plain)
            run = lambda: w.s.do(w.opt, "optimize", **kw)
            accepted(f"a run with {name}", run) if kinds is None else refused(None, f"a run with {name}", run, kinds)
        attempt(r, "unsupported parameters refused", f"{cls}: {name}", loc, go)


def solver_reset(a, r, loc, cls):
    def go():
        w = Adaptive(a, cls, MILD, n=1)
        it, s = w.it, w.s
        client = it.define(RESETS, "theseus.optimizer.linear.dense_solver")
        opt = s.new(cls, w.objective, max_iterations=1, linear_solver_cls=client["Counting"])
        for n in (1, 2):
            accepted("a run", lambda: s.do(opt, "optimize", marker=n))
            seen = it.getattr(it.getattr(opt, "linear_solver"), "seen")
            if len(seen) < n:
                raise Wrong(f"run {n} does not reset the linear solver")
            if seen[-1].get("marker") != n:
                raise Wrong("the linear solver is reset without the arguments of the run")
    attempt(r, "linear solver reset", cls, loc, go)
