"""Vectorized objectives next to plain ones. Two objectives hold the same cost functions, one of them is vectorized: after every step of a history
(updates, masks, temporary evaluations, gradient modes, retractions, changes of structure) both must hand out the same error and the same linear system."""
from . import cases as C
from . import normal as nf
from . import system as sy
from . import tensor as tn
from .geom import cls_of
from .interp import Cls, Obj, Raised
from .comp import Malformed, Unknown
from .jac import Wrong, attempt, ten_of, entries
from .state import BLOCKED

BOTH = '''
class Both(CostFunction):
    """f (x - y) + shift; keeps options that are no variables"""

    def __init__(self, x, y, f, shift, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.x, self.y, self.f, self.shift = x, y, f, shift
        self.register_optim_vars(["x", "y"])
        self.register_aux_vars(["f", "shift"])

    def error(self):
        return self.f.tensor * (self.x.tensor - self.y.tensor) * self.x.tensor + self.shift.tensor

    def jacobians(self):
        f, x, y = self.f.tensor, self.x.tensor, self.y.tensor
        return [torch.diag_embed(f * (2 * x - y)), torch.diag_embed(-f * x + 0 * y)], self.error()

    def dim(self):
        return self.x.tensor.shape[1]

    def _copy_impl(self, new_name=None):
        return Both(self.x.copy(), self.y.copy(), self.f.copy(), self.shift.copy(), self.weight.copy(), name=new_name)


def pulled(optim_vars, aux_vars):
    return optim_vars[0].tensor * aux_vars[0].tensor


def pushed(optim_vars, aux_vars):
    return optim_vars[0].tensor * optim_vars[0].tensor - aux_vars[0].tensor


def made(gain):
    def error(optim_vars, aux_vars):
        return gain * optim_vars[0].tensor - aux_vars[0].tensor
    return error
'''


class Twins:
    def __init__(self, a, build, sizes=None, hooks=None):
        from checks.C15 import hooks as automatic
        box = {"options": []}
        s = self.s = box["s"] = C.Setup(a, hooks={"warnings.warn": lambda it, *x, **k: None, **automatic(box), **(hooks or {})}, sizes=sizes)
        s.marked, s.inside, s.client = [], [], Obj(None, {"calls": []})
        it = self.it = s.it
        it.grads, it.budget = True, 4 * it.budget
        self.lib = it.define(BOTH, "theseus.core.cost_function")
        self.lib.update(it.define(BLOCKED, "theseus.core.cost_weight"))
        self.costs = build(self)
        self.plain, self.fast = (s.new("Objective", dtype=it.ext("torch.float64")) for _ in range(2))
        for c in self.costs:
            s.do(self.plain, "add", c)
            s.do(self.fast, "add", c)
        self.n = 0
        self.dead = False

    # -------------------------------------------------- building blocks
    def vec(self, n, d=2):
        return self.s.vars[n] if n in self.s.vars else self.s.var(n, f"vec{d}")

    def pose(self, n, k="SE2"):
        return self.s.vars[n] if n in self.s.vars else self.s.var(n, k)

    def aux(self, n, shape, **kw):
        return self.s.vars[n] if n in self.s.vars else self.s.aux(n, shape, **kw)

    def scale(self, n, b=1):
        if n not in self.s.__dict__.setdefault("weights", {}):
            self.s.weights[n] = self.s.new("ScaleCostWeight", self.aux(n, (b, 1), lo=0.5))
        return self.s.weights[n]

    def diagonal(self, n, d=2, b=1):
        if n not in self.s.__dict__.setdefault("weights", {}):
            self.s.weights[n] = self.s.new("DiagonalCostWeight", self.aux(n, (b, d), lo=0.5))
        return self.s.weights[n]

    def both(self, x, y, f, shift, w, name):
        return self.it.call(self.lib["Both"], [x, y, f, shift, w], {"name": name})

    def target(self, n, d=2, b=2):
        """auxiliary variable of vector type"""
        return self.s.vars[n] if n in self.s.vars else self.s.var(n, f"vec{d}", b)

    # -------------------------------------------------- observations
    def vectorize(self):
        self.s.do(self.fast, "update", {})
        self.s.new("Vectorize", self.fast)

    def system(self, o):
        """the linear system, with the gradient mode of the moment"""
        lin = self.s.new("DenseLinearization", o)
        self.s.do(lin, "linearize")
        return ten_of(self.it.getattr(lin, "A")), ten_of(self.it.getattr(lin, "b"))

    def observe(self, what):
        s = self.s
        try:
            s.do(self.plain, "update", {})
            want = ten_of(s.do(self.plain, "error")), *self.system(self.plain)
        except (Malformed, Raised) as e:
            raise Unknown(f"the plain objective does not evaluate: {e}")
        A, b = self.system(self.fast)
        got = ten_of(s.do(self.fast, "error")), A, b
        for n, x, y in zip(("error", "matrix", "right-hand side"), got, want):
            if tuple(x.shape) != tuple(y.shape):
                raise Wrong(f"{what}: the {n} has shape {tuple(x.shape)} instead of {tuple(y.shape)}")
            if x.dtype != y.dtype:
                raise Wrong(f"{what}: the {n} has dtype {x.dtype} instead of {y.dtype}")
            e, f = entries(x), entries(y)
            for i in f:
                p, q = tn.poly(e[i]), tn.poly(f[i])
                if p != q and not self.close(p, q):
                    raise Wrong(f"{what}: entry {list(i)} of the {n} is not the one of the plain objective")

    def close(self, p, q):
        u, v = (nf.value(x, dict(self.s.w)) if x else 0.0 for x in (p, q))
        if abs(u - v) > 1e-9 * (1 + abs(v)):
            return False
        return not self.it.mode or self.slopes(p) == self.slopes(q)

    def slopes(self, p):
        """symbols that the gradient of a form reaches (cut forms do not depend on any)"""
        out = set()
        for k in self.s.w:
            if isinstance(k, tuple):
                d = nf.derive(p, lambda z, k=k: {(): 1} if z == k else None) if p else None
                if d and abs(nf.value(d, dict(self.s.w))) > 1e-12:
                    out.add(k)
        return out

    # -------------------------------------------------- steps
    def fresh(self, n, batch=None):
        self.n += 1
        v = self.s.vars[n]
        t = ten_of(v)
        kind = self.it.getattr(v, "__class__").name if hasattr(self.it.getattr(v, "__class__"), "name") else None
        shape = (batch or t.shape[0], *t.shape[1:])
        if kind in C.SP:
            return self.s.group(f"{n}~{self.n}", kind, shape[0])
        return self.s.tensor(f"{n}~{self.n}", shape, lo=0.5)

    def update(self, *names, **kw):
        self.s.do(self.fast, "update", {n: self.fresh(n) for n in names}, **kw)

    def grad(self, on):
        tn.GRAD[0] = self.it.mode = on


# ------------------------------------------------------------------ structures
def springs(w):
    x, y, z, u = (w.vec(n) for n in "xyzu")
    f, g, s = w.aux("f", (2, 1)), w.aux("g", (2, 1)), w.aux("s", (2, 2))
    return [w.both(x, y, f, s, w.scale("w"), "a"), w.both(z, u, g, s, w.scale("v"), "b"), w.both(y, x, f, w.aux("r", (2, 2)), w.scale("w"), "c")]


def shared(w):
    x, y, z = (w.vec(n) for n in "xyz")
    f, s = w.aux("f", (2, 1)), w.aux("s", (2, 2))
    return [w.both(x, y, f, s, w.scale("w", 2), "a"), w.both(z, x, f, s, w.scale("w", 2), "b"), w.both(z, y, f, s, w.scale("w", 2), "c")]


def repeated(w):
    x, y, z = (w.vec(n) for n in "xyz")
    f, s = w.aux("f", (2, 2)), w.aux("s", (2, 2))
    return [w.both(x, z, f, s, w.scale("w"), "a"), w.both(y, z, s, f, w.scale("w"), "b"), w.both(z, x, s, f, w.scale("w"), "c")]


def sizes(w):
    x, y, p, q = w.vec("x"), w.vec("y"), w.vec("p", 3), w.vec("q", 3)
    f = w.aux("f", (2, 1))
    return [w.both(x, y, f, w.aux("s", (2, 2)), w.diagonal("w"), "a"), w.both(p, q, f, w.aux("r", (2, 3)), w.diagonal("v", 3), "b"),
            w.both(y, x, f, w.aux("t", (2, 2)), w.diagonal("k"), "c"), w.both(q, p, w.aux("g", (2, 3)), w.aux("r", (2, 3)), w.diagonal("v", 3), "d"),
            w.both(y, x, w.aux("h", (2, 1)), w.aux("t", (2, 2)), w.scale("m"), "e")]


def mixed(w):
    """classes and weights in turns"""
    x, y = w.vec("x"), w.vec("y")
    f, s = w.aux("f", (2, 1)), w.aux("s", (2, 2))
    return [w.both(x, y, f, s, w.scale("w"), "a"), w.s.new("Local", y, w.target("t"), w.scale("v"), name="b"), w.both(y, x, f, s, w.scale("v"), "c"),
            w.s.new("Local", x, w.target("k"), w.scale("w"), name="d"), w.both(y, x, f, s, w.diagonal("m"), "e"),
            w.s.new("Local", x, w.target("t"), w.diagonal("m"), name="g")]


def poses(w):
    x, y, z = (w.pose(n) for n in "xyz")
    m, k = (w.pose(n) for n in "mk")
    return [w.s.new("Between", x, y, m, w.scale("w"), name="a"), w.s.new("Local", x, w.pose("t"), w.diagonal("d", 3), name="b"),
            w.s.new("Between", y, z, k, w.scale("w"), name="c"), w.s.new("Between", z, x, m, w.diagonal("d", 3), name="e"),
            w.s.new("Local", z, w.pose("t"), w.diagonal("h", 3), name="f")]


def robust(w):
    x, y = w.vec("x"), w.vec("y")
    r, q = w.aux("r", (1, 1)), w.aux("q", (1, 1))
    c = [w.s.new("Local", x, w.target("t"), w.scale("w"), name="d0"), w.s.new("Local", y, w.target("k"), w.scale("v"), name="d1"),
         w.s.new("Local", y, w.target("t"), w.scale("v"), name="d2"), w.s.new("Local", x, w.target("k"), w.scale("w"), name="d3"),
         w.s.new("Local", x, w.target("k"), w.scale("v"), name="d4")]
    cl = lambda n: Cls(cls_of(w.it, n))
    R = lambda k, loss, rad, n, **kw: w.s.new("RobustCostFunction", c[k], cl(loss), rad, name=n, **kw)
    return [R(0, "HuberLoss", r, "a"), R(1, "HuberLoss", r, "b"), R(2, "WelschLoss", r, "c"), R(3, "HuberLoss", q, "d"), R(4, "HuberLoss", r, "e", flatten_dims=True)]


def motion(w):
    P = [(w.vec(f"p{i}"), w.vec(f"v{i}")) for i in range(3)]
    dt = w.aux("dt", (1, 1), lo=0.3)
    q = w.s.tensor("Qc", (1, 2, 2))
    w.s.operands["Qc"] = (None, q, lambda b, seed: {("Qc", b, i, j): (1.5, 0.2, 0.2, 1.1)[2 * i + j] for i in range(2) for j in range(2)})
    w.s.w.update(w.s.operands["Qc"][2](0, 0))
    gp = w.s.new("GPCostWeight", q, dt)
    return [w.s.new("GPMotionModel", *P[0], *P[1], dt, gp, name="a"), w.s.new("GPMotionModel", *P[1], *P[2], dt, gp, name="b"),
            w.s.new("DoubleIntegrator", *P[0], *P[2], dt, w.scale("w"), name="c"), w.s.new("Local", P[0][0], w.target("t"), w.scale("w"), name="d")]


def automatic(w):
    x, y = w.vec("x"), w.vec("y")
    f, g = w.aux("f", (2, 2)), w.aux("g", (2, 2))
    A = lambda fn, v, k, wt, n: w.s.new("AutoDiffCostFunction", [v], w.lib[fn], 2, aux_vars=[k], cost_weight=wt, name=n, autograd_mode="dense")
    return [A("pulled", x, f, w.scale("w"), "a"), A("pushed", x, g, w.scale("w"), "b"), A("pulled", y, g, w.scale("w"), "c"), A("pulled", y, f, w.scale("v"), "d"),
            A("pushed", y, g, w.scale("v"), "e")]


def functions(w):
    """error functions of one name, from one factory"""
    x, y = w.vec("x"), w.vec("y")
    f, g = w.aux("f", (2, 2)), w.aux("g", (2, 2))
    two, three = (w.it.call(w.lib["made"], [k], {}) for k in (2.0, 3.0))
    A = lambda fn, v, k, n: w.s.new("AutoDiffCostFunction", [v], fn, 2, aux_vars=[k], cost_weight=w.scale("w"), name=n, autograd_mode="dense")
    return [A(two, x, f, "a"), A(three, x, f, "b"), A(two, y, f, "c"), A(three, y, g, "d")]


STRUCTURES = {"springs": springs, "shared variables": shared, "repeated variables": repeated, "sizes": sizes, "classes": mixed, "poses": poses, "robust": robust, "motion": motion,
              "automatic": automatic, "functions": functions}
SIZES = {"springs": [{"f": 1}, {"s": 1}, {"w": 2, "v": 2}, {"x": 1, "f": 1}, {"f": 1, "s": 1, "g": 1, "r": 1}, {n: 1 for n in "xyzufgsr"}, {n: 3 for n in "xyzufgsr"}, {"z": 1, "u": 1}],
         "shared variables": [{"f": 1}, {"w": 1}, {"s": 1, "f": 1}, {"x": 1}], "repeated variables": [{"f": 1}, {"s": 1}, {"w": 2}, {"x": 1}],
         "sizes": [{"f": 1}, {"v": 2}, {"p": 1}, {"w": 2, "k": 2, "h": 1}], "classes": [{"t": 1}, {"t": 1, "k": 1}, {"w": 2}, {"m": 2, "f": 1}],
         "poses": [{"m": 1, "k": 1, "t": 1}, {"m": 1}, {"w": 2}], "robust": [{"t": 1}, {"w": 2, "v": 2}, {"t": 1, "k": 1}], "motion": [{"dt": 2}, {"v1": 1}], "automatic": [{"f": 1}, {"g": 1, "f": 1}, {"w": 2}],
         "functions": [{"f": 1}]}


def structures(a, r, loc, name):
    """same error and same linear system for every pattern of batch sizes"""
    for sz in ({}, *SIZES[name]):
        def go():
            w = Twins(a, STRUCTURES[name], sz)
            w.vectorize()
            w.observe("vectorized")
            w.grad(False)
            w.observe("without gradients")
            w.grad(True)
            w.observe("with gradients again")
        attempt(r, "same error and same system", f"{name}{', ' if sz else ''}{', '.join(f'batch size {b} of {n}' for n, b in sz.items())}", loc, go)


# ------------------------------------------------------------------ histories
def h_updates(w):
    w.vectorize()
    w.observe("at the start")
    for n in list(w.s.vars):
        w.update(n)
        w.observe(f"after an update of {n}")


def h_own(w):
    """variables updated on their own"""
    w.vectorize()
    w.observe("at the start")
    for n in list(w.s.vars):
        w.s.do(w.s.vars[n], "update", w.fresh(n))
        w.observe(f"after {n}.update()")


def h_quiet(w):
    """updates without gradients, then evaluation with gradients"""
    w.vectorize()
    w.grad(False)
    w.observe("without gradients")
    w.grad(True)
    w.observe("with gradients")
    for n in list(w.s.vars)[:3]:
        w.grad(False)
        w.update(n)
        w.grad(True)
        w.observe(f"after an update of {n} without gradients")
        w.grad(False)
        w.observe("without gradients again")
        w.grad(True)
        w.update(n)
        w.observe("with gradients again")


def h_temporary(w):
    w.vectorize()
    w.observe("at the start")
    names = list(w.s.vars)
    for n in names[:4] + names[-2:]:
        for meth in ("error", "error_metric"):
            w.s.do(w.fast, meth, {n: w.fresh(n)})
            w.observe(f"after a temporary {meth} with another {n}")
    w.s.do(w.fast, "error", {n: w.fresh(n) for n in names}, also_update=True)
    w.observe("after an evaluation that updates")


def h_temporary_value(w):
    """the temporary evaluation itself"""
    w.vectorize()
    names = list(w.s.vars)
    for some in ([names[0]], [names[-1]], names):
        for keep in (False, True):
            d = {n: w.fresh(n) for n in some}
            got = ten_of(w.s.do(w.fast, "error", dict(d), also_update=keep))
            want = ten_of(w.s.do(w.plain, "error", dict(d)))
            x, y = entries(got), entries(want)
            if set(x) != set(y) or any(tn.poly(x[i]) != tn.poly(y[i]) and not w.close(tn.poly(x[i]), tn.poly(y[i])) for i in x):
                raise Wrong(f"the error of an evaluation with other values of {', '.join(some)}{' that updates' if keep else ''} is not the one of the plain objective")
            w.observe("afterwards")


def h_masked(w):
    w.vectorize()
    w.observe("at the start")
    for n in list(w.s.vars):
        if ten_of(w.s.vars[n]).shape[0] != 2:
            continue
        for bits in ([True, False], [False, True], [True, True]):
            m = w.it.call(w.it.ext("torch.tensor"), [bits], {})
            w.update(n, batch_ignore_mask=m)
            w.observe(f"after a masked update of {n}")


def h_batches(w):
    """all batch sizes change"""
    w.vectorize()
    w.observe("at the start")
    for b in (3, 1, 2):
        w.s.do(w.fast, "update", {n: w.fresh(n, b) for n, v in w.s.vars.items() if ten_of(v).shape[0] > 1 or n in w.wide})
        w.observe(f"with batch size {b}")


def h_steps(w):
    """retractions"""
    w.vectorize()
    order = w.s.new("VariableOrdering", w.fast)
    dof = sum(w.it.call(w.it.getattr(v, "dof"), [], {}) for v in w.it.iterate(order))
    for k in range(2):
        w.s.do(w.fast, "retract_vars_sequence", w.s.tensor(f"step{k}", (2, dof), scale=0.3), order)
        w.observe(f"after step {k}")
    m = w.it.call(w.it.ext("torch.tensor"), [[False, True]], {})
    w.s.do(w.fast, "retract_vars_sequence", w.s.tensor("step9", (2, dof), scale=0.3), order, ignore_mask=m)
    w.observe("after a masked step")


def h_twin_steps(w):
    """the vectorized retraction moves variables to where the plain one does"""
    w.vectorize()
    order = w.s.new("VariableOrdering", w.fast)
    variables = list(w.it.iterate(order))
    dof = sum(w.it.call(w.it.getattr(v, "dof"), [], {}) for v in variables)
    for k, (bits, force) in enumerate(((None, False), ([False, True], False), ([True, True], False), ([True, False], True))):
        d = w.s.tensor(f"step{k}", (2, dof), scale=0.3)
        before = [ten_of(v) for v in variables]
        kw = {} if bits is None else {"ignore_mask": w.it.call(w.it.ext("torch.tensor"), [bits], {}), "force_update": force}
        w.s.do(w.plain, "retract_vars_sequence", d, order, **kw)
        want = [dict(entries(ten_of(v))) for v in variables]
        for v, t in zip(variables, before):
            w.s.do(v, "update", t)
        w.s.do(w.fast, "retract_vars_sequence", d, order, **kw)
        for v, e in zip(variables, want):
            got = entries(ten_of(v))
            if set(got) != set(e) or any(tn.poly(got[i]) != tn.poly(e[i]) and not w.close(tn.poly(got[i]), tn.poly(e[i])) for i in e):
                raise Wrong(f"{w.it.getattr(v, 'name')} is moved elsewhere than without vectorization ({'no mask' if bits is None else f'mask {bits}'})")
        w.observe("after the step")


def h_moved(w):
    """another precision"""
    w.vectorize()
    w.observe("at the start")
    w.s.do(w.fast, "to", dtype=w.it.ext("torch.float32"))
    w.s.do(w.plain, "to", dtype=w.it.ext("torch.float32"))
    w.observe("after a change of the precision")
    w.s.do(w.fast, "to", dtype=w.it.ext("torch.float64"))
    w.s.do(w.plain, "to", dtype=w.it.ext("torch.float64"))
    w.observe("after another one")


def h_again(w):
    """vectorized twice, by two layers say"""
    w.vectorize()
    w.observe("at the start")
    w.vectorize()
    w.observe("vectorized again")
    w.grad(False)
    w.vectorize()
    w.observe("vectorized without gradients")
    w.grad(True)
    w.observe("with gradients again")


def h_structure(w):
    """functions come and go; vectorized again after each change"""
    w.vectorize()
    w.observe("at the start")
    last = w.costs[-1]
    for o in (w.plain, w.fast):
        w.s.do(o, "erase", w.it.getattr(last, "name"))
    w.observe("after erase")
    w.vectorize()
    w.observe("vectorized after erase")
    for o in (w.plain, w.fast):
        w.s.do(o, "add", last)
    w.observe("after add")
    w.vectorize()
    w.update(list(w.s.vars)[0])
    w.observe("vectorized after add")


def h_off(w):
    w.vectorize()
    w.observe("at the start")
    w.s.do(w.fast, "disable_vectorization")
    w.update(*list(w.s.vars)[:2])
    w.observe("turned off")
    w.vectorize()
    w.observe("turned on again")


def h_weights(w):
    """the weight of a function is replaced"""
    w.vectorize()
    w.observe("at the start")
    c = w.s.do(w.fast, "copy")
    w.update(*list(w.s.vars)[:2])
    w.observe("after a copy of the objective and an update of the original")
    w.s.do(c, "update", {n: w.fresh(n) for n in list(w.s.vars)[:2]})
    w.observe("after an update of the copy")


HISTORIES = {"updates": h_updates, "updates of variables": h_own, "gradient modes": h_quiet, "temporary evaluations": h_temporary, "values of temporary evaluations": h_temporary_value,
             "masked updates": h_masked, "batch sizes": h_batches, "steps": h_steps, "steps next to plain ones": h_twin_steps, "precision": h_moved, "vectorized again": h_again, "structure": h_structure, "on and off": h_off, "copies": h_weights}


def histories(a, r, loc, name):
    for st in STRUCTURES:
        def go():
            w = Twins(a, STRUCTURES[st])
            w.wide = [n for n, v in w.s.vars.items() if ten_of(v).shape[0] == 2]
            HISTORIES[name](w)
        attempt(r, "never stale", f"{name}, {st}", loc, go)
