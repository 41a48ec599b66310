"""The sampling-based optimizer. One step, the start of a run and the loop are followed symbolically on a small problem; the noise of the
samples is a free symbol, so mean and covariance that come out are compared, as forms, with the ones the scores of the samples imply."""
from sa import cases as C
from sa import normal as nf
from sa import tensor as tn
from sa.comp import Malformed
from sa.interp import Ctx, Native, Obj, Raised, Ten
from sa.jac import Wrong, attempt, same, ten_of
from sa.state import accepted, same_entries
from checks.C40 import method_loc

ASSUMPTIONS = ["torch.distributions.Normal(mean, std).rsample() is mean + std * noise", "LML returns weights of the samples, larger for larger scores"]

CLIENT = '''
import torch


class Hill(CostFunction):
    def __init__(self, x, y, t, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.x, self.y, self.t = x, y, t
        self.register_optim_vars(["x", "y"])
        self.register_aux_var("t")

    def error(self):
        return torch.cat([self.x.tensor - self.t.tensor[:, :2], self.y.tensor * self.x.tensor[:, :1] - self.t.tensor[:, 2:]], dim=1)

    def jacobians(self):
        raise NotImplementedError

    def dim(self):
        return 3

    def _copy_impl(self, new_name=None):
        return Hill(self.x.copy(), self.y.copy(), self.t.copy(), self.weight.copy(), name=new_name)
'''
SAMPLES = 4


class Valley:
    def __init__(self, a, batch=2, seed=1, hooks=None, order=("x", "y"), **kw):
        self.normals, self.lml = [], []
        s = None

        def normal(it, loc, scale, *args, **k):
            n = len(self.normals)

            def rsample(shape=(), *args, **k):
                shape = tuple(shape)
                full = (*shape, *loc.shape)
                t = tn.symbols(f"noise{n}", full, loc.dtype)
                r = C.g.Rnd(77 + n + seed)
                self.s.w.update({(f"noise{n}", *i): r() for i in t.arr().data})
                self.normals[n][2:] = [shape, t]
                return it.binop("+", loc, it.binop("*", scale, t))
            self.normals.append([loc, scale])
            return Obj(Ctx, {"rsample": Native(rsample), "sample": Native(rsample), "loc": loc, "scale": scale})

        def lml(it, *args, **k):
            def run(x):
                t = tn.symbols(f"lml{len(self.lml)}", tuple(x.shape), x.dtype)
                r = C.g.Rnd(5 + len(self.lml))
                self.s.w.update({(f"lml{len(self.lml)}", *i): 0.5 + 0.4 * r() for i in t.arr().data})
                self.lml.append((args, k, x, t))
                return t
            return Native(run)
        hk = {"torch.distributions.Normal": normal, "torch.distributions.normal.Normal": normal, ("call", "LML"): lml, ("theseus.third_party.lml", "LML"): lml,
              ("LML", "__new__"): lml, "warnings.warn": lambda it, *x, **k: None}
        hk.update(hooks or {})
        s = self.s = C.Setup(a, hooks=hk, seed=seed)
        it = self.it = s.it
        hill = it.define(CLIENT.replace('(["x", "y"])', f"({list(order)!r})"), "theseus.core.cost_function")["Hill"]
        self.objective = s.new("Objective", dtype=it.ext("torch.float64"))
        kinds = {"x": "vec2", "y": "vec1"}
        self.vars = {n: s.var(n, kinds[n], batch) for n in order}
        t = s.aux("t", (batch, 3))
        w = self.weight = s.tensor("weight", (1, 1), lo=0.5)
        weight = it.call(C.Cls(C.g.cls_of(it, "ScaleCostWeight")), [w], {})
        s.do(self.objective, "add", it.call(hill, [self.vars["x"], self.vars["y"], t, weight], {"name": "hill"}))
        s.do(self.objective, "update", {})
        self.t = t
        self.batch = batch
        self.opt = s.new("DCEM", self.objective, n_sample=SAMPLES, **kw)
        self.order = [it.getattr(v, "name") for v in it.iterate(it.getattr(self.opt, "ordering"))]
        self.sizes = {"x": 2, "y": 1}

    def ten(self, n):
        return self.it.getattr(self.vars[n], "tensor")

    def op(self, o, x, y):
        return self.it.binop(o, x, y)

    def mean(self):
        return self.it.torch_fn("cat", [[self.ten(n) for n in self.order]], {"dim": -1})

    def parts(self, t):
        out, k = {}, 0
        for n in self.order:
            out[n] = self.it.getitem(t, (slice(None), slice(k, k + self.sizes[n])))
            k += self.sizes[n]
        return out

    def score(self, sample):
        """the documented error of a sample (batch, total)"""
        it = self.it
        p = self.parts(sample)
        t = ten_of(self.t)
        e = it.torch_fn("cat", [[self.op("-", p["x"], it.getitem(t, (slice(None), slice(0, 2)))),
                                 self.op("-", self.op("*", p["y"], it.getitem(p["x"], (slice(None), slice(0, 1)))), it.getitem(t, (slice(None), slice(2, 3))))]], {"dim": 1})
        e = self.op("*", e, self.weight)
        return self.op("*", it.torch_fn("sum", [self.op("*", e, e)], {"dim": 1}), 0.5)

    def samples(self, run=0):
        loc, scale, shape, noise = self.normals[run]
        x = self.op("+", loc, self.op("*", scale, noise))
        return [self.it.getitem(x, k) for k in range(shape[0])]


def spread(v, value=None):
    """a distribution in general position"""
    if value is None:
        value = v.s.tensor("sigma", (v.batch, 3), lo=0.3)
    v.it.setattr(v.opt, "sigma", value)
    return value


def weighted(v, W, X, n):
    """mean and deviation for weights (batch, samples)"""
    it = v.it
    cols = [it.getitem(W, (slice(None), slice(k, k + 1))) for k in range(len(X))]
    total = None
    for c, x in zip(cols, X):
        y = v.op("*", c, x)
        total = y if total is None else v.op("+", total, y)
    mu = v.op("/", total, n)
    var = None
    for c, x in zip(cols, X):
        d = v.op("-", x, mu)
        y = v.op("*", c, v.op("*", d, d))
        var = y if var is None else v.op("+", var, y)
    return mu, it.torch_fn("sqrt", [v.op("/", var, n)], {})


def compare(v, what, got, want, tol=1e-7):
    if not isinstance(got, Ten):
        raise Wrong(f"{what} is {type(got).__name__}")
    if got.dtype != want.dtype and "scalar" not in (got.dtype, want.dtype):
        raise Wrong(f"{what} has dtype {got.dtype} instead of {want.dtype}")
    bad = same(ten_of(got), want, [v.s.w], tol)
    if bad:
        raise Wrong(f"{what}: {bad}")


def stepped(v, weights, n, what):
    sigma = v.it.getattr(v.opt, "sigma")
    before = {k: (v.ten(k), dict(v.ten(k).arr().data)) for k in v.vars}
    mean = v.mean()
    try:
        out = v.s.do(v.opt, "_CEM_step")
    except Raised as e:
        raise Wrong(f"a step raises {e.name} ({str(e.msg)[:80]})")
    if len(v.normals) != 1 or len(v.normals[0]) != 4:
        raise Wrong(f"samples are drawn {len(v.normals)} times")
    loc, scale, shape, noise = v.normals[0]
    compare(v, "the mean of the samples", loc, mean)
    compare(v, "the deviation of the samples", scale, sigma)
    if shape != (SAMPLES,):
        raise Wrong(f"samples of shape {shape} are drawn instead of {SAMPLES}")
    for k, (t, d) in before.items():
        if v.ten(k) is not t:
            raise Wrong(f"scoring the samples leaves another tensor in {k}")
        same_entries(f"{k} after scoring the samples", t, d)
    X = v.samples()
    mu, sd = weighted(v, weights(v, X), X, n)
    want = v.parts(mu)
    if not isinstance(out, dict) or sorted(out) != sorted(want):
        raise Wrong(f"the mean is returned for {sorted(out) if isinstance(out, dict) else type(out).__name__}")
    for k in want:
        compare(v, f"the new mean of {k} ({what})", out[k], want[k])
    compare(v, f"the new deviation ({what})", v.it.getattr(v.opt, "sigma"), sd, 1e-6)


def scores(v, X):
    return v.it.torch_fn("stack", [[v.score(x) for x in X]], {"dim": 1})


def elites(n):
    def w(v, X):
        f = scores(v, X).arr().data
        rows = []
        for b in range(v.batch):
            vals = sorted(range(SAMPLES), key=lambda k: nf.value(tn.poly(f[b, k]), v.s.w))
            rows.append([1.0 if k in vals[:n] else 0.0 for k in range(SAMPLES)])
        return v.it.torch_fn("tensor", [rows], {"dtype": v.it.ext("torch.float64")})
    return w


def normalized(v, f):
    it = v.it
    mean = it.torch_fn("mean", [f], {"dim": 1, "keepdim": True})
    sd = it.torch_fn("std", [f], {"dim": 1, "keepdim": True})
    return v.op("/", v.op("-", f, mean), v.op("+", sd, 1e-6))


def step(a, r):
    loc = method_loc(a, "DCEM", "_CEM_step")
    for batch in (2, 1):
        for seed in (1, 2, 3):
            for n in (1, 2, 3, SAMPLES):
                for temp in (None, float("inf")):
                    def hard():
                        v = Valley(a, batch, seed, temp=temp, n_elite=n)
                        spread(v)
                        stepped(v, elites(n), n, f"{n} best of {SAMPLES} samples")
                    attempt(r, "mean and deviation of the best samples", f"{n} elite, batch {batch}, case {seed}, temperature {temp}", loc, hard)
    for order in (("x", "y"), ("y", "x")):
        def ordered():
            v = Valley(a, 2, 1, temp=None, n_elite=2, order=order)
            spread(v)
            stepped(v, elites(2), 2, "order of the variables")
        attempt(r, "mean and deviation of the best samples", f"variables in order {order}", loc, ordered)
    for temp in (1.0, 0.5, 2.0):
        for norm in (True, False):
            def soft():
                v = Valley(a, 2, 1, temp=temp, n_elite=1, normalize=norm)
                spread(v)

                def w(v, X):
                    f = scores(v, X)
                    f = normalized(v, f) if norm else f
                    return v.it.torch_fn("softmax", [v.op("*", f, -temp)], {"dim": 1})
                stepped(v, w, 1, "soft weights")
            attempt(r, "better samples weigh more", f"temperature {temp}{'' if norm else ', scores as they are'}", loc, soft)
            for n in (2, 3, SAMPLES):
                def lml():
                    v = Valley(a, 2, 1, temp=temp, n_elite=n, normalize=norm, lml_eps=0.25)
                    spread(v)

                    def w(v, X):
                        if len(v.lml) != 1:
                            raise Wrong(f"the samples are weighted {len(v.lml)} times")
                        args, kw, x, t = v.lml[0]
                        N = kw.get("N", args[0] if args else None)
                        if N != n:
                            raise Wrong(f"{N} samples are selected instead of {n}")
                        if kw.get("eps", 0.25) != 0.25:
                            raise Wrong(f"the tolerance {kw.get('eps')} is used instead of lml_eps")
                        f = scores(v, X)
                        f = normalized(v, f) if norm else f
                        compare(v, "what the samples are weighted by", x, v.op("*", f, -temp))
                        return t
                    stepped(v, w, n, "limited multi-label weights")
                attempt(r, "better samples weigh more", f"temperature {temp}, {n} elite{'' if norm else ', scores as they are'}", loc, lml)


def start(a, r):
    loc = method_loc(a, "DCEM", "_optimize_impl")

    def runs(first, second):
        def run():
            seen = []
            v = Valley(a, hooks=hooked(seen), init_sigma=0.75)
            for kw in (first, second):
                out = accepted("a run", lambda: v.s.do(v.opt, "_optimize_impl", **kw))
                want = v.it.torch_fn("full", [(v.batch, 3), 1.0], {"dtype": v.it.ext("torch.float64")})
                init = kw.get("init_sigma", 0.75)
                want = v.op("*", want, init)
                compare(v, "the deviation a run starts with", seen[-1][0], want)
                if out is None:
                    raise Wrong("a run returns nothing")
                v.it.setattr(v.opt, "sigma", v.s.tensor(f"left{len(seen)}", (v.batch, 3), lo=0.1))
            if len(seen) != 2:
                raise Wrong(f"two runs start {len(seen)} times")
        return run

    def hooked(seen):
        def loop(it, self, *args, **kw):
            seen.append((it.getattr(self, "sigma"), args, kw))
            return 0
        return {("DCEM", "_optimize_loop"): loop}
    for name, one, two in (("default", {}, {}), ("given for one run", {"init_sigma": 0.125}, {}), ("given later", {}, {"init_sigma": 2.5}),
                           ("tracking", {"track_best_solution": True, "track_err_history": True, "track_state_history": True}, {}), ("direct loss", {"backward_mode": "dlm"}, {"backward_mode": "unroll"})):
        attempt(r, "runs start from the initial deviation", name, loc, runs(one, two))

    def resized():
        seen = []
        v = Valley(a, hooks=hooked(seen), init_sigma=0.75)
        accepted("a run", lambda: v.s.do(v.opt, "_optimize_impl"))
        v.s.do(v.objective, "update", {n: v.s.tensor(f"{n}3", (3, *ten_of(x).shape[1:])) for n, x in (("x", v.vars["x"]), ("y", v.vars["y"]), ("t", v.t))})
        accepted("a run with another batch size", lambda: v.s.do(v.opt, "_optimize_impl"))
        if tuple(seen[-1][0].shape) != (3, 3):
            raise Wrong(f"with three batch elements the deviation has shape {tuple(seen[-1][0].shape)}")
    attempt(r, "runs start from the initial deviation", "another batch size", loc, resized)

    def vector():
        seen = []
        v = Valley(a, hooks=hooked(seen))
        init = v.s.tensor("given", (2, 3), lo=0.2)
        accepted("a run", lambda: v.s.do(v.opt, "_optimize_impl", init_sigma=init))
        compare(v, "the deviation a run starts with", seen[-1][0], init)
        if seen[-1][0] is init:
            raise Wrong("the caller's tensor is used as the state of the run")
    attempt(r, "runs start from the initial deviation", "per element", loc, vector)
    for mode in ("implicit", "truncated"):
        def refused():
            seen = []
            v = Valley(a, hooks=hooked(seen))
            try:
                v.s.do(v.opt, "_optimize_impl", backward_mode=mode)
            except Raised as e:
                if e.name != "NotImplementedError":
                    raise Wrong(f"backward mode {mode} raises {e.name}")
                return
            raise Wrong(f"backward mode {mode} is accepted")
        attempt(r, "unsupported modes are refused", mode, loc, refused)


def loop(a, r):
    loc = method_loc(a, "DCEM", "_optimize_loop")

    def play(n, stop=None, tol=0.0, rel=None):
        means, calls = [], []

        def cem(it, o):
            k = len(means)
            if stop is not None and k == stop:
                means.append({m: v.ten(m) for m in v.vars})
            else:
                means.append({m: v.s.tensor(f"{m}mean{k}", tuple(v.ten(m).shape)) for m in v.vars})
            return means[-1]
        v = Valley(a, hooks={("DCEM", "_CEM_step"): cem}, abs_err_tolerance=tol, rel_err_tolerance=tol if rel is None else rel, max_iterations=n)
        v.calls = calls
        return v, means, calls

    for n in (1, 2, 3):
        def iterations():
            v, means, calls = play(n)
            it = v.it
            cb = Native(lambda *args, **kw: calls.append((args, {m: v.ten(m) for m in v.vars})))
            out = accepted("a run", lambda: v.s.do(v.opt, "_optimize_impl", end_iter_callback=cb, track_best_solution=True))
            if len(means) != n:
                raise Wrong(f"{len(means)} steps are made instead of {n}")
            for m in v.vars:
                same_entries(f"{m} after the run", v.ten(m), means[-1][m].arr().data)
            if len(calls) != n:
                raise Wrong(f"the callback is called {len(calls)} times in {n} iterations")
            for k, (args, held) in enumerate(calls):
                if args[0] is not v.opt or args[3] != k:
                    raise Wrong("the callback is given another optimizer or iteration")
                for m in v.vars:
                    same_entries(f"{m} when the callback is called", held[m], means[k][m].arr().data)
            e = v.s.do(v.objective, "error_metric")
            compare(v, "the last error", it.getattr(out, "last_err"), ten_of(e))
        attempt(r, "every step is written to the variables", f"{n} iterations", loc, iterations)

    for tol, rel in ((1e-9, 1e-9), (1e-9, 0.0), (0.0, 1e-9)):
        def stops():
            v, means, calls = play(4, stop=1, tol=tol, rel=rel)
            accepted("a run", lambda: v.s.do(v.opt, "_optimize_impl"))
            if len(means) != 2:
                raise Wrong(f"a run whose error no longer changes after 2 steps makes {len(means)}")
        attempt(r, "every step is written to the variables", f"convergence, tolerances {tol} and {rel}", loc, stops)

    def goes_on():
        v, means, calls = play(3, stop=1)
        accepted("a run", lambda: v.s.do(v.opt, "_optimize_impl"))
        if len(means) != 3:
            raise Wrong(f"a run without tolerances makes {len(means)} of 3 steps")
    attempt(r, "every step is written to the variables", "no tolerances", loc, goes_on)

    def fails():
        def cem(it, o):
            raise Raised("RuntimeError", "the step's own", "step")
        v = Valley(a, hooks={("DCEM", "_CEM_step"): cem})
        before = {m: v.ten(m) for m in v.vars}
        try:
            v.s.do(v.opt, "_optimize_impl")
        except Raised as e:
            if e.name != "RuntimeError":
                raise Wrong(f"a failing step raises {e.name}")
            for m in v.vars:
                if v.ten(m) is not before[m]:
                    raise Wrong(f"a failing step changes {m}")
            return
        raise Wrong("a failing step is ignored")
    attempt(r, "every step is written to the variables", "failing step", loc, fails)


def check(a, r):
    r.assumptions = ASSUMPTIONS
    r.parallel(a, [(step, ()), (start, ()), (loop, ())])
