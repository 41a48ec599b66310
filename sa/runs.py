"""Whole optimization runs of a client's optimizer, followed symbolically: the steps and the verdicts on them are prescribed, so the states,
errors and records every iteration must leave behind are known as forms."""
from . import cases as C
from . import normal as nf
from . import tensor as tn
from .comp import Unknown
from .interp import Cls, Native, Objects, Raised, Ten
from .jac import Wrong, attempt, same, ten_of
from .state import accepted

COST = '''
import torch


class Target(CostFunction):
    def __init__(self, x, y, t, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.x, self.y, self.t = x, y, t
        self.register_optim_vars(["x", "y"])
        self.register_aux_var("t")

    def error(self):
        return torch.cat([self.x.tensor - self.t.tensor[:, :2], self.y.tensor - self.t.tensor[:, 2:]], dim=1)

    def jacobians(self):
        eye = torch.eye(3, dtype=self.x.dtype, device=self.x.device).repeat(self.x.shape[0], 1, 1)
        return [eye[:, :, :2], eye[:, :, 2:]], self.error()

    def dim(self):
        return 3

    def _copy_impl(self, new_name=None):
        return Target(self.x.copy(), self.y.copy(), self.t.copy(), self.weight.copy(), name=new_name)
'''
SOLVER = '''
class Prescribed(LinearSolver):
    def __init__(self, objective, linearization_cls=None, linearization_kwargs=None, **kwargs):
        super().__init__(objective, linearization_cls=linearization_cls, linearization_kwargs=linearization_kwargs)
        self.script = None

    def solve(self, damping=None, ellipsoidal_damping=True, damping_eps=1e-8, **kwargs):
        return self.script(self)
'''
WALK = '''
class Walk(NonlinearLeastSquares):
    def compute_delta(self, **kwargs):
        return self.script(self, kwargs)

    def _complete_step(self, delta, new_err, previous_err, **kwargs):
        return self.verdict(delta, new_err, previous_err, kwargs)

    def reset(self, **kwargs):
        super().reset(**kwargs)
        self.noted(kwargs)
'''
SIZES = {"x": 2, "y": 1}
MODES = {"unroll": 0, "implicit": 1, "truncated": 2, "dlm": 3}


class Walker:
    """factors[k][b]: what the distance of batch element b to its target is multiplied by in the k-th attempt;
    rejects[k]: batch elements whose step is refused in that attempt (None: no verdict)"""

    def __init__(self, a, factors, rejects=None, batch=3, seed=1, grads=False, order=("x", "y"), base="Walk", linear=None, **kw):
        s = self.s = C.Setup(a, seed=seed, hooks={"warnings.warn": lambda it, *x, **k: None})
        it = self.it = s.it
        it.grads = grads
        self.batch, self.factors, self.rejects = batch, factors, rejects or {}
        self.attempts, self.deltas, self.final, self.calls, self.received, self.resets, self.verdicts, self.fails = 0, [], [], [], [], [], [], ()
        client = {**it.define(COST, "theseus.core.cost_function"), **it.define(SOLVER, "theseus.optimizer.linear.linear_solver"),
                  **it.define(WALK, "theseus.optimizer.nonlinear.nonlinear_least_squares")}
        self.objective = s.new("Objective", dtype=it.ext("torch.float64"))
        self.vars = {n: s.var(n, f"vec{SIZES[n]}", batch) for n in order}
        self.t = s.aux("t", (batch, 3))
        self.wt = s.aux("w", (1, 1), lo=0.5)
        weight = it.call(Cls(C.g.cls_of(it, "ScaleCostWeight")), [self.wt], {})
        s.do(self.objective, "add", it.call(client["Target"], [self.vars["x"], self.vars["y"], self.t, weight], {"name": "target"}))
        s.do(self.objective, "update", {})
        kw.setdefault("abs_err_tolerance", 0.0)
        kw.setdefault("rel_err_tolerance", 0.0)
        self.params = kw
        self.n = kw.setdefault("max_iterations", 3)
        self.opt = it.call(client[base], [self.objective], {"linear_solver_cls": client["Prescribed"], "linearization_cls": Cls(C.g.cls_of(it, linear or "DenseLinearization")), **kw})
        self.order = [it.getattr(v, "name") for v in it.iterate(it.getattr(self.opt, "ordering"))]
        it.setattr(self.opt, "script", Native(self.propose))
        it.setattr(self.opt, "verdict", Native(self.judge))
        it.setattr(self.opt, "noted", Native(lambda kw: self.resets.append((self.attempts, kw))))
        it.setattr(it.getattr(self.opt, "linear_solver"), "script", Native(self.solved))
        self.start = {n: ten_of(v) for n, v in self.vars.items()}

    # ------------------------------------------------------------- the client's side
    def op(self, o, x, y):
        return self.it.binop(o, x, y)

    def distance(self, state):
        t = ten_of(self.t)
        cut = {"x": slice(0, 2), "y": slice(2, 3)}
        return self.it.torch_fn("cat", [[self.op("-", self.it.getitem(t, (slice(None), cut[n])), state[n]) for n in self.order]], {"dim": 1})

    def gain(self, k):
        """symbol of the k-th step, one entry per batch element"""
        f = self.factors[k % len(self.factors)]
        g = tn.symbols(f"gain{k}", (self.batch, 1), "float64")
        self.s.w.update({(f"gain{k}", b, 0): (1.0 - f[b]) / self.params.get("step_size", 1.0) for b in range(self.batch)})
        return g

    def propose(self, opt, kw):
        k = self.attempts
        self.attempts += 1
        self.received.append(kw)
        if k in self.fails:
            raise Raised("RuntimeError", "singular system", "the client's compute_delta")
        d = self.op("*", self.gain(k), self.distance({n: ten_of(v) for n, v in self.vars.items()}))
        self.deltas.append(d)
        return d

    def solved(self, solver):
        lin = self.it.getattr(solver, "linearization")
        A, b = self.it.getattr(lin, "AtA"), self.it.getattr(lin, "Atb")
        k = len(self.final)
        g = self.gain(100 + k)
        d = self.op("*", g, self.op("/", self.it.torch_fn("squeeze", [b], {"dim": -1}), self.it.getitem(A, (slice(None), slice(0, 1), 0))))
        self.final.append(d)
        self.deltas.append(d)
        return d

    def judge(self, delta, new_err, previous_err, kw):
        k = self.attempts - 1
        self.received.append(kw)
        self.verdicts.append((delta, new_err, previous_err))
        if k not in self.rejects or self.rejects[k] is None:
            return None
        rows = self.rejects[k]
        return self.it.torch_fn("tensor", [[b in rows for b in range(self.batch)]], {})

    def callback(self):
        def cb(*args):
            self.calls.append((args, {n: ten_of(v) for n, v in self.vars.items()}))
        return Native(cb)

    # ------------------------------------------------------------- the reference
    def error(self, state):
        d = self.op("*", self.distance(state), ten_of(self.wt))
        return self.op("/", self.it.torch_fn("sum", [self.op("*", d, d)], {"dim": 1}), 2)

    def values(self, t):
        return [nf.value(tn.poly(p), self.s.w) for p in t.flat()]

    def where(self, rows, new, old):
        """rows of new where told, else of old"""
        it = self.it
        return it.torch_fn("stack", [[it.getitem(new if rows[b] else old, b) for b in range(self.batch)]], {"dim": 0})

    def parts(self, t):
        out, k = {}, 0
        for n in self.order:
            out[n] = self.it.getitem(t, (slice(None), slice(k, k + SIZES[n])))
            k += SIZES[n]
        return out

    def converged(self, new, old):
        e, o = self.values(new), self.values(old)
        at, rt = self.params["abs_err_tolerance"], self.params["rel_err_tolerance"]
        if sum(abs(x) for x in e) / len(e) < at:
            return [True] * self.batch
        return [abs(x - y) < at or (abs(x - y) / abs(y) if y else float("inf")) < rt for x, y in zip(e, o)]

    def move(self, state, delta, scale, frozen):
        d = self.parts(self.op("*", delta, scale) if scale != 1 else delta)
        return {n: self.where([not f for f in frozen], self.op("+", state[n], d[n]), state[n]) for n in state}

    def reference(self, n, state=None, k0=0, final=False, limit=3):
        """states and errors after every iteration of a loop"""
        state = dict(state or self.start)
        rec = {"states": [state], "errors": [self.error(state)], "flags": [], "attempts": k0, "deltas": []}
        frozen, k, tries = [False] * self.batch, k0, 0
        scale = self.params.get("step_size", 1.0)
        it_ = 0
        while it_ < n:
            d = self.op("*", self.gain(100 + it_ if final else k), self.distance(state))
            k += not final
            new = self.move(state, d, 1 if final else scale, [False] * self.batch if final else frozen)
            rej = None if final else self.rejects.get(k - 1)
            if rej is not None and len(rej) == self.batch:
                tries += 1
                if tries < limit:
                    continue
                new = state
            elif rej is not None:
                new = {m: self.where([b not in rej for b in range(self.batch)], new[m], state[m]) for m in state}
            tries = 0
            prev = rec["errors"][-1]
            state = new
            rec["states"].append(state)
            rec["errors"].append(self.error(state))
            rec["deltas"].append(d)
            frozen = self.converged(rec["errors"][-1], prev)
            rec["flags"].append(frozen)
            it_ += 1
            if all(frozen):
                break
        rec["attempts"] = k
        return rec

    def run(self, **kw):
        return accepted("a run", lambda: self.s.do(self.opt, "_optimize_impl", **kw))

    def state(self):
        return {n: ten_of(v) for n, v in self.vars.items()}


def agree(w, what, got, want, tol=1e-9):
    if not isinstance(got, Ten):
        raise Wrong(f"{what} is {type(got).__name__}")
    bad = same(got, want, [w.s.w], tol)
    if bad:
        raise Wrong(f"{what}: {bad}")


def statuses(w, got):
    if not isinstance(got, Objects):
        raise Unknown("status array")
    return [w.it.getattr(x, "name") for x in got.items]


__all__ = ["Walker", "agree", "statuses", "SIZES", "MODES", "Raised"]


# ------------------------------------------------------------------ scenarios

HALF = [.5, .5, .5]
SCENES = {      # name: (factors, rejects, parameters)
    "decreasing": ([[.5, .4, .3], [.6, .7, .2], [.5, .5, .9]], None, {}),
    "increasing for one": ([[.5, .4, 2.0], [.6, 1.5, .3], [2.0, .5, .9]], None, {}),
    "increasing at the end": ([[.5, .4, .3], [.6, .7, .2], [3.0, 2.0, 4.0]], None, {}),
    "increasing at first": ([[2.0, .4, 3.0], [.6, .7, .6], [.9, .5, .9]], None, {}),
    "scaled steps": ([[.5, .4, .3], [.6, .7, .2], [.5, .5, .9]], None, {"step_size": 0.5}),
    "one converges": ([[.5, .4, .3], [1.0, .7, .2], [.3, .5, .9]], None, {"abs_err_tolerance": 1e-9, "rel_err_tolerance": 1e-9}),
    "one converges at once": ([[.5, 1.0, .3], [.4, .7, .2], [.3, .5, .9]], None, {"rel_err_tolerance": 1e-9}),
    "two converge": ([[.5, 1.0, .3], [.4, .7, 1.0], [.3, .5, .9], [.3, .5, .9]], None, {"rel_err_tolerance": 1e-9, "max_iterations": 4}),
    "all converge": ([[.5, .6, .3], [1.0, 1.0, 1.0], [.3, .5, .9], [.3, .5, .9]], None, {"rel_err_tolerance": 1e-9, "max_iterations": 4}),
    "all reach zero": ([[.5, .6, .3], [1e-3, 1e-3, 1e-3], [.3, .5, .9]], None, {"abs_err_tolerance": 1e-4}),
    "one rejected": ([[.5, .4, .3], [.6, .7, .2], [.5, .5, .9]], {0: [1], 1: None, 2: []}, {}),
    "rejected and converged": ([[.5, .4, .3], [.6, 1.0, .2], [.5, .5, .9], [.5, .5, .9]], {2: [0]}, {"rel_err_tolerance": 1e-9, "max_iterations": 4}),
    "all rejected once": ([[.5, .4, .3], [2.0, 2.0, 2.0], [.5, .5, .9], [.4, .4, .4]], {1: [0, 1, 2]}, {}),
    "all rejected always": ([HALF] * 8, {k: [0, 1, 2] for k in range(20)}, {"rel_err_tolerance": 1e-9}),
    "one iteration": ([HALF], None, {"max_iterations": 1}),
}


def parts(fn, loc, n=7):
    names = list(SCENES)
    return [(fn, (loc, names[k::n])) for k in range(n)]


def scene(a, name, **kw):
    f, rej, par = SCENES[name]
    return Walker(a, f, rej, **{"abs_err_tolerance": 0.0, "rel_err_tolerance": 0.0, **par, **kw})


def frozen(a, r, loc, scenes):
    """only elements that are neither converged nor rejected move"""
    for name in scenes:
        for order in (("x", "y"), ("y", "x")):
            for vec in (False, True):
                def moves():
                    w = scene(a, name, order=order)
                    if vec:
                        vectorize(w)
                    w.run()
                    ref = w.reference(w.n)
                    for n in w.vars:
                        agree(w, f"{n} after the run", w.state()[n], ref["states"][-1][n])
                    if w.attempts != ref["attempts"]:
                        raise Wrong(f"{w.attempts} steps are computed instead of {ref['attempts']}")
                attempt(r, "only active elements move", f"{name}, {order[0]} first{', vectorized' if vec else ''}", loc, moves)
    for name in scenes:
        if name not in ("one converges", "one converges at once", "two converge", "decreasing"):
            continue

        def final():
            w = scene(a, name)
            n = w.n
            w.run(backward_mode="implicit")
            one = w.reference(n - 1)
            two = w.reference(1, one["states"][-1], final=True)
            for m in w.vars:
                agree(w, f"{m} after the last step of an implicit run", w.state()[m], two["states"][-1][m])
        attempt(r, "the differentiable last step moves every element", name, loc, final)


def vectorize(w):
    w.s.new("Vectorize", w.objective)


def best_of(w, recs, offset):
    """per batch element: (iteration record index, state, error) of the least error"""
    best = [(0, 0)] * w.batch
    vals = [[w.values(e) for e in rec["errors"]] for rec in recs]
    low = list(vals[0][0])
    for i, v in enumerate(vals):
        for k, e in enumerate(v):
            for b in range(w.batch):
                if e[b] < low[b]:
                    low[b], best[b] = e[b], (i, k)
    return best


def records(a, r, loc, scenes):
    """histories, best solutions, statuses and callbacks of whole runs"""
    for name in scenes:
        for mode, kw in (("unroll", {}), ("dlm", {}), ("truncated", {"backward_num_iterations": 1}), ("truncated", {"backward_num_iterations": 2}), ("implicit", {})):
            if mode in ("dlm", "implicit") and name not in ("decreasing", "one converges", "increasing for one", "increasing at first", "increasing at the end", "all converge"):
                continue
            if "always" in name and mode == "truncated":
                continue
            label = name + (f", {mode}" if mode != "unroll" else "") + (f" {kw['backward_num_iterations']}" if kw else "")
            def run():
                w = scene(a, name)
                info = w.run(track_best_solution=True, track_err_history=True, track_state_history=True, end_iter_callback=w.callback(), backward_mode=mode, **kw)
                n, m = w.n, {"truncated": kw.get("backward_num_iterations"), "implicit": 1}.get(mode, 0)
                m = min(m, n)
                recs = [w.reference(n - m)] if m < n else []
                if m:
                    s0, k0 = (recs[0]["states"][-1], recs[0]["attempts"]) if recs else (None, 0)
                    recs.append(w.reference(m, s0, k0, final=mode == "implicit"))
                if m and m == n:
                    recs.insert(0, {**recs[0], "states": recs[0]["states"][:1], "errors": recs[0]["errors"][:1], "flags": [], "deltas": []})
                judge_run(w, info, recs)
            attempt(r, "records match the iterations", label, loc, run)
    if "one converges" not in scenes:
        return
    for flags in ((False, False, False), (True, False, False), (False, True, False), (False, False, True), (True, False, True)):
        def partial():
            w = scene(a, "one converges")
            b, e, s = flags
            info = w.run(track_best_solution=b, track_err_history=e, track_state_history=s)
            judge_run(w, info, [w.reference(w.n)], b, e, s, calls=False)
            for n, on in (("best_solution", b), ("err_history", e), ("state_history", s)):
                if not on and w.it.getattr(info, n) is not None:
                    raise Wrong(f"{n} is recorded although it was not requested")
        attempt(r, "only the requested records are kept", f"best {flags[0]}, errors {flags[1]}, states {flags[2]}", loc, partial)

    def again():
        w = scene(a, "increasing for one")
        w.run(track_best_solution=True, track_err_history=True)
        k, state = w.attempts, w.state()
        ref = w.reference(w.n, state, k)
        w.start = state
        info = w.run(track_best_solution=True, track_err_history=True, track_state_history=True)
        judge_run(w, info, [ref], calls=False)
    attempt(r, "records match the iterations", "second run of an optimizer", loc, again)


def judge_run(w, info, recs, best=True, errs=True, states=True, calls=True):
    it, get = w.it, lambda n: w.it.getattr(info, n)
    last = recs[-1]
    for n in w.vars:
        agree(w, f"{n} after the run", w.state()[n], last["states"][-1][n])
    errors = recs[0]["errors"] + [e for rec in recs[1:] for e in rec["errors"][1:]]
    path = recs[0]["states"] + [s for rec in recs[1:] for s in rec["states"][1:]]
    if len(recs) == 1:
        agree(w, "last_err", get("last_err"), errors[-1])
    if errs:
        h = get("err_history")
        if tuple(ten_of(h).shape) != (w.batch, w.n + 1):
            raise Wrong(f"err_history has shape {tuple(ten_of(h).shape)}")
        for k in range(w.n + 1):
            col = it.getitem(h, (slice(None), k))
            if k < len(errors):
                agree(w, f"err_history after {k} iterations", col, errors[k])
            elif any(abs(x) < 1e25 for x in w.values(col)):
                raise Wrong(f"err_history has an error for iteration {k}, which was not made")
    if states:
        h = get("state_history")
        if sorted(h) != sorted(w.vars):
            raise Wrong(f"state_history has {sorted(h)}")
        for n in w.vars:
            for k in range(w.n + 1):
                col = it.getitem(h[n], (Ellipsis, k))
                if k < len(path):
                    agree(w, f"state_history of {n} after {k} iterations", col, path[k][n])
                elif any(abs(x) < 1e25 for x in w.values(col)):
                    raise Wrong(f"state_history of {n} has a state for iteration {k}, which was not made")
    if best:
        where = best_of(w, recs, 0)
        sol = get("best_solution")
        if sorted(sol) != sorted(w.vars):
            raise Wrong(f"best_solution has {sorted(sol)}")
        low = w.values(get("best_err"))
        at = w.values(get("best_iter"))
        done = 0
        offs = []
        for rec in recs:
            offs.append(done)
            done += len(rec["flags"])
        for b, (i, k) in enumerate(where):
            want = w.values(recs[i]["errors"][k])[b]
            if abs(low[b] - want) > 1e-9:
                raise Wrong(f"best_err of element {b} is {low[b]:.6g} instead of {want:.6g}")
            for n in w.vars:
                got = it.getitem(sol[n], b)
                agree(w, f"best_solution of {n}, element {b}", got, it.getitem(recs[i]["states"][k][n], b))
            same_low = {offs[j] + max(q - 1, 0) for j, rec in enumerate(recs) for q, e in enumerate(rec["errors"]) if abs(w.values(e)[b] - want) < 1e-9 * (1 + abs(want))}
            if round(at[b]) not in same_low:
                raise Wrong(f"best_iter of element {b} is {at[b]:.0f} instead of {sorted(same_low)[0]}")
        for n in w.vars:
            if sol[n].store is ten_of(w.vars[n]).store:
                raise Wrong(f"best_solution of {n} is the variable's own tensor")
    got = statuses(w, get("status"))
    conv = w.values(get("converged_iter"))
    for b in range(w.batch):
        k, done = None, 0
        for rec in recs:
            hit = next((j for j, f in enumerate(rec["flags"]) if f[b]), None)
            if hit is not None:
                k = done + hit + 1
                break
            done += len(rec["flags"])
        want = "CONVERGED" if k is not None else "MAX_ITERATIONS"
        if got[b] != want:
            raise Wrong(f"status of element {b} is {got[b]} instead of {want}")
        want = k if k is not None else -1
        if round(conv[b]) != want:
            raise Wrong(f"converged_iter of element {b} is {conv[b]:.0f} instead of {want}")
    if calls:
        exp = []
        for rec in recs:
            for k, f in enumerate(rec["flags"]):
                if not all(f):
                    exp.append((rec, k))
        if len(w.calls) != len(exp):
            raise Wrong(f"the callback is called {len(w.calls)} times in {len(exp)} unfinished iterations")
        for (args, held), (rec, k) in zip(w.calls, exp):
            if len(args) != 4 or args[0] is not w.opt:
                raise Wrong("the callback is not given the optimizer")
            if rec is recs[0] and args[3] != k:
                raise Wrong(f"the callback of iteration {k} is given {args[3]}")
            if len(recs) == 1 and args[1] is not info:
                raise Wrong("the callback is given another record")
            agree(w, "the step given to the callback", args[2], rec["deltas"][k])
            for n in w.vars:
                agree(w, f"{n} when the callback of iteration {k} is called", held[n], rec["states"][k + 1][n])


# ------------------------------------------------------------------ gradients

def slopes(w, t):
    """derivatives of the entries with respect to every symbol"""
    keys = [k for k in w.s.w if isinstance(k, tuple) and isinstance(k[0], str) and k[0] in ("x", "y", "t", "w") or isinstance(k, tuple) and str(k[0]).startswith("gain")]
    out = {}
    for i, p in t.arr().data.items():
        for key in keys:
            d = nf.derive(tn.poly(p), lambda k, key=key: {(): 1} if k == key else None)
            out[i, key] = nf.value(d, w.s.w) if d else 0.0
    return out


def same_slopes(w, what, got, want):
    g, h = slopes(w, got), slopes(w, want)
    for (i, key), v in h.items():
        if abs(g[i, key] - v) > 1e-7 * (1 + abs(v)):
            if not v:
                raise Wrong(f"{what}: entry {i} carries a gradient of {key[0]} that should be cut")
            if not g[i, key]:
                raise Wrong(f"{what}: entry {i} has no gradient of {key[0]}")
            raise Wrong(f"{what}: the gradient of {key[0]} in entry {i} is {g[i, key]:.6g} instead of {v:.6g}")


class off:
    """the reference without gradients"""

    def __init__(self, w, on=True):
        self.w, self.on = w, on

    def __enter__(self):
        if self.on:
            tn.GRAD[0] = False

    def __exit__(self, *e):
        tn.GRAD[0] = True


def gradients(a, r, loc, scenes):
    modes = [("unroll", {}, 0), ("dlm", {}, 0), ("truncated", {"backward_num_iterations": 1}, 2), ("truncated", {"backward_num_iterations": 2}, 1),
             ("truncated", {"backward_num_iterations": 3}, 0), ("truncated", {"backward_num_iterations": 5}, 0), ("implicit", {}, 2)]
    for name in scenes:
        if name not in ("decreasing", "increasing for one", "scaled steps", "one rejected", "one converges", "one converges at once"):
            continue
        for mode, kw, cut in modes:
            for track in (False, True):
                def flow():
                    w = scene(a, name, batch=3, grads=True)
                    info = w.run(backward_mode=mode, track_best_solution=track, track_err_history=track, track_state_history=track, **kw)
                    if w.it.mode is not True:
                        raise Wrong("gradients are left switched off")
                    final = mode == "implicit"
                    state, k = None, 0
                    if cut:
                        with off(w):
                            rec = w.reference(cut)
                        state, k = rec["states"][-1], rec["attempts"]
                    rec = w.reference(w.n - cut, state, k, final=False) if not final else implicit(w, state)
                    for n in w.vars:
                        agree(w, f"{n} after the run", w.state()[n], rec["states"][-1][n])
                        same_slopes(w, n, w.state()[n], rec["states"][-1][n])
                    if track:
                        sol = w.it.getattr(info, "best_solution")
                        hist = w.it.getattr(info, "state_history")
                        for what, t in [("best_err", w.it.getattr(info, "best_err")), ("err_history", w.it.getattr(info, "err_history"))] + [
                                (f"{k} of {n}", d[n]) for k, d in (("best_solution", sol), ("state_history", hist)) for n in w.vars]:
                            if any(slopes(w, t).values()):
                                raise Wrong(f"{what} carries gradients")
                label = name + f", {mode}" + (f" {kw['backward_num_iterations']}" if kw else "") + (", tracking" if track else "")
                attempt(r, "gradients flow through the last iterations of the mode", label, loc, flow)
    for mode, kw, cut in modes if "decreasing" in scenes else ():
        def nothing():
            w = scene(a, "decreasing", grads=True)
            tn.GRAD[0] = w.it.mode = False
            try:
                w.run(backward_mode=mode, **kw)
                if w.it.mode is not False:
                    raise Wrong("gradients are left switched on")
            finally:
                tn.GRAD[0] = w.it.mode = True
            for n in w.vars:
                if any(slopes(w, w.state()[n]).values()):
                    raise Wrong(f"{n} carries gradients although the caller switched them off")
        attempt(r, "gradients flow through the last iterations of the mode", f"{mode}{kw or ''}, switched off by the caller", loc, nothing)


def implicit(w, state):
    """one Gauss-Newton step of size one whose matrix is a constant"""
    wt = ten_of(w.wt)
    w2 = w.op("*", wt, wt)
    with off(w):
        cut = w.it.torch_fn("clone", [w2], {})
    d = w.op("*", w.gain(100), w.op("/", w.op("*", w.distance(state), w2), cut))
    p = w.parts(d)
    return {"states": [state, {n: w.op("+", state[n], p[n]) for n in state}]}


# ------------------------------------------------------------------ failures and settings

def failures(a, r, loc):
    for name in ("decreasing", "one converges", "one rejected"):
        for k in (0, 1, 2):
            for track in (True, False):
                def warned():
                    w = scene(a, name)
                    w.fails = (k,)
                    w.it.mode = False
                    try:
                        info = w.run(track_best_solution=track, track_err_history=track, track_state_history=track)
                    finally:
                        w.it.mode = True
                    got = statuses(w, w.it.getattr(info, "status"))
                    if got != ["FAIL"] * w.batch:
                        raise Wrong(f"after a failing step the status is {got}")
                    ref = w.reference(k)
                    for n in w.vars:
                        agree(w, f"{n} after a failing step", w.state()[n], ref["states"][-1][n])
                    if track:
                        w2 = {**ref}
                        failed(w, info, w2)
                attempt(r, "a failing step ends the run with the last valid state", f"{name}, step {k}{', tracking' if track else ''}", loc, warned)
            for mode, kw in (("unroll", {}), ("truncated", {"backward_num_iterations": 3}), ("dlm", {})):
                def raised():
                    w = scene(a, name)
                    w.fails = (k,)
                    try:
                        w.s.do(w.opt, "_optimize_impl", backward_mode=mode, **kw)
                    except Raised as e:
                        if e.name != "RuntimeError":
                            raise Wrong(f"a failing step raises {e.name}")
                        return
                    raise Wrong("a step fails silently although gradients are requested")
                attempt(r, "a failing step is reported when gradients are requested", f"{name}, step {k}, {mode}", loc, raised)


def failed(w, info, ref):
    it = w.it
    h = it.getattr(info, "err_history")
    for k in range(w.n + 1):
        col = it.getitem(h, (slice(None), k))
        if k < len(ref["errors"]):
            agree(w, f"err_history after {k} iterations", col, ref["errors"][k])
        elif any(abs(x) < 1e25 for x in w.values(col)):
            raise Wrong(f"err_history has an error for iteration {k}, which was not made")
    for b, (i, k) in enumerate(best_of(w, [ref], 0)):
        for n in w.vars:
            agree(w, f"best_solution of {n}, element {b}", it.getitem(it.getattr(info, "best_solution")[n], b), it.getitem(ref["states"][k][n], b))


def settings(a, r, loc):
    """what the caller asks for reaches the optimizer's reset, steps and verdicts"""
    for name in ("decreasing", "one rejected", "all rejected once"):
        for mode, kw in (("unroll", {}), ("truncated", {"backward_num_iterations": 1}), ("truncated", {"backward_num_iterations": 3}), ("implicit", {}), ("dlm", {})):
            def reach():
                w = scene(a, name)
                given = {"mine": 0.25, "other": "text"}
                for turn in (1, 2):
                    w.attempts = 0
                    w.resets.clear()
                    w.received.clear()
                    w.run(backward_mode=mode, **kw, **given)
                    if len(w.resets) != 1:
                        raise Wrong(f"run {turn} resets the optimizer {len(w.resets)} times")
                    if w.resets[0][0] != 0:
                        raise Wrong("the optimizer is reset after its first step")
                    for what, got in [("reset", w.resets[0][1])] + [("a step or its verdict", x) for x in w.received]:
                        for q, v in given.items():
                            if q not in got:
                                raise Wrong(f"{what} is not given the caller's {q}")
                            if got[q] != v:
                                raise Wrong(f"{what} is given {q}={got[q]!r} instead of {v!r}")
            attempt(r, "the caller's settings reach every step", f"{name}, {mode}{kw or ''}", loc, reach)

        def compared():
            w = scene(a, name)
            w.run()
            ref = w.reference(w.n)
            if len(w.verdicts) < len(ref["deltas"]):
                raise Wrong(f"{len(w.verdicts)} of {len(ref['deltas'])} steps are decided")
            state, errors = w.start, None
            for k, (d, new, old) in enumerate(w.verdicts):
                want = w.op("*", w.gain(k), w.distance(state))
                agree(w, f"the step decided in attempt {k}", d, want)
                trial = w.move(state, want, 1, [False] * w.batch)
                agree(w, f"the new error of attempt {k}", new, w.error(trial))
                agree(w, f"the previous error of attempt {k}", old, w.error(state))
                rej = w.rejects.get(k) or []
                state = {n: w.where([b not in rej for b in range(w.batch)], trial[n], state[n]) for n in state}
        attempt(r, "verdicts compare the step's error with the current one", name, loc, compared)
