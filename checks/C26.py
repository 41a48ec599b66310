"""The layer. forward() is followed symbolically on a small objective with a client's optimizer that records what it is given and leaves
known solutions behind; what is returned, stored, forwarded and modified is compared with the documented behaviour over histories of calls."""
from sa.interp import Native, Obj, Raised
from sa import sense
from sa.jac import Wrong, attempt, ten_of
from sa.state import World, accepted, refused, same_entries
from checks.C40 import method_loc

CLIENT = '''
class Own(Exception):
    pass


class Given(Optimizer):
    """adds a multiple of what it finds to every optimization variable"""

    def __init__(self, objective, seen, fail=False):
        super().__init__(objective)
        self.seen = seen
        self.fail = fail
        self.runs = 0

    def _optimize_impl(self, **kwargs):
        self.runs = self.runs + 1
        self.seen.append((dict(kwargs), {n: v.tensor for n, v in self.objective.optim_vars.items()},
                          {n: v.tensor for n, v in self.objective.aux_vars.items()}))
        if self.fail:
            raise Own("the client's own")
        for v in self.objective.optim_vars.values():
            v.update(v.tensor * 3.0)
        return OptimizerInfo({"runs": self.runs}, None)
'''


class Stand:
    def __init__(self, a, vectorize=True, fail=False):
        self.w = World(a)
        self.it = self.w.it
        ns = self.it.define(CLIENT, "theseus.optimizer.optimizer")
        self.seen = []
        self.opt = self.it.call(ns["Given"], [self.w.objective, self.seen, fail], {})
        self.layer = self.w.s.new("TheseusLayer", self.opt, vectorize=vectorize)

    def forward(self, *args, **kw):
        return self.w.s.do(self.layer, "forward", *args, **kw)

    def data(self, t):
        return dict(ten_of(t).arr().data)


OPTIM = ("x", "y")


def triple(st, t):
    return ten_of(st.it.binop("*", t, 3.0))


def results(st, out):
    if not isinstance(out, tuple) or len(out) != 2:
        raise Wrong("forward does not return values and information")
    values, info = out
    if not isinstance(values, dict):
        raise Wrong(f"values are {type(values).__name__}")
    if list(values) != list(OPTIM):
        raise Wrong(f"values are returned for {list(values)} instead of {list(OPTIM)}")
    return values, info


def once(st, given, kw=None, how=None):
    """one forward call compared with what it has to do"""
    it = st.it
    held = {n: st.w.ten(n) for n in st.w.names}
    held_data = {n: st.data(t) for n, t in held.items()}
    given = dict(given)
    gave, opts = dict(given), None if kw is None else dict(kw)
    gave_data = {n: st.data(t) for n, t in given.items()}
    nseen = len(st.seen)
    args, kws = [], {}
    if how == "keywords":
        kws = {"input_tensors": given, "optimizer_kwargs": kw}
    elif how == "nothing":
        pass
    else:
        args = [given] + ([kw] if kw is not None else [])
    values, info = results(st, accepted("valid inputs", lambda: st.forward(*args, **kws)))
    if len(st.seen) != nseen + 1:
        raise Wrong(f"the optimizer is run {len(st.seen) - nseen} times")
    k, optim, aux = st.seen[-1]
    for n in st.w.names:
        at = {**optim, **aux}
        if n not in at:
            raise Wrong(f"{n} is no variable of the objective any more")
        want = gave.get(n, held[n])
        if at[n] is not want:
            same_entries(f"{n} when the optimizer starts", at[n], gave_data.get(n, held_data[n]))
    for n in OPTIM:
        want = triple(st, gave.get(n, held[n]))
        same_entries(f"the value returned for {n}", values[n], want.arr().data)
        same_entries(f"{n} after the optimization", st.w.ten(n), want.arr().data)
    for n in st.w.names:
        if n not in OPTIM:
            same_entries(f"{n} after the optimization", st.w.ten(n), gave_data.get(n, held_data[n]))
    for n, d in gave_data.items():
        same_entries(f"the caller's tensor for {n}", gave[n], d)
    if list(given) != list(gave) or any(given[n] is not gave[n] for n in gave):
        raise Wrong("the caller's dictionary of inputs is modified")
    if opts is not None:
        if list(kw) != list(opts) or any(kw[n] is not opts[n] and kw[n] != opts[n] for n in opts):
            raise Wrong(f"the caller's optimizer arguments are modified to {sorted(map(str, kw))}")
        for n, v in opts.items():
            if n not in k:
                raise Wrong(f"the optimizer argument {n} is not forwarded")
            if k[n] is not v and k[n] != v:
                raise Wrong(f"the optimizer argument {n} arrives as {k[n]}")
    for n in k:
        if n not in (opts or {}) and not str(n).startswith("__"):
            raise Wrong(f"an optimizer argument {n} is made up")
    if st.it.getattr(info, "best_solution") != {"runs": st.it.getattr(st.opt, "runs")}:
        raise Wrong("the information returned is not the optimizer's")
    return values


def inputs(a, r):
    loc = method_loc(a, "TheseusLayer", "forward")
    subsets = (["x", "y"], ["x"], ["y"], ["J0_0"], ["x", "e0"], ["p", "y"], ["q", "e1", "x"], [])
    for vec in (True, False):
        for sub in subsets:
            def run():
                st = Stand(a, vec)
                once(st, {n: st.w.fresh(n) for n in sub})
            attempt(r, "inputs, optimization, values", f"{'+'.join(sub) or 'nothing given'}{'' if vec else '/not vectorized'}", loc, run)

    def none():
        st = Stand(a)
        once(st, {}, how="nothing")
    attempt(r, "inputs, optimization, values", "no argument", loc, none)

    def unknown():
        st = Stand(a)
        new = st.w.fresh("x")
        accepted("an unknown name", lambda: st.forward({"nobody": st.w.fresh("y"), "x": new}))
        same_entries("x, given with an unknown name", st.w.ten("x"), triple(st, new).arr().data)
    attempt(r, "inputs, optimization, values", "unknown name", loc, unknown)

    def bad():
        st = Stand(a)
        before = st.w.state()
        refused(st.w, "an input of another shape", lambda: st.forward({"x": st.w.fresh("x", shape=(2, 5))}))
        if st.seen:
            raise Wrong("the optimizer runs on refused inputs")
        for n, (t, d) in before.items():
            same_entries(f"{n} after refused inputs", st.w.ten(n), d)
    attempt(r, "inputs, optimization, values", "refused input", loc, bad)
    for batch in (1, 3):
        def batched():
            st = Stand(a)
            once(st, {n: st.w.fresh(n, batch=batch) for n in st.w.names})
        attempt(r, "inputs, optimization, values", f"batch size {batch}", loc, batched)


def arguments(a, r):
    loc = method_loc(a, "TheseusLayer", "forward")
    cases = {"none": None, "empty": {}, "options": {"damping": 0.25, "track_best_solution": True, "verbose": False, "step_size": 0.5},
             "object": {"end_iter_callback": Native(lambda *x, **k: None), "adaptive_damping": None},
             "unroll": {"backward_mode": "unroll", "damping": 0.5}, "implicit": {"backward_mode": "implicit"}, "truncated": {"backward_mode": "truncated", "backward_num_iterations": 3},
             "upper case": {"backward_mode": "UNROLL"}, "dlm": {"backward_mode": "dlm", "damping": 0.5}, "dlm, epsilon": {"backward_mode": "dlm", "dlm_epsilon": 0.125}}
    for name, kw in cases.items():
        for how in ("positional", "keywords"):
            def run():
                st = Stand(a)
                once(st, {"x": st.w.fresh("x")}, None if kw is None else dict(kw), how)
            attempt(r, "optimizer arguments", f"{name}/{how}", loc, run)

    def unknown_mode():
        st = Stand(a)
        refused(st.w, "an unknown backward mode", lambda: st.forward({}, {"backward_mode": "sideways"}), ("ValueError", "AttributeError", "KeyError", "AssertionError"))
    attempt(r, "optimizer arguments", "unknown backward mode", loc, unknown_mode)

    def epsilon():
        st = Stand(a)
        refused(st.w, "an epsilon that is no number", lambda: st.forward({"x": st.w.fresh("x")}, {"backward_mode": "dlm", "dlm_epsilon": "large"}))
        if st.seen:
            raise Wrong("the optimizer runs with an epsilon that is no number")
    attempt(r, "optimizer arguments", "dlm epsilon", loc, epsilon)


def histories(a, r):
    loc = method_loc(a, "TheseusLayer", "forward")

    def repeated():
        st = Stand(a)
        first = {n: st.w.fresh(n) for n in st.w.names}
        v1 = once(st, first, {"damping": 0.25})
        d1 = {n: st.data(t) for n, t in v1.items()}
        v2 = once(st, {n: st.w.fresh(n) for n in st.w.names}, {"step_size": 0.5})
        for n in OPTIM:
            same_entries(f"the value for {n} returned earlier", v1[n], d1[n])
        v3 = once(st, first, {"damping": 0.25})
        for n in OPTIM:
            same_entries(f"{n} for the inputs of the first call", v3[n], d1[n])
        if v1 is v2 or v1 is v3:
            raise Wrong("calls share their dictionary of values")
        if set(st.seen[1][0]) & {"damping"} or set(st.seen[2][0]) & {"step_size"}:
            raise Wrong("optimizer arguments of an earlier call are kept")
    attempt(r, "calls are independent", "three calls", loc, repeated)

    def partial():
        st = Stand(a)
        once(st, {n: st.w.fresh(n) for n in st.w.names})
        once(st, {"e0": st.w.fresh("e0")})
        once(st, {"x": st.w.fresh("x")})
    attempt(r, "calls are independent", "partial inputs", loc, partial)

    def failed():
        st = Stand(a, fail=True)
        try:
            st.forward({"x": st.w.fresh("x")})
            raise Wrong("the optimizer's exception is suppressed")
        except Raised as e:
            if e.name != "Own":
                raise Wrong(f"the optimizer's exception arrives as {e.name}")
        st.opt.attrs["fail"] = False
        once(st, {n: st.w.fresh(n) for n in st.w.names})
    attempt(r, "calls are independent", "after a failed call", loc, failed)

    for when in ("before the first call", "after a call"):
        def modified():
            st = Stand(a)
            if when == "after a call":
                once(st, {"x": st.w.fresh("x")})
            n = len(st.seen)
            st.w.s.do(st.w.objective, "erase", "c1")
            refused(st.w, "a call on a modified objective", lambda: st.forward({}), ("RuntimeError",))
            if len(st.seen) != n:
                raise Wrong("the optimizer runs on a modified objective")
        attempt(r, "modified objectives are refused", when, loc, modified)

    def shared():
        st = Stand(a)
        if st.it.getattr(st.layer, "objective") is not st.w.objective:
            raise Wrong("the layer works on another objective")
        if st.it.getattr(st.layer, "optimizer") is not st.opt:
            raise Wrong("the layer works with another optimizer")
    attempt(r, "calls are independent", "objective and optimizer", loc, shared)

    def vectorized(flag):
        def run():
            st = Stand(a, flag)
            if bool(st.it.getattr(st.w.objective, "vectorized")) != flag:
                raise Wrong(f"vectorize={flag} gives an objective that is {'not ' if flag else ''}vectorized")
        return run
    for flag in (True, False):
        attempt(r, "optimizer arguments", f"vectorize={flag}", method_loc(a, "TheseusLayer", "__init__"), vectorized(flag))


def moving(a, r):
    loc = method_loc(a, "TheseusLayer", "to")
    for name, args, kw in (("dtype positional", ["torch.float32"], {}), ("dtype keyword", [], {"dtype": "torch.float32"})):
        def run():
            st = Stand(a)
            it = st.it
            out = st.w.s.do(st.layer, "to", *[it.ext(x) for x in args], **{k: it.ext(v) for k, v in kw.items()})
            if out is not st.layer:
                raise Wrong("to() does not return the layer")
            for n in st.w.names:
                if st.w.ten(n).dtype != "float32":
                    raise Wrong(f"{n} stays {st.w.ten(n).dtype}")
            if str(getattr(it.getattr(st.layer, "dtype"), "name", it.getattr(st.layer, "dtype"))).split(".")[-1] != "float32":
                raise Wrong(f"the layer's dtype is {it.getattr(st.layer, 'dtype')}")
            once(st, {n: st.w.s.do(st.w.fresh(n), "to", it.ext("torch.float32")) for n in st.w.names})
        attempt(r, "moving the layer", name, loc, run)

    def device():
        st = Stand(a)
        it = st.it
        st.w.s.do(st.layer, "to", it.ext("torch.float64"))
        if it.getattr(st.layer, "device") is not it.getattr(st.w.objective, "device") and it.getattr(st.layer, "device") != it.getattr(st.w.objective, "device"):
            raise Wrong("the layer is on another device than its objective")
    attempt(r, "moving the layer", "device", loc, device)


def objectives(st):
    """objectives the layer keeps besides its own"""
    out = []
    for v in st.layer.attrs.values():
        for o in (v, *(v.attrs.values() if isinstance(v, Obj) else ())):
            if isinstance(o, Obj) and o.c.name == "Objective" and o is not st.w.objective and o not in out:
                out.append(o)
    return out


def auxiliary(a, r):
    """the problem made for direct loss minimization"""
    loc = method_loc(a, "TheseusLayer", "to")
    kw = {"backward_mode": "dlm"}

    def tensors_of(st, o):
        return {n: v for d in ("optim_vars", "aux_vars") for n, v in st.it.getattr(o, d).items()}

    def made():
        st = Stand(a)
        once(st, {n: st.w.fresh(n) for n in st.w.names}, dict(kw))
        made = objectives(st)
        if not made:
            return
        for o in made:
            own = {id(st.w.vars[n]) for n in st.w.names}
            for n, v in tensors_of(st, o).items():
                if id(v) in own:
                    raise Wrong(f"the auxiliary problem uses the layer's variable {n}")
        once(st, {n: st.w.fresh(n) for n in st.w.names}, dict(kw))
        if [id(o) for o in objectives(st)] != [id(o) for o in made]:
            raise Wrong("every call makes another auxiliary problem")
        once(st, {n: st.w.fresh(n) for n in st.w.names})
    attempt(r, "calls are independent", "auxiliary problem", method_loc(a, "TheseusLayer", "forward"), made)
    for when in ("before", "after"):
        def moved():
            st = Stand(a)
            it = st.it
            if when == "after":
                once(st, {n: st.w.fresh(n) for n in st.w.names}, dict(kw))
            st.w.s.do(st.layer, "to", it.ext("torch.float32"))
            once(st, {n: st.w.s.do(st.w.fresh(n), "to", it.ext("torch.float32")) for n in st.w.names}, dict(kw))
            for o in objectives(st):
                for n, v in tensors_of(st, o).items():
                    t = it.getattr(v, "tensor")
                    if t.dtype != "float32":
                        raise Wrong(f"{n} of the auxiliary problem stays {t.dtype}")
        attempt(r, "moving the layer", f"auxiliary problem made {'and then' if when == 'after' else 'when'} moved", loc, moved)


def check(a, r):
    r.assumptions = ["torch.nn.Module stores attributes and moves its own parameters"]
    r.parallel(a, [(inputs, ()), (auxiliary, ()), (arguments, ()), (histories, ()), (moving, ()), (sense.reordered, (method_loc(a, "TheseusLayer", "forward"),))])
