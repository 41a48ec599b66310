"""Autodiff cost functions. Client error functions (algebraic ones, one through the group operations) are followed symbolically through
error() and jacobians() in the three modes; torch's own differentiation is represented by its documented meaning, the derivative of
the function it is given at the tensors it is given. The blocks that come out must be the derivative of error() with respect to each
optimization variable, whatever the batch sizes, and the variables must hold what they held before, on every exit."""
from sa import cases as C
from sa import geom as g
from sa import normal as nf
from sa import tensor as tn
from sa.geom import cls_of
from sa.interp import Cls, Native, Raised, Ten
from sa.jac import Wrong, attempt, residuals, shapes, ten_of, vanish, entries, same
from sa.comp import Malformed, Unknown
from sa.state import accepted
from checks.C29 import reach
from checks.C40 import method_loc

ASSUMPTIONS = ["torch.autograd.functional.jacobian, torch.func.jacrev and vmap return the derivative of the function they are given, with torch's documented layout"]

CLIENT = '''
import torch


class Errors:
    def __init__(self, fail=None):
        self.calls = []
        self.fail = fail

    def record(self, optim_vars, aux_vars):
        self.calls.append((tuple(optim_vars), tuple(aux_vars)))
        if self.fail is not None and len(self.calls) == self.fail:
            raise RuntimeError("the client's own failure")

    def product(self, optim_vars, aux_vars):
        self.record(optim_vars, aux_vars)
        x, v, y = optim_vars
        t, u = aux_vars
        a = x.tensor[:, :1] * v.tensor[:, 1:2] * t.tensor[:, 2:]
        b = x.tensor[:, 1:2] - u.tensor * v.tensor[:, :1] * v.tensor[:, :1]
        c = y.tensor * u.tensor + x.tensor[:, :1] * t.tensor[:, :1]
        d = y.tensor * y.tensor * x.tensor[:, 1:2] + 0.0 * v.tensor[:, :1] * t.tensor[:, 1:2]
        return torch.cat([a, b, c, d], dim=1)

    def single(self, optim_vars, aux_vars):
        self.record(optim_vars, aux_vars)
        (x,) = optim_vars
        return x.tensor[:, :1] * x.tensor[:, 1:2]

    def frame(self, optim_vars, aux_vars):
        self.record(optim_vars, aux_vars)
        pose, p = optim_vars
        (t,) = aux_vars
        return pose.transform_to(p).tensor - t.tensor
'''


def rename(s, t):
    """fresh symbols holding the values of t, and the way back"""
    s.fresh = getattr(s, "fresh", 0) + 1
    name = f"d{s.fresh}"
    new = tn.symbols(name, t.shape, t.dtype)
    env = {}
    for i, v in entries(t).items():
        p = tn.poly(v)
        k = (name, *i)
        s.w[k] = nf.value(p, s.w)
        env[k] = p
    s.marked.append((name, new))
    return new, env


def derivative(s, fn, tensors, args=None):
    """value and its derivative with respect to each tensor (torch layout: output shape + input shape)"""
    pairs = [rename(s, t) for t in tensors]
    env = {}
    for _, e in pairs:
        env.update(e)
    n0 = len(s.client.attrs["calls"])
    mode, follow = s.it.mode, tn.GRAD[0]
    s.it.mode = tn.GRAD[0] = True       # torch differentiates with gradients enabled
    try:
        out = fn([n for n, _ in pairs])
    finally:
        s.it.mode, tn.GRAD[0] = mode, follow
    s.inside += s.client.attrs["calls"][n0:]
    if isinstance(out, (tuple, list)):
        raise Unknown("several outputs")
    res = []
    f = entries(out)
    for (new, e), t in zip(pairs, tensors):
        data = {}
        by = {}
        for i in entries(t):
            k0 = next(iter(tn.poly(entries(new)[i])))[0][0]
            by[i] = k0
        for o, v in f.items():
            p = tn.poly(v)
            for i, k0 in by.items():
                d = nf.derive(p, lambda k, k0=k0: {(): 1} if k == k0 else None)
                data[(*o, *i)] = s.it.region.rebuild(d, env)
        rows = nest((*out.shape, *t.shape), data)
        res.append(tn.of_rows(rows, t.dtype))
    return res


def nest(shape, data, at=()):
    if not shape:
        return data[at]
    return [nest(shape[1:], data, (*at, i)) for i in range(shape[0])]


def slice_of(it, t, b):
    return tn.index(t, b)


def hooks(box):
    def jac(it, fn, inputs, **kw):
        s = box["s"]
        box["options"].append(kw)
        one = isinstance(inputs, Ten)
        ins = [inputs] if one else list(inputs)
        out = derivative(s, lambda ts: it.call(fn, list(ts), {}), ins)
        return out[0] if one else tuple(out)

    def jacrev(it, fn, argnums=0, **kw):
        def run(*args):
            s = box["s"]
            nums = [argnums] if isinstance(argnums, int) else list(argnums)
            per = []
            for n in nums:
                arg = args[n]
                one = isinstance(arg, Ten)
                ins = [arg] if one else list(arg)

                def call(ts, n=n, arg=arg, one=one):
                    return it.call(fn, [*args[:n], ts[0] if one else type(arg)(ts), *args[n + 1:]], {})
                out = derivative(s, call, ins)
                per.append(out[0] if one else tuple(out))
            return per[0] if isinstance(argnums, int) else tuple(per)
        return Native(run, "jacrev")

    def vmap(it, fn, in_dims=0, out_dims=0, **kw):
        if in_dims != 0 or out_dims != 0:
            raise Unknown("vmap dimensions")

        def leaves(x):
            return [x] if isinstance(x, Ten) else [y for z in x for y in leaves(z)] if isinstance(x, (tuple, list)) else []

        def at(x, b):
            return slice_of(it, x, b) if isinstance(x, Ten) else type(x)(at(y, b) for y in x)

        def stack(xs):
            if isinstance(xs[0], Ten):
                return it.torch_fn("stack", [list(xs)], {"dim": 0})
            return type(xs[0])(stack([x[i] for x in xs]) for i in range(len(xs[0])))

        def run(*args):
            sizes = {t.shape[0] for t in leaves(args)}
            if len(sizes) != 1:
                raise Raised("ValueError", f"vmap: inconsistent sizes {sorted(sizes)}", it.here())
            box["batched"] = box.get("batched", 0) + 1
            held = [t for _, t in reach(box["cost"], "")] if "cost" in box else []
            try:
                return stack([it.call(fn, [at(x, b) for x in args], {}) for b in range(sizes.pop())])
            finally:
                box["batched"] -= 1
                # what the cost function came to hold inside cannot be used outside
                if "cost" in box:
                    box.setdefault("born", []).extend(t for _, t in reach(box["cost"], "") if not any(t is h for h in held))
        return Native(run, "vmap")
    out = {"torch.autograd.functional.jacobian": jac, "torch._C._functorch.is_batchedtensor": lambda it, t: box.get("batched", 0) > 0}
    for m in ("torch.func.", "functorch.", "torch._functorch."):
        out[m + "jacrev"] = jacrev
        out[m + "vmap"] = vmap
        out[m + "jacfwd"] = jacrev
    return out


MODES = ("dense", "loop_batch", "vmap")
FUNCTIONS = {"product": (("vec2", "vec2", "vec1"), ((3,), (1,)), 4), "single": (("vec2",), (), 1),
             "frame3": (("SE3", "Point3"), ((3,),), 3), "frame2": (("SE2", "Point2"), ((2,),), 2)}
NAMES = ("x", "v", "y")
AUXES = ("t", "u")


class Cost:
    def __init__(self, a, which, mode, sizes=None, fail=None, batch=2, **kw):
        self.box = {"options": [], "s": None}
        s = self.s = C.Setup(a, hooks=hooks(self.box), sizes=sizes)
        s.marked, s.inside = [], []
        self.box["s"] = s
        kinds, aux, self.dim = FUNCTIONS[which]
        self.names = NAMES[:len(kinds)]
        self.optim = [s.var(n, k, batch) for n, k in zip(self.names, kinds)]
        self.aux = [s.aux(n, (batch, *sh)) for n, sh in zip(AUXES, aux)]
        self.client = s.it.call(s.it.define(CLIENT, "theseus.core.cost_function")["Errors"], [], {"fail": fail})
        s.client = self.client
        self.fn = s.it.getattr(self.client, which.rstrip("23"))
        self.cost = s.new("AutoDiffCostFunction", self.optim, self.fn, self.dim, s.weight(), aux_vars=self.aux, autograd_mode=mode, **kw)
        self.box["cost"] = self.cost

    @property
    def calls(self):
        return self.client.attrs["calls"]

    def held(self):
        return [(v, s_name, ten_of(v), dict(entries(ten_of(v)))) for v, s_name in zip([*self.optim, *self.aux], [*self.names, *AUXES])]

    def unchanged(self, before, when):
        for v, n, t, data in before:
            if entries(ten_of(v)) != data:
                raise Wrong(f"variable {n} holds other values {when}")
            if ten_of(v) is not t:
                raise Wrong(f"variable {n} holds another tensor {when}")

    def escaped(self, when):
        own = {id(t) for _, t in self.s.marked}
        names = {n for n, _ in self.s.marked}
        for path, t in reach(self.cost, "the cost function"):
            if any(t is b for b in self.box.get("born", [])):
                raise Wrong(f"{path} holds a tensor made inside vmap {when}")
            for v in entries(t).values():
                if isinstance(v, dict) and any(k[0] in names for m in v for k, _ in m if isinstance(k, tuple)):
                    raise Wrong(f"{path} holds a tensor of the differentiation {when}")


def right(a, which, mode, sizes=None, **kw):
    c = Cost(a, which, mode, sizes, **kw)
    s = c.s
    before = c.held()
    e0 = accepted("error()", lambda: s.do(c.cost, "error"))
    first = c.calls[-1]
    check_args(c, first, "error()")
    J, e = accepted("jacobians()", lambda: s.do(c.cost, "jacobians"))
    c.unchanged(before, "after jacobians()")
    pts = [s.w, s.points(11), s.points(12)]
    bad = same(ten_of(e), ten_of(e0), pts[:1])
    if bad:
        raise Wrong("the error returned with the jacobians is another one: " + bad)
    dofs = {n: s.operands[n][0].dof for n in c.names}
    shapes(ten_of(e), J, c.names, dofs)
    for n, j in zip(c.names, J):
        if j.shape[0] != ten_of(e).shape[0]:
            raise Wrong(f"jacobian for {n} has batch size {j.shape[0]} instead of {ten_of(e).shape[0]}")
    bad = vanish((((f"element {b}, operand {n}, direction {k}, output {r}"), q) for b, n, k, r, q in residuals(s.operands, ten_of(e), J, c.names, None)), pts)
    if bad:
        raise Wrong(f"the jacobian is not the derivative of error(): {bad[0]} is off by {bad[1]:.2g}")
    for call in s.inside:
        if len(call[0]) != len(c.optim) or len(call[1]) != len(c.aux):
            raise Wrong("the client's function is given another number of variables for the jacobians")
        for v, o in zip([*call[0], *call[1]], [*c.optim, *c.aux]):
            if v is o and (o in c.optim or mode == "vmap"):
                raise Wrong("the client's function is given a registered variable for the jacobians")
            if v.c is not o.c:
                raise Wrong("the client's function is given variables of other classes for the jacobians")
    return c, J


def check_args(c, call, what):
    got = [*call[0], *call[1]]
    want = [*c.optim, *c.aux]
    if len(call[0]) != len(c.optim) or len(got) != len(want):
        raise Wrong(f"{what} gives the client's function another number of variables")
    for v, o, n in zip(got, want, [*c.names, *AUXES]):
        if entries(ten_of(v)) != entries(ten_of(o)):
            raise Wrong(f"{what} gives the client's function another value for {n}")


def derivatives(a, r):
    loc = method_loc(a, "AutoDiffCostFunction", "jacobians")
    for mode in MODES:
        for which in FUNCTIONS:
            attempt(r, "jacobians-are-the-derivative", f"{mode}/{which}", loc, lambda: right(a, which, mode))
        attempt(r, "jacobians-are-the-derivative", f"{mode}/batch of one", loc, lambda: right(a, "product", mode, batch=1))
        attempt(r, "jacobians-are-the-derivative", f"{mode}/no batch for the auxiliary variables", loc, lambda: right(a, "product", mode, {"t": 1, "u": 1}))
        attempt(r, "jacobians-are-the-derivative", f"{mode}/one auxiliary variable without batch", loc, lambda: right(a, "product", mode, {"u": 1}))
        if mode != "dense":      # a documented restriction of torch's dense jacobian: one entry per output row and input row
            for small in ({"x": 1}, {"v": 1, "t": 1}, {"x": 1, "v": 1, "y": 1}):
                attempt(r, "jacobians-are-the-derivative", f"{mode}/without batch: {','.join(small)}", loc, lambda: right(a, "product", mode, small))


def histories(a, r):
    loc = method_loc(a, "AutoDiffCostFunction", "jacobians")
    for mode in MODES:
        def again():
            """new values, then again: nothing of the first evaluation may remain"""
            c, _ = right(a, "product", mode)
            s = c.s
            for v, n in zip([*c.optim, *c.aux], [*c.names, *AUXES]):
                s.do(v, "update", s.tensor(n + "2", ten_of(v).shape))
            e0 = s.do(c.cost, "error")
            J, e = s.do(c.cost, "jacobians")
            bad = same(ten_of(e), ten_of(e0), [s.w])
            if bad:
                raise Wrong("after an update, the error returned with the jacobians is another one: " + bad)
            ops = {n: (C.Space("vec", ten_of(v).shape[1]), ten_of(v), None) for v, n in zip(c.optim, c.names)}
            bad = vanish(((f"operand {n}, direction {k}, output {q_}", q) for b, n, k, q_, q in moved(ops, ten_of(e), J, c.names)), [s.w])
            if bad:
                raise Wrong(f"after an update, the jacobian is not the derivative of error(): {bad[0]} is off by {bad[1]:.2g}")
        attempt(r, "current-values", mode, loc, again)

        def larger():
            """the batch grows between two evaluations"""
            c, _ = right(a, "product", mode, batch=1)
            s = c.s
            for v, n in zip([*c.optim, *c.aux], [*c.names, *AUXES]):
                s.do(v, "update", s.tensor(n + "2", (3, *ten_of(v).shape[1:])))
            J, e = accepted("jacobians() with a larger batch", lambda: s.do(c.cost, "jacobians"))
            ops = {n: (C.Space("vec", ten_of(v).shape[1]), ten_of(v), None) for v, n in zip(c.optim, c.names)}
            bad = vanish(((f"operand {n}, direction {k}, output {q_}", q) for b, n, k, q_, q in moved(ops, ten_of(e), J, c.names)), [s.w])
            if bad:
                raise Wrong(f"with a larger batch, the jacobian is not the derivative of error(): {bad[0]} is off by {bad[1]:.2g}")
        attempt(r, "current-values", mode + "/larger batch", loc, larger)

        for n in (2, 3):
            def fails():
                """the client's function raises while the derivative is computed"""
                c = Cost(a, "product", mode, fail=n)
                s = c.s
                before = c.held()
                try:
                    s.do(c.cost, "jacobians")
                except Raised as e:
                    if e.name != "RuntimeError":
                        raise Wrong(f"the client's exception becomes {e.name}")
                    c.unchanged(before, "after the client's function raised")
                    if mode == "vmap":
                        c.escaped("after the client's function raised")
                    J, e = accepted("jacobians() after a failure", lambda: s.do(c.cost, "jacobians"))
                    bad = vanish(((f"operand {m}, direction {k}, output {q_}", q) for b, m, k, q_, q in residuals(s.operands, ten_of(e), J, c.names, None)), [s.w])
                    if bad:
                        raise Wrong(f"after a failure, the jacobian is not the derivative: {bad[0]} is off by {bad[1]:.2g}")
            attempt(r, "restored-on-every-exit", f"{mode}/call {n}", loc, fails)

        def leaves():
            c = Cost(a, "product", mode)
            c.s.do(c.cost, "jacobians")
            if mode == "vmap":
                c.escaped("after jacobians()")
        attempt(r, "restored-on-every-exit", mode, loc, leaves)

        def copied():
            c = Cost(a, "product", mode)
            s = c.s
            s.do(c.cost, "jacobians")
            new = s.do(c.cost, "copy", new_name="copy")
            mine = [*s.it.getattr(c.cost, "optim_vars"), *s.it.getattr(c.cost, "aux_vars")]
            theirs = [*s.it.iterate(s.it.getattr(new, "optim_vars")), *s.it.iterate(s.it.getattr(new, "aux_vars"))]
            before = c.held()
            for v in theirs:
                if any(v is m for m in mine):
                    raise Wrong("the copy shares a variable with the original")
                s.do(v, "update", s.tensor(f"copy{len(s.w)}", ten_of(v).shape))
            J, e = accepted("jacobians() of a copy", lambda: s.do(new, "jacobians"))
            c.unchanged(before, "after evaluating a copy")
            n_opt = len(c.optim)
            ops = {n: (C.Space("vec", ten_of(v).shape[1]), ten_of(v), None) for v, n in zip(theirs[:n_opt], c.names)}
            bad = vanish(((f"operand {m}, direction {k}, output {q_}", q) for b, m, k, q_, q in moved(ops, ten_of(e), J, c.names)), [s.w])
            if bad:
                raise Wrong(f"the jacobian of a copy is not the derivative of its error(): {bad[0]} is off by {bad[1]:.2g}")
            J0, e0 = s.do(c.cost, "jacobians")
            bad = vanish(((f"operand {m}, direction {k}, output {q_}", q) for b, m, k, q_, q in residuals(s.operands, ten_of(e0), J0, c.names, None)), [s.w])
            if bad:
                raise Wrong(f"after evaluating a copy, the jacobian of the original is off: {bad[0]} by {bad[1]:.2g}")
        attempt(r, "copies-independent", mode, loc, copied)
    for mode in ("dense", "loop_batch"):
        def options():
            kw = dict(autograd_strict=True, autograd_vectorize=True, autograd_create_graph=False, autograd_strategy="forward-mode")
            for k, v in (*kw.items(), (None, None)):
                given = {k: v} if k else {}
                c = Cost(a, "product", mode, **given)
                for cost, what in ((c.cost, "the jacobian"), (c.s.do(c.cost, "copy"), "the jacobian of a copy")):
                    del c.box["options"][:]
                    c.s.do(cost, "jacobians")
                    want = {"create_graph": True, "strict": False, "vectorize": False, "strategy": "reverse-mode"}
                    if k:
                        want[k[9:]] = v
                    for o in c.box["options"]:
                        for q, d in (("create_graph", False), ("strict", False), ("vectorize", False), ("strategy", "reverse-mode")):
                            if o.get(q, d) != want[q]:
                                raise Wrong(f"{what} is computed with {q}={o.get(q, d)} instead of {want[q]}")
        attempt(r, "options-honoured", mode, loc, options)


def moved(ops, F, J, names):
    """residuals for vector variables whose entries are symbols"""
    f = entries(F)
    for n, j in zip(names, J):
        _, t, _ = ops[n]
        jd, td = entries(j), entries(t)
        for b in range(F.shape[0]):
            for k in range(t.shape[1]):
                k0 = next(iter(tn.poly(td[(b if t.shape[0] > 1 else 0, k)])))[0][0]
                for q_ in range(F.shape[1]):
                    d = nf.derive(tn.poly(f[(b, q_)]), lambda x, k0=k0: {(): 1} if x == k0 else None)
                    yield b, n, k, q_, C_sub(d, jd[(b, q_, k)])


def C_sub(d, v):
    from sa.algebra import add
    return add(d, tn.poly(v), -1)


def wrong_dimension(a, r):
    def run():
        c = Cost(a, "product", "vmap")
        c.cost.attrs["_dim"] = 3
        for m in ("error", "jacobians"):
            try:
                c.s.do(c.cost, m)
            except Raised as e:
                if e.name != "ValueError":
                    raise Wrong(f"a function of another dimension raises {e.name}")
                continue
            raise Wrong("a function of another dimension than declared is accepted")
    attempt(r, "dimension-checked", "AutoDiffCostFunction", method_loc(a, "AutoDiffCostFunction", "error"), run)


def check(a, r):
    r.parallel(a, [(f, ()) for f in (derivatives, histories, wrong_dimension)])
