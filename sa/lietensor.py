"""LieTensor, the tensor subclass of torchlie. An instance is a stand-in holding its raw tensor; every method and operator is interpreted
and must agree with the function of the group library on the raw tensors (documented in torchlie/README.md)."""
from . import cases as C
from . import tensor as tn
from .comp import Unknown
from .interp import Cls, Mod, Native, Obj, Raised, Ten
from .jac import Wrong, attempt, same

LOC = "torchlie/torchlie/lie_tensor.py"


class Lie:
    def __init__(self, a, group):
        s = self.s = C.Setup(a)
        it = self.it = s.it
        self.cls = it.getattr(Mod(it.p.modules["torchlie.lie_tensor"]), "LieTensor")
        types = Mod(it.p.modules["torchlie.types"])
        self.types = {n: it.getattr(types, n) for n in ("SE3", "SO3")}
        self.type = self.types[group]
        self.group = group
        self.lib = it.getattr(self.type, "_fn_lib")

        def from_tensor(*args, **kw):
            got = [x for x in args if isinstance(x, (Ten, Obj))] + list(kw.values())
            if len(got) < 2 or not isinstance(got[-2], Ten):
                raise Unknown("from_tensor")
            return self.make(got[-2], got[-1])
        it.hooks[("LieTensor", "from_tensor")] = from_tensor
        for lt in self.types.values():      # assigned when the module is loaded
            if isinstance(lt, Obj):
                lt.attrs["_create_lie_tensor"] = Native(from_tensor, "_create_lie_tensor")

        # gradients are marked by a wrapper; replacing the data in place is torch's
        self.marked = []
        has = it.b_hasattr
        it.b_hasattr = lambda o, n: any(o is m for m in self.marked) if isinstance(o, Ten) and isinstance(n, str) and n.endswith("euclidean_grad") else has(o, n)

        def wrap(*args, **kw):
            t = next((x for x in args if isinstance(x, Ten)), None)
            if t is None:
                raise Unknown("gradient wrapper")
            return self.mark(t)
        it.hooks[("_EuclideanGrad", "__new__")] = wrap

        def put(*args, **kw):
            me, t = [x for x in args if isinstance(x, (Obj, Ten))][:2]
            if not isinstance(t, Obj):
                raise Raised("RuntimeError", "set_ of a plain tensor", it.here())
            me.attrs["raw"] = raw(t)
            return me
        it.hooks[("LieTensor", "set_")] = put

    def mark(self, t):
        self.marked.append(t)
        return t

    def make(self, t, lt):
        o = Obj(self.cls.c if isinstance(self.cls, Cls) else self.cls, {"ltype": lt, "raw": t})
        o.attrs["as_subclass"] = Native(lambda *x: o.attrs["raw"], "as_subclass")
        return o

    def lie(self, n, batch=2):
        return self.make(self.s.group(n, self.group, batch), self.type)

    def fn(self, name, *args, **kw):
        return self.it.call(self.it.getattr(self.lib, name), list(args), kw)


def raw(x):
    return x.attrs["raw"] if isinstance(x, Obj) and "raw" in x.attrs else x


# name, operands after self ("g" element, "v" tangent vector, "p" points, "m" of adjoint shape), result is a group element
OPS = [("log", "", False), ("inv", "", True), ("adj", "", False), ("compose", "g", True), ("transform", "p", False), ("untransform", "p", False),
       ("jlog", "", False), ("jinv", "", True), ("jcompose", "g", True), ("jtransform", "p", False), ("juntransform", "p", False)]


def agree(w, what, got, want, group):
    if not isinstance(got, (Obj, Ten)):
        raise Wrong(f"{what} returns {type(got).__name__}")
    if isinstance(got, Obj) != group:
        raise Wrong(f"{what} returns a {'LieTensor' if isinstance(got, Obj) else 'plain tensor'}")
    if group and w.it.getattr(got, "ltype") is not w.type:
        raise Wrong(f"{what} has another type")
    bad = same(raw(got), want, [w.s.w])
    if bad:
        raise Wrong(f"{what}: {bad}")


def operand(w, k, n="y"):
    d = 6 if w.group == "SE3" else 3
    return w.lie(n) if k == "g" else w.s.tensor(n, (2, d), lo=0.1) if k == "v" else w.s.tensor(n, (2, 3))


def operator(a, r, group, name, kinds, grp):
    def run():
        w = Lie(a, group)
        x = w.lie("x")
        ops = [operand(w, k) for k in kinds]
        got = w.s.do(x, name, *ops)
        raws = [raw(x), *map(raw, ops)]
        if name.startswith("j"):
            Js = []
            want = w.fn(name[1:], *raws, jacobians=Js)
            if not isinstance(got, (tuple, list)) or len(got) != 2:
                raise Wrong(f"{name} does not return the jacobians and the value")
            agree(w, name, got[1], want, grp)
            if len(got[0]) != len(Js):
                raise Wrong(f"{len(got[0])} jacobians instead of {len(Js)}")
            for i, (p, q) in enumerate(zip(got[0], Js)):
                agree(w, f"jacobian {i} of {name}", p, q, False)
        else:
            agree(w, name, got, w.fn(name, *raws), grp)
    attempt(r, "tensor subclass", f"{group}.{name}", LOC, run)


def others(a, r, group):
    def case(name):
        def deco(fn):
            attempt(r, "tensor subclass", f"{group} {name}", LOC, lambda: fn(Lie(a, group)))
        return deco

    @case("x * y")
    def _(w):
        x, y = w.lie("x"), w.lie("y")
        agree(w, "x * y", w.s.do(x, "__mul__", y), w.fn("compose", raw(x), raw(y)), True)

    @case("x @ p")
    def _(w):
        x, p = w.lie("x"), operand(w, "p")
        agree(w, "x @ p", w.s.do(x, "__matmul__", p), w.fn("transform", raw(x), p), False)

    @case("retract")
    def _(w):
        x, v = w.lie("x"), operand(w, "v", "v")
        agree(w, "retract", w.s.do(x, "retract", v), w.fn("compose", raw(x), w.fn("exp", v)), True)

    @case("local")
    def _(w):
        x, y = w.lie("x"), w.lie("y")
        agree(w, "local", w.s.do(x, "local", y), w.fn("log", w.fn("compose", w.fn("inv", raw(x)), raw(y))), False)

    def refused(name, other):
        @case(f"{name} with {other}")
        def _(w):
            x = w.lie("x")
            y = w.s.tensor("y", tuple(raw(x).shape)) if other == "a plain tensor" else w.make(raw(w.lie("y")), w.types["SO3" if group == "SE3" else "SE3"])
            try:
                w.s.do(x, name, y)
            except Raised as e:
                if e.name in ("TypeError", "ValueError"):
                    return
                raise
            raise Wrong(f"{name} accepts {other}")
    for name in ("__mul__", "local"):
        refused(name, "a plain tensor")
    for name in ("__mul__", "local", "compose", "jcompose"):
        refused(name, "another type")

    def moved(name, args, grad):
        """the element moves along the projected gradient; plain tensors are refused"""
        @case(name)
        def _(w):
            for which in range(len(args)):
                x = w.lie(f"x{which}")
                old = raw(x)
                ts = [w.s.tensor(f"{n}{which}", tuple(old.shape), lo=0.3) for n in args]
                w.mark(ts[which])
                for kw in ({}, {"alpha" if name == "add_" else "value": -0.25}):
                    k = next(iter(kw.values()), 1.0)
                    g = grad(w.it, *ts)
                    want = w.fn("compose", old, w.fn("exp", w.it.binop("*", w.fn("left_project", old, g), k)))
                    got = w.s.do(x, name, *ts, **kw)
                    if got is not x:
                        raise Wrong(f"{name} does not return the tensor")
                    agree(w, f"{name} {kw or ''}", x, want, True)
                    x.attrs["raw"] = old

        @case(name + " of a plain tensor")
        def _(w):
            x = w.lie("x")
            try:
                w.s.do(x, name, *[w.s.tensor(n, tuple(raw(x).shape), lo=0.3) for n in args])
            except Raised as e:
                if e.name in ("RuntimeError", "TypeError", "ValueError"):
                    return
                raise
            raise Wrong(f"{name} accepts a tensor which is no gradient")
    moved("add_", "u", lambda it, u: u)
    moved("addcmul_", "uv", lambda it, u, v: it.binop("*", u, v))
    moved("addcdiv_", "uv", lambda it, u, v: it.binop("/", u, v))

    for name, shape in (("left_act", (2, 3, 2)), ("left_project", None)):
        @case(name)
        def _(w):
            x = w.lie("x")
            m = w.s.tensor("m", shape or tuple(raw(x).shape))
            agree(w, name, w.s.do(x, name, m), w.fn(name, raw(x), m), False)

    for name in ("vee", "lift", "project"):
        @case("type." + name)
        def _(w):
            d = 6 if group == "SE3" else 3
            m = w.fn("hat", w.s.tensor("v", (2, d))) if name == "vee" else w.s.tensor("m", (2, d) if name == "lift" else (2, 3, 4 if group == "SE3" else 3))
            agree(w, name, w.s.do(w.type, name, m), w.fn(name, m), False)

    for name in ("exp", "hat", "jexp"):
        @case("type." + name)
        def _(w):
            v = operand(w, "v", "v")
            got = w.s.do(w.type, name, v)
            if name == "jexp":
                Js = []
                want = w.fn("exp", v, jacobians=Js)
                agree(w, name, got[1], want, True)
                agree(w, "jacobian of exp", got[0][0], Js[0], False)
            else:
                agree(w, name, got, w.fn(name, v), name == "exp")


def jobs(a):
    return [(operator, (g, *o)) for g in ("SE3", "SO3") for o in OPS] + [(others, (g,)) for g in ("SE3", "SO3")]
