"""Histories of a small objective, followed symbolically: what is stored where, under which name, and when it is refused."""
from . import cases as C
from . import geom as g
from . import system as sy
from . import tensor as tn
from .geom import cls_of
from .interp import Cls, Obj, Raised, Ten
from .jac import Wrong, attempt, ten_of
from checks.C40 import method_loc

BLOCKED = '''
class Aux(CostWeight):
    def __init__(self, scale, name=None):
        super().__init__(name=name)
        self.scale = scale
        self.register_aux_var("scale")

    def weight_error(self, error):
        return error * self.scale.tensor

    def weight_jacobians_and_error(self, jacobians, error):
        return [j * self.scale.tensor.view(-1, 1, 1) for j in jacobians], error * self.scale.tensor

    def is_zero(self):
        return (self.scale.tensor == 0).squeeze(1)

    def _copy_impl(self, new_name=None):
        return Aux(self.scale.copy(), name=new_name)
'''


class World:
    """optimization variables x (2) and y (1); auxiliary variables J, e of the cost functions and p, q of their weights"""

    def __init__(self, a, sizes=None, hooks=None):
        self.warned = []

        def warn(it, *args, **kw):
            self.warned.append(args[0] if args else None)
        hk = dict(sy.hooks())
        hk["warnings.warn"] = warn
        hk.update(hooks or {})
        s = self.s = C.Setup(a, hooks=hk, sizes=sizes)
        it = self.it = s.it
        block = it.define(sy.BLOCK, "theseus.core.cost_function")["Block"]
        weights = it.define(BLOCKED, "theseus.core.cost_weight")
        self.objective = s.new("Objective", dtype=it.ext("torch." + s.dtype))
        self.vars = {"x": s.var("x", "vec2"), "y": s.var("y", "vec1")}
        for i, (names, w) in enumerate(((("x", "y"), "q"), (("y",), "p"))):
            J = [s.aux(f"J{i}_{k}", (2, 2, 2 if n == "x" else 1)) for k, n in enumerate(names)]
            e = s.aux(f"e{i}", (2, 2))
            weight = it.call(weights["Aux"], [s.aux(w, (2, 1), lo=0.5)], {"name": f"w{i}"})
            c = it.call(block, [[self.vars[n] for n in names], J, e, weight], {"name": f"c{i}"})
            s.do(self.objective, "add", c)
            setattr(self, f"c{i}", c)
        self.vars.update(s.vars)
        self.names = list(s.vars)
        self.roles = {"optimization variable": "x", "auxiliary variable": "e0", "variable of a weight": "p"}

    def shape(self, n):
        return tuple(ten_of(self.vars[n]).shape)

    def ten(self, n):
        return self.it.getattr(self.vars[n], "tensor")

    def fresh(self, n, batch=None, shape=None, dtype=None):
        sh = shape or (batch or self.shape(n)[0], *self.shape(n)[1:])
        t = self.s.tensor(f"{n}new", sh)
        if dtype:
            t = self.it.torch_fn("zeros", [*sh], {"dtype": self.it.ext("torch." + dtype)})
        return t

    def update(self, d, **kw):
        return self.s.do(self.objective, "update", d, **kw)

    def count(self, n):
        return self.vars[n].attrs.get("_num_updates")

    def state(self):
        return {n: (self.ten(n), dict(self.ten(n).arr().data)) for n in self.names}

    def batch(self):
        return self.it.getattr(self.objective, "batch_size")


def refused(w, what, fn, kinds=("ValueError",)):
    try:
        fn()
    except Raised as ex:
        if ex.name not in kinds:
            raise Wrong(f"{what} raises {ex.name} ({str(ex.msg)[:60]})")
        return
    raise Wrong(f"{what} is accepted")


def accepted(what, fn):
    try:
        return fn()
    except Raised as ex:
        raise Wrong(f"{what} raises {ex.name} ({str(ex.msg)[:60]}) in {ex.where}")


def same_entries(what, t, want):
    got = ten_of(t).arr().data
    if set(got) != set(want):
        raise Wrong(f"{what} has another shape")
    for i in want:
        if tn.poly(got[i]) != tn.poly(want[i]):
            raise Wrong(f"{what} differs in entry {i}")


# ---- C06

def updates(a, r):
    loc = method_loc(a, "Objective", "update")

    def one(role, n):
        def run():
            w = World(a)
            before, counts = w.state(), {m: w.count(m) for m in w.names}
            new = w.fresh(n)
            accepted("a valid tensor", lambda: w.update({n: new}))
            if w.ten(n) is not new and w.ten(n).arr().data != new.arr().data:
                raise Wrong(f"the tensor given for {n} is not stored")
            same_entries(f"the replaced tensor of {n}", before[n][0], before[n][1])
            for m in w.names:
                if m != n:
                    if w.ten(m) is not before[m][0]:
                        raise Wrong(f"updating {n} replaces the tensor of {m}")
                    same_entries(f"the tensor of {m}", w.ten(m), before[m][1])
            if counts[n] is not None and w.count(n) == counts[n]:
                raise Wrong(f"the update of {n} is not counted")
        attempt(r, "stored-in-the-named-variable", role, loc, run)

        def masked(bits):
            def run():
                w = World(a)
                old, new = w.state()[n], w.fresh(n)
                c0 = w.count(n)
                mask = w.it.torch_fn("tensor", [list(bits)], {})
                accepted("a masked update", lambda: w.update({n: new}, batch_ignore_mask=mask))
                want = {i: (old[1][i] if bits[i[0]] else new.arr().data[i]) for i in old[1]}
                same_entries(f"{n} after an update ignoring {bits}", w.ten(n), want)
                same_entries(f"the replaced tensor of {n}", old[0], old[1])
                if c0 is not None and w.count(n) == c0:
                    raise Wrong(f"a masked update of {n} is not counted")
            return run
        for bits in ((True, False), (False, True), (False, False), (True, True)):
            attempt(r, "ignored-entries-kept", f"{role}/{''.join(str(int(b)) for b in bits)}", loc, masked(bits))

        def bad(what, **kw):
            def run():
                w = World(a)
                before = w.state()
                refused(w, f"a tensor of {what} for {n}", lambda: w.update({n: w.fresh(n, **kw)}))
                for m in w.names:
                    if w.ten(m) is not before[m][0]:
                        raise Wrong(f"a refused tensor of {what} replaces {m}")
            return run
        w0 = World(a)
        sh = w0.shape(n)
        for what, kw in (("one dimension", dict(shape=(2,))), ("another dtype", dict(dtype="float32")),
                         ("another last dimension", dict(shape=(*sh[:-1], sh[-1] + 1))), ("another rank", dict(shape=(*sh, 1))),
                         ("a later dimension of one", dict(shape=(*sh[:-1], 1)) if sh[-1] != 1 else dict(shape=(*sh[:-1], 3)))):
            attempt(r, "invalid-tensor-refused", f"{role}/{what}", loc, bad(what, **kw))

        def device():
            w = World(a)
            t = w.fresh(n)
            for m in w.names:
                w.ten(m).store.dev = None
            t.store.dev = "another device"
            refused(w, f"a tensor on another device for {n}", lambda: w.update({n: t}))
        attempt(r, "invalid-tensor-refused", f"{role}/device", loc, device)
    for role, n in World(a).roles.items():
        one(role, n)

    def several():
        w = World(a)
        new = {n: w.fresh(n) for n in w.names}
        accepted("valid tensors", lambda: w.update(dict(new)))
        for n in w.names:
            same_entries(f"{n} after updating everything", w.ten(n), new[n].arr().data)
    attempt(r, "stored-in-the-named-variable", "all at once", loc, several)

    def unknown():
        w = World(a)
        before = w.state()
        n0 = len(w.warned)
        new = w.fresh("x")
        accepted("an unknown name", lambda: w.update({"nobody": w.fresh("y"), "x": new}))
        if len(w.warned) == n0:
            raise Wrong("an unknown name is not reported")
        same_entries("x, given after an unknown name", w.ten("x"), new.arr().data)
        for m in w.names:
            if m != "x" and w.ten(m) is not before[m][0]:
                raise Wrong(f"an unknown name replaces the tensor of {m}")
    attempt(r, "unknown-name-only-warned", "Objective.update", loc, unknown)

    def nothing():
        w = World(a)
        before = w.state()
        for d in ({}, None):
            accepted("an empty update", lambda: w.update(d))
        for m in w.names:
            if w.ten(m) is not before[m][0]:
                raise Wrong(f"an empty update replaces the tensor of {m}")
        if w.batch() != 2:
            raise Wrong(f"batch size {w.batch()} instead of 2")
    attempt(r, "stored-in-the-named-variable", "nothing given", loc, nothing)


TABLE = [({"x": 1, "y": 1}, 1, 1), ({"x": 3, "y": 3}, 3, 3), ({"x": 3}, 1, 3), ({"y": 3}, 1, 3), ({"J0_0": 3}, 1, 3), ({"e1": 3}, 1, 3),
         ({"p": 3}, 1, 3), ({"x": 1, "y": 1}, 4, 4), ({"x": 1}, 2, 2), ({"e0": 1}, 2, 2),
         ({"x": 2}, 3, None), ({"e0": 2}, 3, None), ({"p": 2}, 3, None), ({"x": 2, "y": 1}, 3, None), ({"x": 3, "e0": 2}, 1, None),
         ({"J1_0": 2, "y": 1}, 3, None), ({"x": 1, "p": 4}, 2, None),
         ({"x": 2}, 4, None), ({"x": 4}, 2, None), ({"e0": 6}, 3, None), ({"p": 6, "y": 1}, 2, None), ({"x": 2, "y": 4, "e1": 8}, 1, None)]


def batch_sizes(a, r):
    loc = method_loc(a, "Objective", "update")
    for special, rest, want in TABLE:
        def run(special=special, rest=rest, want=want):
            w = World(a)
            new = {n: w.fresh(n, batch=special.get(n, rest)) for n in w.names}
            desc = f"sizes {special}, {rest} elsewhere"
            if want is None:
                refused(w, desc, lambda: w.update(new))
            else:
                accepted(desc, lambda: w.update(new))
                if w.batch() != want:
                    raise Wrong(f"{desc}: batch size {w.batch()} instead of {want}")
        attempt(r, "batch-size-resolved", f"{special}/{rest}", loc, run)

    def change():
        """a second update is judged by the values after it, including those not given"""
        w = World(a)
        refused(w, "a batch of 3 for one variable of a problem of 2", lambda: w.update({"x": w.fresh("x", batch=3)}))
        w = World(a)
        accepted("a batch of one", lambda: w.update({"x": w.fresh("x", batch=1)}))
        accepted("the original batch", lambda: w.update({"x": w.fresh("x", batch=2)}))
        if w.batch() != 2:
            raise Wrong("batch size not resolved again")
        w = World(a)
        accepted("batches of one", lambda: w.update({n: w.fresh(n, batch=1) for n in w.names}))
        if w.batch() != 1:
            raise Wrong(f"batch size {w.batch()} instead of 1 after shrinking")
    attempt(r, "batch-size-resolved", "histories", loc, change)


def variable_updates(a, r):
    """Variable.update on its own, for tensors and variables, every class"""
    def one(kind):
        loc = method_loc(a, "Variable", "update")

        def run():
            s = C.Setup(a)
            x, y = s.var("x", kind), s.var("y", kind)
            old, snap = ten_of(x), dict(ten_of(x).arr().data)
            for src, label in ((y, "a variable"), (ten_of(y), "a tensor")):
                c0 = x.attrs.get("_num_updates")
                accepted(f"{label} of the same kind", lambda: s.do(x, "update", src))
                same_entries(f"{kind} updated from {label}", x, ten_of(y).arr().data)
                if c0 is not None and x.attrs.get("_num_updates") == c0:
                    raise Wrong(f"an update from {label} is not counted")
            same_entries("the replaced tensor", old, snap)
            for bits in ((True, False), (False, True)):
                x2 = s.var(f"x{bits[0]}", kind)
                snap = dict(ten_of(x2).arr().data)
                s.do(x2, "update", ten_of(y), batch_ignore_mask=s.it.torch_fn("tensor", [list(bits)], {}))
                same_entries(f"{kind} under a mask", x2, {i: (snap[i] if bits[i[0]] else ten_of(y).arr().data[i]) for i in snap})
        attempt(r, "variable-update", kind, loc, run)
        def bad(what, make):
            def run():
                s = C.Setup(a)
                x = s.var("x", kind)
                old = ten_of(x)
                refused(None, f"a tensor of {what} for a {kind}", lambda: s.do(x, "update", make(s, list(old.shape))))
                if ten_of(x) is not old:
                    raise Wrong(f"a refused tensor of {what} is stored in a {kind}")
            attempt(r, "invalid-tensor-refused", f"{kind}/{what}", loc, run)
        bad("another dtype", lambda s, sh: s.it.torch_fn("zeros", sh, {"dtype": s.it.ext("torch.float32")}))
        bad("another last dimension", lambda s, sh: s.tensor("n", (*sh[:-1], sh[-1] + 1)))
        bad("another second dimension", lambda s, sh: s.tensor("n", (sh[0], sh[1] + 1, *sh[2:])))
        bad("one dimension less", lambda s, sh: s.tensor("n", tuple(sh[:-1])))
        bad("one dimension more", lambda s, sh: s.tensor("n", (*sh, 1)))
    for k in ("SO2", "SE2", "SO3", "SE3", "Point2", "Point3", "vec3"):
        one(k)


__all__ = ["updates", "batch_sizes", "variable_updates"]
