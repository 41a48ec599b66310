"""Copies of whole objects: cost functions, weights and objectives are built, copied, evaluated and updated by the interpreter. The copy has the class, the
names and the values of the original, no variable or storage in common with it, and neither sees an update of the other."""
from . import cases as C
from . import everything as ev
from . import normal as nf
from . import tensor as tn
from .interp import Obj, Raised
from .comp import Malformed, Unknown
from .jac import Wrong, attempt, ten_of, entries


def variables(it, o, weight=True):
    """[(role, variable)] of a function, in order"""
    out = []
    for owner, tag in ((o, ""), *(((it.getattr(o, "weight"), "weight "),) if weight else ())):
        for role in ("optim_vars", "aux_vars"):
            out += [(tag + role, v) for v in it.iterate(it.getattr(owner, role))]
    return out


def name(it, v):
    return it.getattr(v, "name")


def class_of(it, o):
    return it.getattr(it.getattr(o, "__class__"), "__name__")


METHODS = ("weighted_error", "weighted_jacobians_error")


def observe(s, o, methods=METHODS):
    try:
        return {(m, label): t for m in methods for label, t in ev.tensors(s.do(o, m))}
    except (Malformed, Raised) as e:
        raise Unknown(f"the original does not evaluate: {e}")


def forms(t):
    return {i: tn.poly(f) for i, f in entries(t).items()}


def near(s, p, q):
    if p == q:
        return True
    u, v = (nf.value(x, dict(s.w)) if x else 0.0 for x in (p, q))
    return abs(u - v) <= 1e-9 * (1 + abs(v))


def equal(s, got, want, what):
    if set(got) != set(want):
        raise Wrong(f"{what}: a different number of results")
    for key, y in want.items():
        x = got[key]
        if tuple(x.shape) != tuple(y.shape) or x.dtype != y.dtype:
            raise Wrong(f"{what}: {key[1] or 'the result'} of {key[0]} has shape {tuple(x.shape)} and type {x.dtype} instead of {tuple(y.shape)}, {y.dtype}")
        e, f = forms(x), forms(y)
        for i in f:
            if not near(s, e[i], f[i]):
                raise Wrong(f"{what}: entry {list(i)} of {key[0]} differs")


def frozen(s, values, want, what):
    """values taken earlier against those of now"""
    equal(s, values, want, what)


def storages(it, vs):
    return {id(ten_of(v).store): (role, name(it, v)) for role, v in vs}


def apart(it, old, new, keep):
    """no variable and no storage in common; the same names, roles, classes"""
    if [r for r, _ in old] != [r for r, _ in new]:
        raise Wrong(f"the copy has variables {[r for r, _ in new]} instead of {[r for r, _ in old]}")
    ids = {id(v) for _, v in old}
    here = storages(it, old)
    for (role, u), (_, v) in zip(old, new):
        n = name(it, u)
        if id(v) in ids:
            raise Wrong(f"the {role} entry {n} is the original's variable")
        if id(ten_of(v).store) in here:
            raise Wrong(f"{n} of the copy shares storage with {here[id(ten_of(v).store)][1]} of the original")
        if class_of(it, u) != class_of(it, v):
            raise Wrong(f"{n} is a {class_of(it, v)} in the copy, a {class_of(it, u)} in the original")
        if (keep == "all" or keep and not role.startswith("weight")) and name(it, v) != n:
            raise Wrong(f"{n} is named {name(it, v)} in the copy")


class Fresh:
    def __init__(self, s):
        self.s = s

    def __call__(self, v):
        self.n = self.s.__dict__["made"] = self.s.__dict__.get("made", 0) + 1
        it = self.s.it
        t = ten_of(v)
        kind = class_of(it, v)
        if kind in C.SP and kind in C.LIE:
            return self.s.group(f"fresh{self.n}", kind, t.shape[0])
        return self.s.tensor(f"fresh{self.n}", tuple(t.shape), lo=0.5)


def crossed(s, mine, theirs, see, what):
    """an update of any variable of `mine` is not seen by `see`, which evaluates the other object"""
    fresh, it = Fresh(s), s.it
    before = [(v, forms(ten_of(v))) for _, v in theirs]
    want = see()
    for role, v in mine:
        s.do(v, "update", fresh(v))
        for u, f in before:
            if forms(ten_of(u)) != f:
                raise Wrong(f"an update of {role} entry {name(it, v)} of {what} changes {name(it, u)} of the other")
    equal(s, see(), want, f"after updates of the variables of {what}, the other")


def written(s, mine, theirs, what):
    """values written in place"""
    it = s.it
    before = [(v, forms(ten_of(v))) for _, v in theirs]
    for role, v in mine:
        s.do(ten_of(v), "mul_", 2.0)
    for u, f in before:
        if forms(ten_of(u)) != f:
            raise Wrong(f"a value written in place into {what} changes {name(it, u)} of the other")


def hooks():
    return {"warnings.warn": lambda it, *x, **k: None}


def cost(a, r, loc, cls, build, tag, what):
    label = f"{cls}{f' [{tag}]' if tag else ''}"
    for keep in (True, False):
        def go():
            s = C.Setup(a, hooks=hooks())
            it = s.it
            o = build(s)
            want = observe(s, o)
            k = s.do(o, "copy", keep_variable_names=keep)
            if k is o:
                raise Wrong("the copy is the original")
            if class_of(it, k) != class_of(it, o) or class_of(it, it.getattr(k, "weight")) != class_of(it, it.getattr(o, "weight")):
                raise Wrong(f"a {class_of(it, k)} weighted by {class_of(it, it.getattr(k, 'weight'))} is the copy of a {class_of(it, o)}")
            if what == "same":
                if it.call(it.getattr(k, "dim"), [], {}) != it.call(it.getattr(o, "dim"), [], {}):
                    raise Wrong("the copy has another dimension")
                equal(s, observe_copy(s, k), want, "the copy")
                equal(s, observe(s, o), want, "the original afterwards")
                if name(it, k) == name(it, o):
                    raise Wrong("the copy has the name of the original")
                m = s.do(o, "copy", new_name="chosen", keep_variable_names=keep)
                if name(it, m) != "chosen":
                    raise Wrong(f"the copy is called {name(it, m)} instead of the given name")
                # both follow the same updates
                fresh = Fresh(s)
                for (_, u), (_, v) in zip(variables(it, o), variables(it, k)):
                    t = fresh(u)
                    s.do(u, "update", t)
                    s.do(v, "update", t)
                equal(s, observe_copy(s, k), observe(s, o), "after the same updates, the copy")
                return
            old, new = variables(it, o), variables(it, k)
            apart(it, old, new, keep)
            if it.getattr(k, "weight") is it.getattr(o, "weight"):
                raise Wrong("the weight is shared with the original")
            crossed(s, new, old, lambda: observe(s, o), "the copy")
            crossed(s, old, new, lambda: observe(s, k), "the original")
            written(s, new, old, "the copy")
            written(s, old, new, "the original")
        attempt(r, "copied and evaluated" if what == "same" else "copied and updated", f"{label}{', names kept' if keep else ''}", loc, go)


def observe_copy(s, k):
    try:
        return {(m, label): t for m in METHODS for label, t in ev.tensors(s.do(k, m))}
    except (Malformed, Raised) as e:
        raise Wrong(f"the copy cannot be evaluated: {e}")


# ------------------------------------------------------------------ objectives
def metric_source():
    return '''
def weird(errors):
    return (errors * errors * errors).sum(dim=1) + 2.0
'''


def whole(s, o):
    s.do(o, "update", {})
    lin = s.new("DenseLinearization", o)
    s.do(lin, "linearize")
    return {("error", ""): ten_of(s.do(o, "error")), ("error_metric", ""): ten_of(s.do(o, "error_metric")), ("matrix", ""): ten_of(s.it.getattr(lin, "A")),
            ("right-hand side", ""): ten_of(s.it.getattr(lin, "b"))}


def connectivity(it, o):
    """names and identities, as indices in order of appearance"""
    ids, out = {}, []

    def at(x):
        return ids.setdefault(id(x), len(ids))
    for c in it.iterate(o):
        out.append((name(it, c), class_of(it, c), at(it.getattr(c, "weight")), [(role, name(it, v), at(v)) for role, v in variables(it, c)]))
    return out


def registries(it, o):
    return {m: list(it.iterate(it.getattr(o, m))) for m in ("optim_vars", "aux_vars", "cost_functions")}


def objective(a, r, loc, structure, what):
    from .vector import STRUCTURES, Twins
    for how in ("copy", "deepcopy", "vectorized"):
        def go():
            w = Twins(a, STRUCTURES[structure])
            s, it = w.s, w.it
            weird = it.define(metric_source(), "theseus.core.objective")["weird"]
            o = s.new("Objective", dtype=it.ext("torch.float64"), error_metric_fn=weird)
            for c in w.costs:
                s.do(o, "add", c)
            try:
                s.do(o, "update", {})
                if how == "vectorized":
                    s.new("Vectorize", o)
                want = whole(s, o)
            except (Malformed, Raised) as e:
                raise Unknown(f"the original does not evaluate: {e}")
            k = it.call(it.ext("copy.deepcopy"), [o], {}) if how == "deepcopy" else s.do(o, "copy")
            if k is o:
                raise Wrong("the copy is the original")
            old = [x for c in it.iterate(o) for x in variables(it, c)]
            new = [x for c in it.iterate(k) for x in variables(it, c)]
            if what == "same":
                x, y = connectivity(it, k), connectivity(it, o)
                if x != y:
                    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                    raise Wrong(f"the copy is not connected as the original: {str(x[i])[:200] if i < len(x) else 'nothing'} instead of {str(y[i])[:200] if i < len(y) else 'nothing'}")
                x, y = registries(it, k), registries(it, o)
                for m in y:
                    if x[m] != y[m]:
                        raise Wrong(f"{m} of the copy are {x[m]} instead of {y[m]}")
                equal(s, whole(s, k), want, "the copy")
                equal(s, whole(s, o), want, "the original afterwards")
                if it.getattr(k, "dtype") != it.getattr(o, "dtype"):
                    raise Wrong("the copy has another dtype")
                fresh = Fresh(s)
                new_values = {n: fresh(v) for n, v in w.s.vars.items()}
                known = {name(it, v) for _, v in old}
                new_values = {n: t for n, t in new_values.items() if n in known}
                s.do(o, "update", dict(new_values))
                s.do(k, "update", dict(new_values))
                equal(s, whole(s, k), whole(s, o), "after the same update, the copy")
                last = list(registries(it, o)["cost_functions"])[0]
                for z in (o, k):
                    s.do(z, "erase", last)
                if connectivity(it, k) != connectivity(it, o):
                    raise Wrong("after the same erasure, the copy is not connected as the original")
                for m, y in registries(it, o).items():
                    if registries(it, k)[m] != y:
                        raise Wrong(f"after the same erasure, {m} of the copy are {registries(it, k)[m]} instead of {y}")
                return
            apart(it, old, new, "all")
            mine = {id(it.getattr(c, "weight")) for c in it.iterate(o)} | {id(c) for c in it.iterate(o)}
            for c in it.iterate(k):
                if id(c) in mine or id(it.getattr(c, "weight")) in mine:
                    raise Wrong(f"the copy holds {name(it, c)} or its weight itself")
            crossed(s, new, old, lambda: whole(s, o), "the copy")
            crossed(s, old, new, lambda: whole(s, k), "the original")
            before = connectivity(it, k), registries(it, k)
            for n in list(registries(it, o)["cost_functions"]):
                s.do(o, "erase", n)
            if (connectivity(it, k), registries(it, k)) != before:
                raise Wrong("erasing cost functions of the original changes the copy")
        attempt(r, "copied and evaluated" if what == "same" else "copied and updated", f"objective, {structure}, {how}", loc, go)


def jobs(a, what):
    from checks.C40 import method_loc
    from .vector import STRUCTURES
    loc = method_loc(a, "Objective", "copy")
    return [(objective, (loc, n, what)) for n in STRUCTURES] + [(cost, (method_loc(a, cls, "_copy_impl"), cls, build, tag, what)) for cls, build, _, tag in C.costs()]
