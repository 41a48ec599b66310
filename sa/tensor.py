"""Tensors of the abstract interpreter: concrete shape, entries are normal forms
(or booleans); views share their storage with the tensor they were taken from."""
from fractions import Fraction
from itertools import product
from . import comp
from .algebra import add, atom, freeze, mul, num
from .comp import Arr, Malformed, Unknown
from . import normal as nf
from .normal import const_of

_uid = [0]


class Store(dict):
    """entries of a tensor and its views; dev: "default" when it was created without naming a device"""
    __slots__ = ("dev",)

    def __init__(self, *a):
        super().__init__(*a)
        self.dev = None


GRAD = [True]       # gradient mode (only switched off by interpreters that follow gradients)


def stop(p):
    """the same value, constant for derivatives"""
    if isinstance(p, bool) or const_of(p) is not None:
        return p
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] in ("stop", "inf"):
            return p
    return atom(("stop", freeze(p)))


class Ten:
    __slots__ = ("keys", "store", "dtype", "uid", "cut")

    def __init__(self, keys, store, dtype, cut=False):
        self.keys, self.store, self.dtype = keys, store, dtype
        self.cut = cut or not GRAD[0]
        _uid[0] += 1
        self.uid = _uid[0]

    @property
    def shape(self):
        return self.keys.shape

    def arr(self):
        s = self.store
        if self.cut:
            return Arr(self.keys.shape, {i: stop(s[k]) for i, k in self.keys.data.items()})
        return Arr(self.keys.shape, {i: s[k] for i, k in self.keys.data.items()})

    def flat(self):
        s = self.store
        if self.cut:
            return [stop(s[k]) for k in self.keys.flat()]
        return [s[k] for k in self.keys.flat()]

    def view(self, f):
        return Ten(f(self.keys), self.store, self.dtype, self.cut)

    def write(self, keys, arr):
        """entries at these keys := arr (broadcast)"""
        if comp.bshape(arr.shape, keys.shape) != tuple(keys.shape):
            raise Malformed(f"cannot write {arr.shape} into {keys.shape}")
        new = {k: arr.data[comp.index_in(arr.shape, keys.shape, i)] for i, k in keys.data.items()}
        if self.cut or not GRAD[0]:
            new = {k: stop(v) for k, v in new.items()}
        self.store.update(new)

    def __repr__(self):
        return f"Ten{tuple(self.shape)}:{self.dtype}"


LIMIT = [0]


def make(arr, dtype="float"):
    store, keys = Store(), {}
    lim = LIMIT[0]
    for n, i in enumerate(product(*map(range, arr.shape))):
        v = arr.data[i]
        store[n] = nf.cut(v, lim) if lim and isinstance(v, dict) and len(v) > lim else v
        keys[i] = n
    return Ten(Arr(arr.shape, keys), store, dtype)


def full(shape, val, dtype="float"):
    for s in shape:
        if not isinstance(s, int) or s < 0:
            raise Unknown(f"shape {shape}")
    return make(Arr(tuple(shape), {i: val for i in product(*map(range, shape))}), dtype)


def symbols(name, shape, dtype="float"):
    return make(Arr(tuple(shape), {i: atom((name, *i)) for i in product(*map(range, shape))}), dtype)


def of_rows(x, dtype="float"):
    """tensor of nested lists of forms"""
    shape, y = [], x
    while isinstance(y, (list, tuple)):
        shape.append(len(y))
        y = y[0] if y else 0

    def at(i):
        v = x
        for j in i:
            v = v[j]
        return v if isinstance(v, (dict, bool)) else num(v)
    return make(Arr(tuple(shape), {i: at(i) for i in product(*map(range, shape))}), dtype)


def ints(t):
    """entries as python ints"""
    out = []
    for v in t.flat():
        if isinstance(v, bool):
            out.append(int(v))
            continue
        c = const_of(v)
        if c is None or c.denominator != 1:
            raise Unknown("index is not constant")
        out.append(int(c))
    return out


def take(shape, items):
    """numpy indexing: (result shape, function result index -> source index)"""
    expanded = []
    for x in items:
        if isinstance(x, Ten) and x.dtype == "bool" and x.shape == ():
            # selects along a new axis
            expanded.append(("adv", (1 if x.flat()[0] else 0,), None))
        elif isinstance(x, Ten) and x.dtype == "bool":
            pos = [i for i in product(*map(range, x.shape)) if x.store[x.keys.data[i]]]
            for k in range(len(x.shape)):
                expanded.append(("adv", (len(pos),), {(n,): p[k] for n, p in enumerate(pos)}))
        elif isinstance(x, Ten):
            if x.dtype.startswith("float"):
                raise Malformed(f"index tensor of dtype {x.dtype}")
            v = ints(x)
            if x.shape == ():
                expanded.append(("adv", (), {(): v[0]}))
            else:
                expanded.append(("adv", tuple(x.shape), dict(zip(product(*map(range, x.shape)), v))))
        elif isinstance(x, (list, tuple, range)):
            v = list(x)
            if v and all(isinstance(y, bool) for y in v):
                v = [k for k, y in enumerate(v) if y]
            if any(isinstance(y, (list, tuple, Ten)) for y in v):
                raise Unknown("nested index")
            expanded.append(("adv", (len(v),), {(n,): y for n, y in enumerate(v)}))
        else:
            expanded.append(x)
    def takes(x):
        return x is not None and x is not Ellipsis and not (isinstance(x, tuple) and x[2] is None)
    n = sum(1 for x in expanded if takes(x))
    if any(x is Ellipsis for x in expanded):
        k = next(i for i, x in enumerate(expanded) if x is Ellipsis)
        expanded = expanded[:k] + [slice(None)] * (len(shape) - n) + [x for x in expanded[k + 1:] if x is not Ellipsis]
    else:
        expanded = expanded + [slice(None)] * (len(shape) - n)
    if sum(1 for x in expanded if takes(x)) != len(shape):
        raise Malformed(f"index of rank {n} for {tuple(shape)}")
    advs = [i for i, x in enumerate(expanded) if isinstance(x, tuple)]
    ash = ()
    for i in advs:
        ash = comp.bshape(ash, expanded[i][1])
    # integers next to advanced indices count as advanced
    split = False
    if advs:
        allv = [i for i, x in enumerate(expanded) if isinstance(x, tuple) or isinstance(x, int) and not isinstance(x, bool)]
        split = allv != list(range(allv[0], allv[-1] + 1))
    out, plan, ax = [], [], 0
    placed = False
    if split:
        out += list(ash)
        placed = True
    apos = 0 if split else None
    for x in expanded:
        if x is None:
            plan.append(("new", len(out)))
            out.append(1)
            continue
        if isinstance(x, tuple) and x[2] is None:
            if not placed:
                apos = len(out)
                out += list(ash)
                placed = True
            continue
        s = shape[ax]
        ax += 1
        if isinstance(x, bool):
            raise Unknown("boolean index")
        if isinstance(x, int):
            if not -s <= x < s:
                raise Malformed(f"index {x} of axis {s}")
            plan.append(("fix", x % s))
        elif isinstance(x, slice):
            r = range(*x.indices(s))
            plan.append(("run", r, len(out)))
            out.append(len(r))
        elif isinstance(x, tuple):
            if not placed:
                apos = len(out)
                out += list(ash)
                placed = True
            for v in x[2].values():
                if not -s <= v < s:
                    raise Malformed(f"index {v} of axis {s}")
            plan.append(("adv", {k: v % s for k, v in x[2].items()}, x[1]))
        else:
            raise Unknown(f"index {x!r}")

    def f(i):
        src = []
        for p in plan:
            if p[0] == "fix":
                src.append(p[1])
            elif p[0] == "run":
                src.append(p[1][i[p[2]]])
            elif p[0] == "adv":
                j = i[apos:apos + len(ash)]
                src.append(p[1][comp.index_in(p[2], ash, j)])
        return tuple(src)
    return tuple(out), f, bool(advs)


def index(t, item):
    """view (basic) or copy (advanced)"""
    items = item if isinstance(item, tuple) else (item,)
    sh, f, adv = take(t.shape, list(items))
    keys = Arr(sh, {i: t.keys.data[f(i)] for i in product(*map(range, sh))})
    if adv:
        return make(Arr(sh, {i: stop(t.store[k]) if t.cut else t.store[k] for i, k in keys.data.items()}), t.dtype)
    return Ten(keys, t.store, t.dtype, t.cut)


def assign(t, item, arr):
    items = item if isinstance(item, tuple) else (item,)
    sh, f, _ = take(t.shape, list(items))
    keys = Arr(sh, {i: t.keys.data[f(i)] for i in product(*map(range, sh))})
    # leading axes of size one may be dropped
    while len(arr.shape) > len(sh) and arr.shape[0] == 1:
        arr = Arr(arr.shape[1:], {i[1:]: v for i, v in arr.data.items()})
    t.write(keys, arr)


def poly(v):
    if isinstance(v, bool):
        return num(int(v))
    return v


__all__ = ["Ten", "make", "full", "symbols", "of_rows", "ints", "take", "index", "assign", "poly", "add", "atom", "mul", "Fraction"]
