"""Component domain: the abstract value of a tensor term is its array of entries
over the trailing (statically known) axes, each entry a normal form
(sa.algebra) over the entries of the inputs. One symbolic leading batch axis,
along which every operation has to be uniform. Anything else raises Unknown,
so that a fact is only ever decided from operations this domain understands."""
from fractions import Fraction
from itertools import product
from . import algebra as al
from .algebra import NotAlgebraic, add, atom, freeze, is_zero, mul, num, power
from .rules import entries, call_kw, call_name, call_pos, call_recv, get_arg, is_call, is_const, show
from .terms import T


class Unknown(NotAlgebraic):
    pass


class Malformed(Unknown):
    """the operation cannot be carried out on operands of these shapes"""


B = "B"
UNINIT = ("uninit",)


class Arr:
    """shape: ints and at most one B; data: index over the int axes -> entry"""
    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), data

    @property
    def dims(self):
        return tuple(s for s in self.shape if s != B)

    @classmethod
    def fill(cls, shape, f):
        shape = tuple(shape)
        if shape.count(B) > 1:
            raise Unknown(f"shape {shape}")
        d = tuple(s for s in shape if s != B)
        n = 1
        for s in d:
            n *= s
        if n > 4000:
            raise Unknown("large tensor")
        return cls(shape, {i: f(i) for i in product(*map(range, d))})

    def flat(self):
        return [self.data[i] for i in product(*map(range, self.dims))]

    def map(self, f):
        return Arr(self.shape, {i: f(x) for i, x in self.data.items()})


def symbols(name, shape):
    return Arr.fill(shape, lambda i: atom((name, *i)))


def scalar(p):
    return Arr((), {(): p})


def of_list(shape, vals):
    it = iter(vals)
    return Arr.fill(shape, lambda i: next(it))


def bshape(a, b):
    """broadcast shape"""
    n = max(len(a), len(b))
    a, b = (1,) * (n - len(a)) + tuple(a), (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x == y or y == 1:
            out.append(x)
        elif x == 1:
            out.append(y)
        else:
            raise Malformed(f"cannot broadcast {a} and {b}")
    return tuple(out)


def index_in(shape, out, i):
    """index of an array of this shape (ints only) for the index i of the broadcast shape out"""
    off = len(out) - len(shape)
    full, it = [], iter(i)
    for s in out:
        full.append(None if s == B else next(it))
    r = []
    for k, s in enumerate(shape):
        if s == B:
            continue
        v = full[off + k]
        if s == 1:
            r.append(0)
        else:
            r.append(v)
    return tuple(r)


def expand(a, shape):
    return Arr.fill(shape, lambda i: a.data[index_in(a.shape, shape, i)])


def zipw(a, b, f):
    sh = bshape(a.shape, b.shape)
    return Arr.fill(sh, lambda i: f(a.data[index_in(a.shape, sh, i)], b.data[index_in(b.shape, sh, i)]))


def padd(a, b):
    return zipw(a, b, add)


def psub(a, b):
    return zipw(a, b, lambda x, y: add(x, y, -1))


def pmul(a, b):
    return zipw(a, b, mul)


def total(ps):
    s = {}
    for p in ps:
        s = add(s, p)
    return s


def matmul(a, b):
    if len(a.shape) < 1 or len(b.shape) < 1:
        raise Malformed("matmul of a scalar")
    va, vb = len(a.shape) == 1, len(b.shape) == 1
    if va:
        a = reshape(a, (1, *a.shape))
    if vb:
        b = reshape(b, (*b.shape, 1))
    if B in (a.shape[-1], a.shape[-2], b.shape[-1], b.shape[-2]):
        raise Unknown(f"matmul over the batch {a.shape} {b.shape}")
    if a.shape[-1] != b.shape[-2]:
        raise Malformed(f"matmul {a.shape} {b.shape}")
    lead = bshape(a.shape[:-2], b.shape[:-2])
    sh = (*lead, a.shape[-2], b.shape[-1])
    k = a.shape[-1]

    def f(i):
        r, c = i[-2:]
        la, lb = index_in(a.shape[:-2], lead, i[:-2]), index_in(b.shape[:-2], lead, i[:-2])
        return total(mul(a.data[(*la, r, j)], b.data[(*lb, j, c)]) for j in range(k))
    out = Arr.fill(sh, f)
    if va:
        out = reshape(out, (*sh[:-2], sh[-1]))
    if vb:
        out = reshape(out, out.shape[:-1])
    return out


def prod(xs):
    n = 1
    for x in xs:
        n *= x
    return n


def reshape(a, shape):
    shape = list(shape)
    n = prod(a.dims)
    has = B in a.shape
    if -1 in shape:
        known = prod(x for x in shape if x not in (-1, B))
        k = shape.index(-1)
        if has and B not in shape:
            # -1 is the batch axis when the others cover the rest
            if known != n:
                raise Unknown(f"view {a.shape} as {shape}")
            shape[k] = B
        else:
            if known == 0 or n % known:
                raise Malformed(f"view {a.shape} as {shape}")
            shape[k] = n // known
    if has != (B in shape) or prod(x for x in shape if x != B) != n:
        raise Malformed(f"view {a.shape} as {shape}")
    if has and prod(a.shape[:a.shape.index(B)]) != prod(shape[:shape.index(B)]):
        raise Malformed(f"view {a.shape} as {shape} mixes the batch")
    return of_list(shape, a.flat())


def before(shape, k):
    """position among the int axes of axis k"""
    return sum(1 for s in shape[:k] if s != B)


def permute(a, order):
    n = len(a.shape)
    order = [o % n for o in order]
    if sorted(order) != list(range(n)):
        raise Malformed("permute")
    sh = tuple(a.shape[o] for o in order)
    ints = [before(a.shape, o) for o in order if a.shape[o] != B]

    def f(i):
        src = [0] * len(ints)
        for k, o in enumerate(ints):
            src[o] = i[k]
        return a.data[tuple(src)]
    return Arr.fill(sh, f)


def swap(a, i, j):
    n = len(a.shape)
    o = list(range(n))
    i, j = i % n, j % n
    o[i], o[j] = o[j], o[i]
    return permute(a, o)


def resolve(shape, items):
    """items (int, slice, None, Ellipsis, list of ints) -> per axis spec; list of (axis or None, spec)"""
    n = sum(1 for x in items if x is not None and x is not Ellipsis)
    if Ellipsis in [x for x in items if x is None or x is Ellipsis]:
        k = next(q for q, x in enumerate(items) if x is Ellipsis)
        items = list(items[:k]) + [slice(None)] * (len(shape) - n) + list(items[k + 1:])
    else:
        items = list(items) + [slice(None)] * (len(shape) - n)
    if sum(1 for x in items if x is not None) != len(shape):
        raise Malformed("index rank")
    return items


def select(shape, items):
    """(result shape, function from an index over result int axes to an index over source int axes)"""
    items = resolve(shape, items)
    out, plan, ax = [], [], 0
    lists = [x for x in items if isinstance(x, list)]
    if lists and len({len(x) for x in lists}) != 1:
        raise Malformed("index lists")
    listpos = None
    for it in items:
        if it is None:
            out.append(1)
            plan.append(("new",))
            continue
        s = shape[ax]
        ax += 1
        if s == B:
            if it != slice(None):
                raise Unknown("batch axis indexed")
            out.append(B)
            continue
        if isinstance(it, int):
            if not -s <= it < s:
                raise Malformed(f"index {it} of axis {s}")
            plan.append(("fix", it % s))
        elif isinstance(it, slice):
            r = range(*it.indices(s))
            out.append(len(r))
            plan.append(("run", r))
        elif isinstance(it, list):
            if listpos is None:
                listpos = len(plan)
                out.append(len(it))
                plan.append(("lead", [x % s for x in it]))
            else:
                if plan and plan[-1][0] not in ("lead", "follow") or shape[ax - 2] == B:
                    raise Unknown("separated index lists")
                plan.append(("follow", [x % s for x in it]))
        else:
            raise Unknown("index")

    def f(i):
        src, k, cur = [], 0, None
        for p in plan:
            if p[0] == "new":
                k += 1
            elif p[0] == "fix":
                src.append(p[1])
            elif p[0] == "run":
                src.append(p[1][i[k]])
                k += 1
            elif p[0] == "lead":
                cur = i[k]
                src.append(p[1][cur])
                k += 1
            else:
                src.append(p[1][cur])
        return tuple(src)
    return tuple(out), f


def fn(name, p):
    """opaque function of an entry"""
    if name == "exp":
        return al.expof(p)
    return atom((name, freeze(p)))


class Comp:
    """leaf(term) -> Arr, or None to go on; dims(term) -> int or B or None for integer terms"""

    def __init__(self, leaf, gvar=None, dim=None, where=None):
        self.leaf, self.gvar, self.dimleaf, self.pick = leaf, gvar, dim, where
        self.memo = {}

    # -------------------------------------------------------------- integers and shapes
    def int_(self, t):
        if is_const(t) and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
            return t.args[0]
        if t.kind == "un" and t.args[0] == "-":
            v = self.int_(t.args[1])
            return -v
        if t.kind == "phi":
            w = self.truth(t.args[0])
            if w is None:
                raise Unknown("integer " + show(t)[:60])
            return self.int_(t.args[1] if w else t.args[2])
        if self.dimleaf is not None:
            v = self.dimleaf(t)
            if v is not None:
                return v
        if t.kind == "sub" and is_const(t.args[1]):
            s = self.seq(t.args[0])
            try:
                return s[t.args[1].args[0]]
            except Exception:
                raise Unknown(show(t)[:60])
        if is_call(t, "size") and call_recv(t) is not None:
            d = get_arg(t, 0, "dim")
            if d is not None:
                return self.arr(call_recv(t)).shape[self.int_(d)]
        if is_call(t, "dim", "ndimension"):
            return len(self.arr(call_recv(t)).shape)
        if t.kind == "attr" and t.args[1] == "ndim":
            return len(self.arr(t.args[0]).shape)
        if is_call(t, "len"):
            try:
                return len(self.seq(call_pos(t)[0]))
            except Unknown:
                return self.arr(call_pos(t)[0]).shape[0]
        if is_call(t, "numel"):
            a = self.arr(call_recv(t))
            if B not in a.shape:
                return prod(a.shape)
        if t.kind == "bin":
            x, y = self.int_(t.args[1]), self.int_(t.args[2])
            if B not in (x, y):
                o = t.args[0]
                if o in ("+", "-", "*"):
                    return {"+": x + y, "-": x - y, "*": x * y}[o]
                if o == "//" and y:
                    return x // y
        if is_call(t, "int"):
            return self.int_(call_pos(t)[0])
        raise Unknown("integer " + show(t)[:60])

    def seq(self, t):
        """a tuple or list of dimensions"""
        if t.kind == "tuple" or t.kind == "list":
            out = []
            for x in t.args[0]:
                if x.kind == "star":
                    out += self.seq(x.args[0])
                else:
                    out.append(self.int_(x))
            return out
        if t.kind == "attr" and t.args[1] == "shape":
            return list(self.arr(t.args[0]).shape)
        if t.kind == "coll":
            out = []
            for e in entries(t):
                if e.loops or e.guards or e.kind not in ("item", "extend"):
                    raise Unknown("shape " + show(t)[:60])
                out += [self.int_(e.value)] if e.kind == "item" else self.seq(e.value)
            return out
        if is_call(t, "range"):
            return list(range(*[self.int_(x) for x in call_pos(t)]))
        if is_call(t, "size") and not call_pos(t) and not call_kw(t):
            return list(self.arr(call_recv(t)).shape)
        if t.kind == "sub" and t.args[1].kind == "slice":
            s = self.seq(t.args[0])
            return s[self.slice_(t.args[1])]
        if t.kind == "bin" and t.args[0] == "+":
            return self.seq(t.args[1]) + self.seq(t.args[2])
        if is_call(t, "list", "tuple", "Size") and call_pos(t):
            return self.seq(call_pos(t)[0])
        raise Unknown("shape " + show(t)[:60])

    def dims_of(self, ps):
        ps = list(ps)
        if len(ps) == 1 and ps[0].kind != "star":
            try:
                return self.seq(ps[0])
            except Unknown:
                return [self.int_(ps[0])]
        out = []
        for x in ps:
            if x.kind == "star":
                out += self.seq(x.args[0])
            else:
                out.append(self.int_(x))
        return out

    def slice_(self, t):
        vs = []
        for x in t.args:
            vs.append(None if is_const(x, None) else self.int_(x))
        if B in vs:
            raise Unknown("slice")
        return slice(*vs)

    def index(self, t):
        items = t.args[0] if t.kind == "tuple" else (t,)
        out = []
        for x in items:
            if x.kind == "slice":
                out.append(self.slice_(x))
            elif is_const(x, None):
                out.append(None)
            elif is_const(x) and x.args[0] is Ellipsis:
                out.append(Ellipsis)
            elif x.kind == "list" or x.kind == "tuple":
                out.append([self.int_(y) for y in x.args[0]])
            elif x.kind == "gvar" and self.gvar is not None and self.gvar(x) is not None:
                out.append(self.gvar(x))
            elif is_call(x, "arange", "range"):
                out.append(list(range(*[self.int_(y) for y in call_pos(x)])))
            else:
                v = self.int_(x)
                if v == B:
                    raise Unknown("index")
                out.append(v)
        return out

    # -------------------------------------------------------------- arrays
    def arr(self, t):
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self._arr(t)
        except NotAlgebraic as ex:
            self.memo[t] = ex
            raise
        self.memo[t] = r
        return r

    def _arr(self, t):
        x = self.leaf(t)
        if x is not None:
            return x
        k = t.kind
        if k == "const":
            v = t.args[0]
            if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) != float("inf"):
                return scalar(num(v))
        if k == "bin":
            return self.binop(t.args[0], t.args[1], t.args[2])
        if k == "un" and t.args[0] == "-":
            return self.arr(t.args[1]).map(lambda p: mul(num(-1), p))
        if k == "un" and t.args[0] == "+":
            return self.arr(t.args[1])
        if k == "sub":
            return self.item(t)
        if k == "upd":
            return self.update(t)
        if k == "fresh":
            return self.arr(t.args[0])
        if k == "inplace":
            return self.inplace(t)
        if k == "attr":
            if t.args[1] in ("T", "mT"):
                return swap(self.arr(t.args[0]), -1, -2)
            if t.args[1] == "data":
                return self.arr(t.args[0])
        if k == "call":
            return self.call(t)
        if k == "phi":
            w = self.truth(t.args[0])
            if w is None:
                raise Unknown("condition " + show(t.args[0])[:60])
            return self.arr(t.args[1] if w else t.args[2])
        raise Unknown(f"{k}: {show(t)[:60]}")

    def truth(self, c):
        """conditions on shapes"""
        if self.pick is not None:
            w = self.pick(c)
            if w is not None:
                return w
        if c.kind == "un" and c.args[0] == "not":
            w = self.truth(c.args[1])
            return None if w is None else not w
        if c.kind == "cmp":
            try:
                x, y = self.int_(c.args[1]), self.int_(c.args[2])
            except NotAlgebraic:
                return None
            if c.args[0] == "==":
                return x == y if B not in (x, y) or x == y else None
            if B in (x, y):
                return None
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}.get(c.args[0])
        return None

    def item(self, t):
        b, i = t.args
        if b.kind in ("tuple", "list") and is_const(i):
            return self.arr(b.args[0][i.args[0]])
        a = self.arr(b)
        sh, f = select(a.shape, self.index(i))
        return Arr.fill(sh, lambda j: a.data[f(j)])

    def update(self, t):
        a = self.arr(t.args[0])
        if t.args[1].kind == "diag":
            ds = {}
            pos, kw = t.args[1].args[0], dict(t.args[1].args[1])
            for q, nm in enumerate(("offset", "dim1", "dim2")):
                x = pos[q] if q < len(pos) else kw.get(nm)
                ds[nm] = self.int_(x) if x is not None else {"offset": 0, "dim1": 0, "dim2": 1}[nm]
            m = len(a.shape)
            if ds["offset"] or {ds["dim1"] % m, ds["dim2"] % m} != {m - 1, m - 2} or B in a.shape[-2:]:
                raise Unknown("diagonal")
            sh, f = (*a.shape[:-2], min(a.shape[-2:])), lambda i: (*i, i[-1])
        else:
            sh, f = select(a.shape, self.index(t.args[1]))
        v = self.arr(t.args[2])
        # leading axes of size one of the value are allowed
        vs = v.shape
        while len(vs) > len(sh) and vs[0] == 1:
            v = reshape(v, vs[1:])
            vs = v.shape
        if bshape(vs, sh) != tuple(sh):
            raise Malformed(f"{vs} stored in {sh}")
        v = expand(v, sh)
        d = dict(a.data)
        for j, p in v.data.items():
            d[f(j)] = p
        return Arr(a.shape, d)

    def inplace(self, t):
        """value of the tensor after x.op_(...)"""
        n, recv, pos, kw = t.args
        kw = dict(kw)
        a = self.arr(recv)
        if n == "zero_":
            return a.map(lambda p: {})
        if n == "fill_" and (pos or kw):
            return expand(self.arr(pos[0] if pos else list(kw.values())[0]), a.shape)
        if n == "copy_" and pos:
            return expand(self.arr(pos[0]), a.shape)
        if n in ("add_", "sub_", "mul_", "div_") and (len(pos) == 1 and not kw or "other" in kw and len(kw) == 1):
            b = self.arr(pos[0] if pos else kw["other"])
            r = {"add_": padd, "sub_": psub, "mul_": pmul, "div_": lambda x, y: pmul(x, y.map(lambda p: power(p, -1)))}[n](a, b)
            if r.shape != a.shape:
                raise Malformed("in-place broadcast")
            return r
        if n == "neg_" and not pos:
            return a.map(lambda p: mul(num(-1), p))
        raise Unknown("in-place " + str(n))

    def binop(self, o, x, y):
        if o == "@":
            return matmul(self.arr(x), self.arr(y))
        a = self.arr(x)
        if o == "**":
            if is_const(y):
                e = al.expo(y)
                return a.map(lambda p: power(p, e))
            raise Unknown("power")
        b = self.arr(y)
        if o == "+":
            return padd(a, b)
        if o == "-":
            return psub(a, b)
        if o == "*":
            return pmul(a, b)
        if o == "/":
            return pmul(a, b.map(lambda p: power(p, -1)))
        raise Unknown(o)

    def created(self, t, val):
        ps = call_pos(t)
        kw = call_kw(t)
        if not ps and "size" in kw:
            ps = [kw["size"]]
        return Arr.fill(self.dims_of(ps), lambda i: val)

    def call(self, t):
        n = call_name(t)
        r = call_recv(t)
        ps = list(call_pos(t))
        kw = call_kw(t)
        if r is not None and r.kind in ("module", "ext"):
            r = None

        def operand():
            nonlocal ps
            if r is not None:
                return self.arr(r)
            if ps:
                x, ps = ps[0], ps[1:]
                return self.arr(x)
            for q in ("input", "self", "tensor", "x"):
                if q in kw:
                    return self.arr(kw.pop(q))
            raise Unknown(show(t)[:60])

        def arg(i, name, default=None):
            if name in kw:
                return kw[name]
            return ps[i] if i < len(ps) else default
        if n in ("clone", "contiguous", "to", "type", "detach", "float", "double", "requires_grad_", "as_tensor", "cpu", "type_as", "as_subclass", "cast"):
            if n == "cast" and r is None and len(ps) == 2:
                return self.arr(ps[1])
            return operand()
        if n in ("view", "reshape"):
            a = operand()
            if "shape" in kw:
                ps = [kw["shape"]]
            return reshape(a, self.dims_of(ps))
        if n in ("view_as", "reshape_as"):
            return reshape(operand(), self.arr(arg(0, "other")).shape)
        if n in ("expand", "broadcast_to"):
            a = operand()
            sh = self.dims_of([kw["size"]] if "size" in kw else ps)
            off = len(sh) - len(a.shape)
            sh = [(a.shape[k - off] if s == -1 else s) for k, s in enumerate(sh)]
            if bshape(a.shape, sh) != tuple(sh):
                raise Unknown("expand")
            return expand(a, sh)
        if n == "expand_as":
            a = operand()
            return expand(a, self.arr(arg(0, "other")).shape)
        if n in ("repeat", "tile"):
            a = operand()
            reps = self.dims_of(ps)
            sh = (1,) * (len(reps) - len(a.shape)) + a.shape
            if len(sh) != len(reps):
                raise Unknown("repeat")
            new = []
            for s, q in zip(sh, reps):
                if q == 1:
                    new.append(s)
                elif s == 1:
                    new.append(q)
                else:
                    if s == B or q == B:
                        raise Unknown("repeat")
                    new.append(s * q)
            a = reshape(a, sh)

            def f(i):
                full, it = [], iter(i)
                for s in new:
                    full.append(None if s == B else next(it))
                return a.data[tuple((0 if s == 1 else full[k] % s) for k, s in enumerate(sh) if s != B)]
            return Arr.fill(new, f)
        if n in ("transpose", "swapaxes"):
            a = operand()
            return swap(a, self.int_(arg(0, "dim0")), self.int_(arg(1, "dim1")))
        if n == "t":
            return swap(operand(), 0, 1)
        if n == "permute":
            a = operand()
            return permute(a, self.dims_of([kw["dims"]] if "dims" in kw else ps))
        if n == "unsqueeze":
            a = operand()
            d = self.int_(arg(0, "dim"))
            d = d % (len(a.shape) + 1)
            return reshape_new(a, d)
        if n == "squeeze":
            a = operand()
            d = arg(0, "dim")
            if d is None:
                if B in a.shape:
                    raise Malformed("a batch of one loses its axis")
                return reshape(a, [s for s in a.shape if s != 1])
            d = self.int_(d) % len(a.shape)
            if a.shape[d] == B:
                raise Malformed("a batch of one loses its axis")
            return reshape(a, a.shape[:d] + a.shape[d + 1:]) if a.shape[d] == 1 else a
        if n == "flatten":
            a = operand()
            s, e = arg(0, "start_dim"), arg(1, "end_dim")
            s = self.int_(s) if s is not None else 0
            e = self.int_(e) if e is not None else -1
            s, e = s % len(a.shape), e % len(a.shape)
            if B in a.shape[s:e + 1]:
                raise Unknown("flatten")
            return reshape(a, (*a.shape[:s], prod(a.shape[s:e + 1]), *a.shape[e + 1:]))
        if n in ("new_zeros", "zeros"):
            return self.created(t, {})
        if n in ("new_ones", "ones"):
            return self.created(t, num(1))
        if n in ("new_empty", "empty"):
            return self.created(t, atom(UNINIT))
        if n in ("zeros_like",):
            return operand().map(lambda p: {})
        if n in ("ones_like",):
            return operand().map(lambda p: num(1))
        if n in ("empty_like",):
            return operand().map(lambda p: atom(UNINIT))
        if n == "eye":
            d = self.dims_of(ps)
            d = d if len(d) == 2 else [d[0], d[0]]
            return Arr.fill(d, lambda i: num(1) if i[0] == i[1] else {})
        if n in ("stack",):
            ts = self.tensors(arg(0, "tensors"))
            d = arg(1, "dim")
            d = self.int_(d) if d is not None else 0
            return cat([reshape_new(a, d % (len(a.shape) + 1)) for a in ts], d)
        if n in ("cat", "concat", "concatenate", "hstack"):
            ts = self.tensors(arg(0, "tensors"))
            d = arg(1, "dim")
            return cat(ts, self.int_(d) if d is not None else 0)
        if n in ("tensor",) and ps and ps[0].kind in ("list", "tuple"):
            return self.literal(ps[0])
        if n in ("sum", "mean"):
            a = operand()
            d, kd = arg(0, "dim"), arg(1, "keepdim")
            if d is None:
                raise Unknown("sum over everything")
            ds = self.seq(d) if d.kind in ("tuple", "list") else [self.int_(d)]
            out = reduce(a, ds, kd is not None and is_const(kd, True), total)
            if n == "mean":
                m = prod(a.shape[q] for q in ds)
                out = out.map(lambda p: mul(p, num(Fraction(1, m))))
            return out
        if n == "norm":
            a = operand()
            d = arg(1, "dim")
            kd = arg(2, "keepdim")
            p = arg(0, "p")
            if d is None and p is not None and r is None:
                raise Unknown("norm")
            if p is not None and not (is_const(p) and p.args[0] in (2, 2.0)):
                raise Unknown("norm")
            if d is None:
                raise Unknown("norm")
            ds = self.seq(d) if d.kind in ("tuple", "list") else [self.int_(d)]
            return reduce(a, ds, kd is not None and is_const(kd, True), lambda xs: power(total(mul(x, x) for x in xs), Fraction(1, 2)))
        if n in ("square",):
            return operand().map(lambda p: mul(p, p))
        if n in ("sqrt",):
            return operand().map(lambda p: power(p, Fraction(1, 2)))
        if n == "rsqrt":
            return operand().map(lambda p: power(p, Fraction(-1, 2)))
        if n == "reciprocal":
            return operand().map(lambda p: power(p, -1))
        if n in ("pow",):
            a = operand()
            e = arg(0, "exponent")
            if e is None or not is_const(e):
                raise Unknown("pow")
            e = al.expo(e)
            return a.map(lambda p: power(p, e))
        if n in ("neg", "negative"):
            return operand().map(lambda p: mul(num(-1), p))
        if n in ("add", "sub", "subtract", "mul", "multiply", "div", "divide") and (r is not None and len(ps) + len(kw) == 1 or r is None and len(ps) == 2):
            a = operand()
            b = self.arr(arg(0, "other"))
            if n == "add":
                return padd(a, b)
            if n in ("sub", "subtract"):
                return psub(a, b)
            if n in ("mul", "multiply"):
                return pmul(a, b)
            return pmul(a, b.map(lambda p: power(p, -1)))
        if n in ("matmul", "bmm", "mm", "mv") and (r is not None or len(ps) == 2):
            a = operand()
            return matmul(a, self.arr(arg(0, "other") or arg(0, "mat2")))
        if n == "cross":
            a = operand()
            b = self.arr(arg(0, "other"))
            d = arg(1, "dim")
            sh = bshape(a.shape, b.shape)
            a, b = expand(a, sh), expand(b, sh)
            d = self.int_(d) if d is not None else -1
            ax = d % len(sh)
            if sh[ax] != 3 or d is None:
                raise Unknown("cross")
            k = before(sh, ax)

            def g(i):
                j = i[k]
                p, q = (j + 1) % 3, (j + 2) % 3

                def w(v):
                    return (*i[:k], v, *i[k + 1:])
                return add(mul(a.data[w(p)], b.data[w(q)]), mul(a.data[w(q)], b.data[w(p)]), -1)
            return Arr.fill(sh, g)
        if n in ("diagonal",):
            a = operand()
            d1, d2 = arg(1, "dim1"), arg(2, "dim2")
            d1 = self.int_(d1) if d1 is not None else 0
            d2 = self.int_(d2) if d2 is not None else 1
            m = len(a.shape)
            if arg(0, "offset") is not None or {d1 % m, d2 % m} != {m - 1, m - 2} or B in a.shape[-2:]:
                raise Unknown("diagonal")
            return Arr.fill((*a.shape[:-2], min(a.shape[-2:])), lambda i: a.data[(*i, i[-1])])
        if n == "diag_embed":
            a = operand()
            if ps or kw or a.shape[-1:] == (B,):
                raise Unknown("diag_embed")
            return Arr.fill((*a.shape, a.shape[-1]), lambda i: a.data[i[:-1]] if i[-1] == i[-2] else {})
        if n in ("sin", "cos", "tan", "atan", "acos", "asin", "abs", "sign", "exp", "log", "sinh", "cosh", "tanh"):
            return operand().map(lambda p: fn(n, p))
        if n == "atan2" and (r is not None or len(ps) == 2):
            a = operand()
            b = self.arr(arg(0, "other"))
            return zipw(a, b, lambda x, y: atom(("atan2", freeze(x), freeze(y))))
        if n == "where" and self.pick is not None:
            c = arg(0, "condition")
            if r is not None:
                x, y, c = r, arg(1, "other"), arg(0, "condition")
            else:
                x, y = arg(1, "input"), arg(2, "other")
            w = self.pick(c)
            if w is None or x is None or y is None:
                raise Unknown("selection on " + show(c)[:50])
            z = self.arr(x if w else y)
            try:
                o = self.arr(y if w else x).shape
                return expand(z, bshape(z.shape, o))
            except NotAlgebraic:
                return z
        if n == "split" or n == "chunk":
            raise Unknown(n)
        raise Unknown(f"call {show(t)[:70]}")

    def tensors(self, t):
        if t is None or t.kind not in ("tuple", "list"):
            raise Unknown("list of tensors " + (show(t)[:50] if t is not None else ""))
        return [self.arr(x) for x in t.args[0]]

    def literal(self, t):
        def go(x):
            if x.kind in ("list", "tuple"):
                rows = [go(y) for y in x.args[0]]
                return cat([reshape_new(q, 0) for q in rows], 0)
            return self.arr(x)
        return go(t)


def reshape_new(a, d):
    """unsqueeze at axis d"""
    sh = (*a.shape[:d], 1, *a.shape[d:])
    k = before(a.shape, d)
    return Arr(sh, {(*i[:k], 0, *i[k:]): p for i, p in a.data.items()})


def cat(ts, d):
    m = len(ts[0].shape)
    d = d % m
    if any(len(a.shape) != m for a in ts):
        raise Malformed("cat of different ranks")
    lead = None
    for a in ts:
        s = (*a.shape[:d], *a.shape[d + 1:])
        if lead is not None and s != lead:
            raise Malformed(f"cat of {[x.shape for x in ts]}")
        lead = s
    if any(a.shape[d] == B for a in ts):
        raise Unknown("cat over the batch")
    k = before(ts[0].shape, d)
    data, off = {}, 0
    for a in ts:
        for i, p in a.data.items():
            data[(*i[:k], i[k] + off, *i[k + 1:])] = p
        off += a.shape[d]
    sh = list(ts[0].shape)
    sh[d] = off
    return Arr(tuple(sh), data)


def reduce(a, ds, keep, f):
    m = len(a.shape)
    ds = sorted(d % m for d in ds)
    if any(a.shape[d] == B for d in ds):
        raise Unknown("reduction over the batch")
    ks = [before(a.shape, d) for d in ds]
    groups = {}
    for i in product(*map(range, a.dims)):
        key = tuple((0 if k in ks else v) for k, v in enumerate(i) if keep or k not in ks)
        groups.setdefault(key, []).append(a.data[i])
    sh = [s if q not in ds else 1 for q, s in enumerate(a.shape) if keep or q not in ds]
    if not groups:
        groups = {key: [] for key in product(*(range(s) for s in sh if s != B))}
    return Arr(tuple(sh), {k: f(v) for k, v in groups.items()})


def same(a, b):
    """equal as arrays, up to broadcasting"""
    sh = bshape(a.shape, b.shape)
    a, b = expand(a, sh), expand(b, sh)
    return all(is_zero(add(a.data[i], b.data[i], -1)) for i in a.data)


def derivative(a, name, shape):
    """d a / d symbols(name, shape): dict (index of a, index of the symbol) -> entry"""
    out = {}
    dims = tuple(s for s in shape if s != B)
    for i, p in a.data.items():
        for j in product(*map(range, dims)):
            d = al.diff(p, (name, *j))
            if d:
                out[i, j] = d
    return out


def substitute(p, env):
    """replace atoms (keys of env) by normal forms; polynomial parts only"""
    out = {}
    for m, c in p.items():
        q = {(): c}
        for k, e in m:
            if k in env:
                q = mul(q, power(env[k], e))
            elif k[0] == "sum":
                q = mul(q, power(substitute(dict(k[1]), env), e))
            else:
                q = mul(q, atom(k, e))
        out = add(out, q)
    return out
