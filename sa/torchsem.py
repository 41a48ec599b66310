"""Meaning of torch operations in the domain of sa.interp."""
from fractions import Fraction
from itertools import product
from . import comp
from . import normal as nf
from . import tensor as tn
from . import algebra as al
from .algebra import add, mul, num
from .comp import Arr, Malformed, Unknown, prod
from .normal import const_of
from .tensor import Ten, poly

F = {}
FLOATS = ("float64", "float32", "float16")


def op(*names):
    def deco(f):
        for n in names:
            F[n] = f
        return f
    return deco


def dtype_of(it, x, default=None):
    from .interp import Ext
    if x is None:
        return default
    if isinstance(x, str):
        return x
    if isinstance(x, Ext):
        n = x.name.split(".")[-1]
        return {"float": "float32", "double": "float64", "long": "int64", "int": "int64", "int32": "int64", "half": "float16"}.get(n, n)
    raise Unknown("dtype")


def dims(it, args, kw, name="size"):
    if name in kw:
        args = [kw[name]]
    if len(args) == 1 and isinstance(args[0], (list, tuple)):
        args = args[0]
    out = []
    for x in args:
        if isinstance(x, Ten):
            out += tn.ints(x)
        elif isinstance(x, (list, tuple)):
            out += list(x)
        else:
            out.append(int(x))
    return out


def mapped(t, f, dtype=None):
    return tn.make(t.arr().map(lambda p: f(poly(p))), dtype or (t.dtype if t.dtype in FLOATS else "float32"))


def ax(t, d):
    n = len(t.shape)
    if not -max(n, 1) <= d < max(n, 1):
        raise Malformed(f"axis {d} of {tuple(t.shape)}")
    return d % max(n, 1)


# -------------------------------------------------------------------- structure
@op("clone", "contiguous", "cpu", "cuda")
def _clone(it, t, *a, **k):
    return tn.make(t.arr(), t.dtype)


@op("requires_grad_", "requires_grad", "alias", "numpy")
def _same(it, t, *a, **k):
    return t


@op("detach", "data")
def _detach(it, t):
    return Ten(t.keys, t.store, t.dtype, True) if it.grads else t


@op("to", "type", "type_as", "as_subclass")
def _to(it, t, *a, **k):
    from .interp import Ext
    d = t.dtype
    for x in [*a, *k.values()]:
        if isinstance(x, Ten):
            d = x.dtype
        elif isinstance(x, Ext) and x.name.startswith("torch.") and x.name != "torch.device":
            d = dtype_of(it, x)
    if d == t.dtype:
        return t
    return cast(it, t, d)


def cast(it, t, d):
    if d == "bool":
        return tn.make(t.arr().map(lambda p: p if isinstance(p, bool) else const_of(p) != 0 if const_of(p) is not None else True), "bool")
    if d == "int64":
        def f(p):
            p = poly(p)
            c = const_of(p)
            if c is not None:
                return num(int(c))
            return it.region.fn("trunc", p)
        return tn.make(t.arr().map(f), d)
    rank = {"float16": 0, "bfloat16": 0, "float32": 1, "float64": 2}
    if t.dtype in rank and d in rank:
        if rank[d] < rank[t.dtype] and any(not exact(p) for p in t.arr().data.values()) or rank[d] > rank[t.dtype] and any(was_rounded(p) for p in t.arr().data.values()):
            it.rounded.append((t.dtype, d, it.here()))
    return tn.make(t.arr().map(poly), d)


def exact(p):
    """a constant of single precision"""
    c = const_of(poly(p))
    return c is not None and not was_rounded(p)


def was_rounded(p):
    """a constant that single precision changes"""
    import struct
    c = const_of(poly(p))
    try:
        return c is not None and c == c and abs(c) != float("inf") and struct.unpack("f", struct.pack("f", float(c)))[0] != float(c)
    except OverflowError:
        return True


for _n, _d in (("float", "float32"), ("double", "float64"), ("long", "int64"), ("int", "int64"), ("bool", "bool"), ("half", "float16")):
    F[_n] = (lambda d: lambda it, t: t if t.dtype == d else cast(it, t, d))(_d)


@op("view", "reshape")
def _view(it, t, *a, **k):
    sh = dims(it, a, k, "shape")
    return t.view(lambda x: comp.reshape(x, sh))


@op("view_as", "reshape_as")
def _view_as(it, t, o):
    return t.view(lambda x: comp.reshape(x, list(o.shape)))


@op("expand", "broadcast_to")
def _expand(it, t, *a, **k):
    sh = dims(it, a, k)
    off = len(sh) - len(t.shape)
    if off < 0:
        raise Malformed(f"expand {tuple(t.shape)} to {sh}")
    sh = [t.shape[i - off] if s == -1 else s for i, s in enumerate(sh)]
    if comp.bshape(t.shape, sh) != tuple(sh):
        raise Malformed(f"expand {tuple(t.shape)} to {sh}")
    return t.view(lambda x: comp.expand(x, sh))


@op("expand_as")
def _expand_as(it, t, o):
    return _expand(it, t, list(o.shape))


@op("broadcast_tensors")
def _bt(it, *ts):
    sh = ()
    for t in ts:
        sh = comp.bshape(sh, t.shape)
    return tuple(_expand(it, t, list(sh)) for t in ts)


@op("broadcast_shapes")
def _bs(it, *shs):
    sh = ()
    for t in shs:
        sh = comp.bshape(sh, tuple(t))
    return tuple(sh)


@op("repeat", "tile")
def _repeat(it, t, *a, **k):
    reps = dims(it, a, k, "repeats")
    sh = (1,) * (len(reps) - len(t.shape)) + tuple(t.shape)
    if len(sh) != len(reps):
        raise Malformed("repeat")
    x = comp.reshape(t.arr(), sh)
    out = tuple(s * r for s, r in zip(sh, reps))
    return tn.make(Arr(out, {i: x.data[tuple(j % s for j, s in zip(i, sh))] for i in product(*map(range, out))}), t.dtype)


@op("repeat_interleave")
def _ri(it, t, r, dim=None):
    if dim is None or not isinstance(r, int):
        raise Unknown("repeat_interleave")
    d = ax(t, dim)
    sh = list(t.shape)
    sh[d] *= r
    x = t.arr()
    return tn.make(Arr(tuple(sh), {i: x.data[(*i[:d], i[d] // r, *i[d + 1:])] for i in product(*map(range, sh))}), t.dtype)


@op("transpose", "swapaxes")
def _tr(it, t, dim0, dim1):
    a, b = ax(t, dim0), ax(t, dim1)
    return t.view(lambda x: comp.swap(x, a, b))


@op("t")
def _t(it, t):
    return t.view(lambda x: comp.swap(x, 0, 1)) if len(t.shape) == 2 else t


@op("permute")
def _perm(it, t, *a, **k):
    o = dims(it, a, k, "dims")
    return t.view(lambda x: comp.permute(x, o))


@op("movedim", "moveaxis")
def _movedim(it, t, source, destination):
    n = len(t.shape)
    o = [i for i in range(n) if i != source % n]
    o.insert(destination % n, source % n)
    return t.view(lambda x: comp.permute(x, o))


@op("unsqueeze")
def _unsq(it, t, dim):
    d = dim % (len(t.shape) + 1)
    return t.view(lambda x: comp.reshape_new(x, d))


@op("squeeze")
def _sq(it, t, dim=None):
    if dim is None:
        return t.view(lambda x: comp.reshape(x, [s for s in x.shape if s != 1]))
    ds = [ax(t, d) for d in (dim if isinstance(dim, (list, tuple)) else [dim])]
    return t.view(lambda x: comp.reshape(x, [s for i, s in enumerate(x.shape) if not (i in ds and s == 1)]))


@op("flatten")
def _flat(it, t, start_dim=0, end_dim=-1):
    if not t.shape:
        return t.view(lambda x: comp.reshape(x, [1]))
    s, e = ax(t, start_dim), ax(t, end_dim)
    return t.view(lambda x: comp.reshape(x, [*x.shape[:s], prod(x.shape[s:e + 1]), *x.shape[e + 1:]]))


@op("ravel")
def _ravel(it, t):
    return _flat(it, t)


@op("unflatten")
def _unflat(it, t, dim, sizes):
    d = ax(t, dim)
    return t.view(lambda x: comp.reshape(x, [*x.shape[:d], *sizes, *x.shape[d + 1:]]))


@op("size")
def _size(it, t, dim=None):
    return tuple(t.shape) if dim is None else t.shape[ax(t, dim)]


@op("dim", "ndimension")
def _dim(it, t):
    return len(t.shape)


@op("numel", "nelement")
def _numel(it, t):
    return prod(t.shape)


@op("item")
def _item(it, t):
    if prod(t.shape) != 1:
        raise Malformed("item of a tensor")
    v = t.flat()[0]
    if isinstance(v, bool):
        return v
    c = const_of(v)
    if c is not None:
        return int(c) if t.dtype == "int64" else float(c)
    return tn.full((), v, "scalar")


@op("tolist")
def _tolist(it, t):
    def go(x):
        if not x.shape:
            return _item(it, x)
        return [go(tn.index(x, i)) for i in range(x.shape[0])]
    return go(t)


@op("narrow")
def _narrow(it, t, dim, start, length):
    d = ax(t, dim)
    return tn.index(t, (*[slice(None)] * d, slice(start, start + length)))


@op("select")
def _select(it, t, dim, index):
    d = ax(t, dim)
    return tn.index(t, (*[slice(None)] * d, index))


@op("index_select")
def _isel(it, t, dim, index):
    d = ax(t, dim)
    return tn.index(t, (*[slice(None)] * d, index))


@op("unbind")
def _unbind(it, t, dim=0):
    d = ax(t, dim)
    return tuple(tn.index(t, (*[slice(None)] * d, i)) for i in range(t.shape[d]))


@op("split")
def _split(it, t, split_size, dim=0):
    d = ax(t, dim)
    n = t.shape[d]
    sizes = list(split_size) if isinstance(split_size, (list, tuple)) else [min(split_size, n - i) for i in range(0, n, split_size)]
    if sum(sizes) != n:
        raise Malformed("split")
    out, o = [], 0
    for s in sizes:
        out.append(tn.index(t, (*[slice(None)] * d, slice(o, o + s))))
        o += s
    return tuple(out)


@op("chunk")
def _chunk(it, t, chunks, dim=0):
    n = t.shape[ax(t, dim)]
    return _split(it, t, -(-n // chunks), dim)


@op("flip")
def _flip(it, t, *a, **k):
    ds = [ax(t, d) for d in dims(it, a, k, "dims")]
    x = t.arr()
    return tn.make(Arr(x.shape, {i: x.data[tuple(x.shape[q] - 1 - j if q in ds else j for q, j in enumerate(i))] for i in x.data}), t.dtype)


@op("roll")
def _roll(it, t, shifts, dims=None):
    if dims is None:
        raise Unknown("roll")
    d = ax(t, dims if isinstance(dims, int) else dims[0])
    s = shifts if isinstance(shifts, int) else shifts[0]
    x = t.arr()
    n = x.shape[d]
    return tn.make(Arr(x.shape, {i: x.data[(*i[:d], (i[d] - s) % n, *i[d + 1:])] for i in x.data}), t.dtype)


@op("stack", "vstack_")
def _stack(it, tensors, dim=0):
    ts = list(it.iterate(tensors))
    ts = [it.ten(x) for x in ts]
    if any(x.shape != ts[0].shape for x in ts):
        raise Malformed(f"stack of {[tuple(x.shape) for x in ts]}")
    d = dim % (len(ts[0].shape) + 1)
    return tn.make(comp.cat([comp.reshape_new(x.arr(), d) for x in ts], d), common(it, ts))


@op("cat", "concat", "concatenate", "hstack")
def _cat(it, tensors, dim=0):
    ts = [it.ten(x) for x in it.iterate(tensors)]
    if not ts:
        raise Malformed("cat of nothing")
    full = [x for x in ts if tuple(x.shape) != (0,)]
    if not full:
        return ts[0]
    ax(full[0], dim)
    return tn.make(comp.cat([x.arr() for x in full], dim), common(it, ts))


def common(it, ts):
    d = ts[0].dtype
    for x in ts[1:]:
        if x.dtype != d:
            if x.dtype in FLOATS and d in FLOATS:
                it.mixed.append((d, x.dtype, it.here()))
            rank = {"bool": 0, "int64": 1, "scalar": 2, "float16": 3, "float32": 4, "float64": 5}
            d = d if rank[d] >= rank[x.dtype] else x.dtype
    return d


@op("diagonal")
def _diagonal(it, t, offset=0, dim1=0, dim2=1):
    a, b = ax(t, dim1), ax(t, dim2)
    if offset != 0:
        raise Unknown("diagonal")
    rest = [i for i in range(len(t.shape)) if i not in (a, b)]
    n = min(t.shape[a], t.shape[b])
    sh = (*[t.shape[i] for i in rest], n)

    def f(x):
        out = {}
        for i in product(*map(range, sh)):
            src = [0] * len(x.shape)
            for q, j in zip(rest, i):
                src[q] = j
            src[a] = src[b] = i[-1]
            out[i] = x.data[tuple(src)]
        return Arr(sh, out)
    return t.view(f)


@op("diag_embed")
def _de(it, t, *a, **k):
    if a or k:
        raise Unknown("diag_embed")
    x = t.arr()
    sh = (*x.shape, x.shape[-1])
    return tn.make(Arr(sh, {i: x.data[i[:-1]] if i[-1] == i[-2] else {} for i in product(*map(range, sh))}), t.dtype)


@op("diag")
def _diag(it, t):
    return _de(it, t) if len(t.shape) == 1 else _diagonal(it, t)


@op("block_diag")
def _bd(it, *ts):
    r, c = sum(t.shape[0] for t in ts), sum(t.shape[1] for t in ts)
    data = {i: {} for i in product(range(r), range(c))}
    a = b = 0
    for t in ts:
        for (i, j), v in t.arr().data.items():
            data[a + i, b + j] = v
        a, b = a + t.shape[0], b + t.shape[1]
    return tn.make(Arr((r, c), data), common(it, ts))


# -------------------------------------------------------------------- creation
def created(it, shape, val, kw, like=None):
    d = dtype_of(it, kw.get("dtype"), like.dtype if like is not None else it.p_default)
    if d == "bool":
        val = bool(val)
    return tn.full(tuple(shape), val, d)


@op("new_zeros")
def _nz(it, t, *a, **k):
    return created(it, dims(it, a, k), {}, k, t)


@op("new_ones")
def _no(it, t, *a, **k):
    return created(it, dims(it, a, k), num(1), k, t)


@op("new_empty")
def _ne(it, t, *a, **k):
    from .algebra import atom
    return created(it, dims(it, a, k), atom(("uninit",)), k, t)


@op("new_full")
def _nf(it, t, size, fill_value, **k):
    return created(it, size, it.ten(fill_value).flat()[0], k, t)


@op("new_tensor")
def _nt(it, t, data, **k):
    return it.ten(data, dtype_of(it, k.get("dtype"), t.dtype))


@op("zeros")
def _z(it, *a, **k):
    return created(it, dims(it, a, k), {}, k)


@op("ones")
def _o(it, *a, **k):
    return created(it, dims(it, a, k), num(1), k)


@op("empty")
def _e(it, *a, **k):
    from .algebra import atom
    return created(it, dims(it, a, k), atom(("uninit",)), k)


@op("full")
def _f(it, size, fill_value, **k):
    return created(it, size, it.ten(fill_value).flat()[0], k)


@op("zeros_like")
def _zl(it, t, **k):
    return created(it, t.shape, {}, k, t)


@op("ones_like")
def _ol(it, t, **k):
    return created(it, t.shape, num(1), k, t)


@op("empty_like")
def _el(it, t, **k):
    from .algebra import atom
    return created(it, t.shape, atom(("uninit",)), k, t)


@op("full_like")
def _fl(it, t, fill_value, **k):
    return created(it, t.shape, it.ten(fill_value).flat()[0], k, t)


@op("eye")
def _eye(it, n, m=None, **k):
    m = n if m is None else m
    d = dtype_of(it, k.get("dtype"), it.p_default)
    return tn.make(Arr((n, m), {(i, j): num(1) if i == j else {} for i in range(n) for j in range(m)}), d)


@op("arange")
def _arange(it, *a, **k):
    a = [x if not isinstance(x, Ten) else tn.ints(x)[0] for x in a]
    a = [*a]
    if "end" in k:
        a = [k.get("start", 0), k["end"]]
    if any(isinstance(x, float) for x in a):
        raise Unknown("arange")
    r = list(range(*a))
    return tn.make(Arr((len(r),), {(i,): num(x) for i, x in enumerate(r)}), dtype_of(it, k.get("dtype"), "int64"))


@op("linspace")
def _lin(it, start, end, steps, **k):
    s, e = Fraction(start).limit_denominator(10**9), Fraction(end).limit_denominator(10**9)
    return tn.make(Arr((steps,), {(i,): num(s + (e - s) * i / max(steps - 1, 1)) for i in range(steps)}), dtype_of(it, k.get("dtype"), it.p_default))


@op("tensor", "as_tensor", "from_numpy", "asarray")
def _tensor(it, data, dtype=None, device=None, **k):
    if isinstance(data, Ten):
        return data if dtype is None else _to(it, data, dtype)
    d = dtype_of(it, dtype)
    if d is None and isinstance(data, float):
        d = it.p_default
    r = it.ten(data, d)
    if r.dtype == "bool" and d not in (None, "bool"):
        r = cast(it, r, d)
    return r


@op("get_default_dtype")
def _gdd(it):
    from .interp import Ext
    return Ext("torch." + it.p_default)


@op("Size")
def _Size(it, x):
    return tuple(it.iterate(x))


@op("device")
def _device(it, *a):
    from .interp import Ext
    return Ext("device")


@op("is_tensor")
def _ist(it, x):
    return isinstance(x, Ten)


# -------------------------------------------------------------------- arithmetic
for _n, _o2 in (("add", "+"), ("sub", "-"), ("subtract", "-"), ("mul", "*"), ("multiply", "*"), ("div", "/"), ("divide", "/"), ("true_divide", "/"), ("matmul", "@"),
                ("bmm", "@"), ("mm", "@"), ("mv", "@"), ("floor_divide", "//"), ("remainder", "%")):
    def _mk(o):
        def f(it, t, other=None, alpha=None, rounding_mode=None, **k):
            other = k.get("mat2", k.get("vec", other)) if other is None else other
            if rounding_mode is not None:
                raise Unknown("rounding mode")
            if alpha is not None:
                other = it.binop("*", other, alpha)
            return it.binop(o, t, other)
        return f
    F[_n] = _mk(_o2)


@op("rsub")
def _rsub(it, t, other):
    return it.binop("-", other, t)


@op("pow", "float_power")
def _pow(it, t, exponent):
    return it.binop("**", t, exponent)


@op("square")
def _square(it, t):
    return mapped(t, lambda p: mul(p, p), t.dtype)


@op("sqrt")
def _sqrt(it, t):
    return mapped(t, lambda p: it.region.power(p, Fraction(1, 2)))


@op("rsqrt")
def _rsqrt(it, t):
    return mapped(t, lambda p: it.region.power(p, Fraction(-1, 2)))


@op("reciprocal")
def _recip(it, t):
    return mapped(t, it.div)


@op("neg", "negative")
def _neg(it, t):
    return mapped(t, lambda p: mul(num(-1), p), t.dtype)


@op("deg2rad")
def _d2r(it, t):
    return mapped(t, lambda p: mul(p, num(nf.PI / 180)))


for _n in ("sin", "cos", "tan", "exp", "log", "abs", "sign", "floor", "ceil", "acos", "asin", "atan", "tanh", "sinh", "cosh"):
    F[_n] = (lambda n: lambda it, t: mapped(t, lambda p: it.region.fn(n, p), t.dtype if n in ("abs", "sign", "floor", "ceil") else None))(_n)
F["arccos"], F["arcsin"], F["arctan"], F["absolute"] = F["acos"], F["asin"], F["atan"], F["abs"]


@op("relu")
def _relu(it, t):
    return F["clamp"](it, t, min=0)


@op("log1p")
def _log1p(it, t):
    return mapped(t, lambda p: it.region.fn("log", add(num(1), p)))


@op("atan2", "arctan2")
def _atan2(it, t, other):
    o = it.ten(other)
    return tn.make(comp.zipw(t.arr(), o.arr(), it.region.atan2), it.promote(t, o))


@op("hypot")
def _hypot(it, t, other):
    return tn.make(comp.zipw(t.arr(), other.arr(), lambda x, y: it.region.power(nf.reduce(add(mul(x, x), mul(y, y))), Fraction(1, 2))), it.promote(t, other))


@op("lerp")
def _lerp(it, t, end, weight):
    return it.binop("+", t, it.binop("*", weight, it.binop("-", end, t)))


def axes(t, dim):
    if dim is None:
        return list(range(len(t.shape)))
    return [ax(t, d) for d in (dim if isinstance(dim, (list, tuple)) else [dim])]


def reduced(t, dim, keepdim, f, dtype=None):
    ds = axes(t, dim)
    a = t.arr()
    if not ds:
        out = Arr((), {(): f(list(a.data.values()))})
    else:
        out = comp.reduce(a, ds, keepdim, f)
    return tn.make(out, dtype or t.dtype)


@op("sum", "nansum")
def _sum(it, t, dim=None, keepdim=False, dtype=None, axis=None):
    d = "int64" if t.dtype == "bool" else t.dtype
    return reduced(t, dim if axis is None else axis, keepdim, lambda xs: comp.total(map(poly, xs)), d)


@op("mean")
def _mean(it, t, dim=None, keepdim=False, dtype=None):
    n = prod(t.shape[d] for d in axes(t, dim))
    return reduced(t, dim, keepdim, lambda xs: mul(comp.total(xs), num(Fraction(1, n))))


@op("var")
def _var(it, t, dim=None, unbiased=True, keepdim=False, correction=None):
    n = prod(t.shape[d] for d in axes(t, dim))
    m = n - (correction if correction is not None else 1 if unbiased else 0)
    if m <= 0:
        raise Unknown("variance of one sample")

    def f(xs):
        mean = mul(comp.total(xs), num(Fraction(1, n)))
        return mul(comp.total(mul(d, d) for d in (add(poly(x), mean, -1) for x in xs)), num(Fraction(1, m)))
    return reduced(t, dim, keepdim, f)


@op("std")
def _std(it, t, *args, **kw):
    return _sqrt(it, _var(it, t, *args, **kw))


@op("softmax")
def _softmax(it, t, dim, dtype=None):
    e = F["exp"](it, t)
    return it.binop("/", e, _sum(it, e, dim, True))


def ranked(it, t, dim, descending):
    d = ax(t, dim)
    a = t.arr()
    pos, val = {}, {}
    for i in product(*[range(n) if k != d else (0,) for k, n in enumerate(t.shape)]):
        xs = [(k, poly(a.data[(*i[:d], k, *i[d + 1:])])) for k in range(t.shape[d])]
        order = sorted(xs, key=lambda kx: it.region.value(kx[1]), reverse=bool(descending))
        for (_, x), (_, y) in zip(order, order[1:]):
            q = add(y, x, -1)
            if const_of(q) is None:
                it.region.decided.append(("<" if descending else ">", q, it.region.value(q)))
        for k, (j, x) in enumerate(order):
            pos[(*i[:d], k, *i[d + 1:])], val[(*i[:d], k, *i[d + 1:])] = num(j), x
    return tn.make(Arr(tuple(t.shape), val), t.dtype), tn.make(Arr(tuple(t.shape), pos), "int64")


@op("sort")
def _sort(it, t, dim=-1, descending=False, stable=False):
    return ranked(it, t, dim, descending)


@op("argsort")
def _argsort(it, t, dim=-1, descending=False, stable=False):
    return ranked(it, t, dim, descending)[1]


@op("topk")
def _topk(it, t, k, dim=-1, largest=True, sorted=True):
    d = ax(t, dim)
    out = []
    for x in ranked(it, t, dim, largest):
        sh = tuple(min(k, n) if i == d else n for i, n in enumerate(x.shape))
        out.append(tn.make(Arr(sh, {i: v for i, v in x.arr().data.items() if i[d] < k}), x.dtype))
    return tuple(out)


@op("prod")
def _prod(it, t, dim=None, keepdim=False):
    def f(xs):
        out = num(1)
        for x in xs:
            out = mul(out, poly(x))
        return out
    return reduced(t, dim, keepdim, f)


@op("norm", "vector_norm")
def _norm(it, t, p=None, dim=None, keepdim=False, ord=None, dtype=None):
    p = ord if ord is not None else p
    if p not in (None, 2, 2.0, "fro"):
        if p in (1,):
            return reduced(t, dim, keepdim, lambda xs: comp.total(it.region.abs(x) for x in xs))
        raise Unknown("norm")
    watch, it.region.watch = it.region.watch, None      # the derivative of a norm at zero is zero
    try:
        return reduced(t, dim, keepdim, lambda xs: it.region.power(nf.reduce(comp.total(mul(x, x) for x in xs)), Fraction(1, 2)))
    finally:
        it.region.watch = watch


def extreme(it, xs, hi):
    best = 0
    for i, x in enumerate(xs[1:], 1):
        d = add(poly(x), poly(xs[best]), -1)
        v = it.region.value(d)
        up = (v > 1e-13) if hi else (v < -1e-13)
        if const_of(d) is None:
            it.region.decided.append((">" if (hi and up) else "<" if up else "<=" if hi else ">=", d, v if up else 0.0))
        if up:
            best = i
    return best


def _ext(hi):
    def f(it, t, other=None, dim=None, keepdim=False):
        if isinstance(other, Ten):
            return tn.make(comp.zipw(t.arr(), other.arr(), lambda x, y: [x, y][extreme(it, [x, y], hi)]), it.promote(t, other))
        if isinstance(other, int) and dim is None:
            dim = other
        if dim is None:
            xs = t.flat()
            return tn.full((), xs[extreme(it, xs, hi)], t.dtype)
        val = reduced(t, dim, keepdim, lambda xs: xs[extreme(it, xs, hi)])
        pos = reduced(t, dim, keepdim, lambda xs: num(extreme(it, xs, hi)), "int64")
        return (val, pos)
    return f


F["max"], F["min"] = _ext(True), _ext(False)
F["maximum"], F["minimum"] = F["max"], F["min"]
F["amax"] = lambda it, t, dim=None, keepdim=False: reduced(t, dim, keepdim, lambda xs: xs[extreme(it, xs, True)])
F["amin"] = lambda it, t, dim=None, keepdim=False: reduced(t, dim, keepdim, lambda xs: xs[extreme(it, xs, False)])
F["argmax"] = lambda it, t, dim=None, keepdim=False: reduced(t, dim, keepdim, lambda xs: num(extreme(it, xs, True)), "int64")
F["argmin"] = lambda it, t, dim=None, keepdim=False: reduced(t, dim, keepdim, lambda xs: num(extreme(it, xs, False)), "int64")


@op("clamp", "clip")
def _clamp(it, t, min=None, max=None):
    lo = it.ten(min) if min is not None else None
    hi = it.ten(max) if max is not None else None
    a = t
    if lo is not None:
        a = tn.make(comp.zipw(a.arr(), lo.arr(), lambda x, y: [x, y][extreme(it, [x, y], True)]), t.dtype)
    if hi is not None:
        a = tn.make(comp.zipw(a.arr(), hi.arr(), lambda x, y: [x, y][extreme(it, [x, y], False)]), t.dtype)
    return a


F["clamp_min"] = lambda it, t, min: _clamp(it, t, min=min)
F["clamp_max"] = lambda it, t, max: _clamp(it, t, max=max)


@op("cross")
def _cross(it, t, other, dim=-1):
    a, b = t.arr(), other.arr()
    sh = comp.bshape(a.shape, b.shape)
    a, b = comp.expand(a, sh), comp.expand(b, sh)
    k = dim % len(sh)
    if sh[k] != 3:
        raise Malformed("cross")

    def g(i):
        j = i[k]
        p, q = (j + 1) % 3, (j + 2) % 3

        def w(v):
            return (*i[:k], v, *i[k + 1:])
        return add(mul(a.data[w(p)], b.data[w(q)]), mul(a.data[w(q)], b.data[w(p)]), -1)
    return tn.make(Arr(sh, {i: g(i) for i in product(*map(range, sh))}), it.promote(t, other))


@op("dot", "inner", "vdot")
def _dot(it, t, other):
    return _sum(it, it.binop("*", t, other), -1)


@op("outer", "ger")
def _outer(it, t, other):
    return it.binop("*", _unsq(it, t, 1), _unsq(it, other, 0))


@op("baddbmm")
def _baddbmm(it, t, a, b, beta=1, alpha=1):
    return it.binop("+", it.binop("*", t, beta), it.binop("*", it.binop("@", a, b), alpha))


@op("trace")
def _trace(it, t):
    return _sum(it, _diagonal(it, t))


@op("det")
def _det(it, t):
    a = t.arr()
    n = a.shape[-1]

    def minor(i, rows, cols):
        if len(rows) == 1:
            return a.data[(*i, rows[0], cols[0])]
        out, s = {}, 1
        for c in cols:
            out = add(out, mul(a.data[(*i, rows[0], c)], minor(i, rows[1:], [x for x in cols if x != c])), s)
            s = -s
        return out
    lead = a.shape[:-2]
    return tn.make(Arr(lead, {i: minor(i, list(range(n)), list(range(n))) for i in product(*map(range, lead))}), t.dtype)


@op("inverse", "inv", "pinverse")
def _inv(it, t, **k):
    a = t.arr()
    n = a.shape[-1]
    if len(a.shape) < 2 or a.shape[-2] != n:
        raise Malformed("inverse of a matrix that is not square")
    out = {}
    for i in product(*map(range, a.shape[:-2])):
        m = nf.inverse_of([[a.data[(*i, p, q)] for q in range(n)] for p in range(n)])
        for p in range(n):
            for q in range(n):
                out[(*i, p, q)] = m[p][q]
    return tn.make(Arr(a.shape, out), t.dtype)


def matmul_(it, x, y):
    return it.binop_("@", x, y)


@op("solve")
def _solve(it, t, b, left=True, **k):
    inv = _inv(it, t)
    if not left:
        return matmul_(it, b, inv)
    if len(b.shape) == 1 or len(b.shape) == len(t.shape) - 1 and tuple(b.shape) == tuple(t.shape[:-1]):
        x = matmul_(it, inv, F["unsqueeze"](it, b, -1))
        return F["squeeze"](it, x, -1)
    return matmul_(it, inv, b)


@op("solve_triangular")
def _solve_tri(it, t, b, upper=None, left=True, unitriangular=False, **k):
    """substitution by the documented triangle; the other one is not looked at"""
    if upper is None:
        from .interp import Raised
        raise Raised("TypeError", "solve_triangular() missing required argument 'upper'", it.here())
    if not left:
        x = _solve_tri(it, F["transpose"](it, t, -1, -2), F["transpose"](it, b, -1, -2), upper=not upper, unitriangular=unitriangular)
        return F["transpose"](it, x, -1, -2)
    a, y = t.arr(), b.arr()
    n, m = a.shape[-1], y.shape[-1]
    if len(a.shape) < 2 or a.shape[-2] != n or len(y.shape) < 2 or y.shape[-2] != n:
        raise Malformed("solve_triangular")
    lead = tuple(F["broadcast_shapes"](it, a.shape[:-2], y.shape[:-2]))

    def pick(sh, i):
        j = i[len(i) - len(sh):]
        return tuple(0 if d == 1 else q for d, q in zip(sh, j))
    out = {}
    for i in product(*map(range, lead)):
        ia, ib = pick(a.shape[:-2], i), pick(y.shape[:-2], i)
        for c in range(m):
            for p in (range(n - 1, -1, -1) if upper else range(n)):
                f = poly(y.data[(*ib, p, c)])
                for q in (range(p + 1, n) if upper else range(p)):
                    f = add(f, mul(poly(a.data[(*ia, p, q)]), out[(*i, q, c)]), -1)
                if not unitriangular:
                    f = mul(f, al.power(poly(a.data[(*ia, p, p)]), -1))
                out[(*i, p, c)] = f
    return tn.make(Arr((*lead, n, m), out), t.dtype)


def occurs(f, keys, seen):
    """does a form depend on one of these symbols (cut values do not)"""
    for m in poly(f):
        for k, _ in m:
            if k in keys:
                return True
            if k in seen or k[0] == "stop":
                continue
            seen.add(k)
            if k[0] == "let":
                parts = [nf.LETS[k]]
            elif k[0] in ("inv", "chol"):
                parts = [x for row in (nf.INV if k[0] == "inv" else nf.CHOL)[k[1]] for x in row]
            else:
                parts = [dict(x) for x in k[1:] if isinstance(x, tuple) and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) for y in x)]
            if any(occurs(x, keys, seen) for x in parts):
                return True
    return False


def gradient(it, outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, allow_unused=None, is_grads_batched=False, materialize_grads=False):
    """torch.autograd.grad with respect to leaves"""
    one = not isinstance(inputs, (list, tuple))
    ins = [inputs] if one else list(inputs)
    outs = [outputs] if not isinstance(outputs, (list, tuple)) else list(outputs)
    seeds = [None] * len(outs) if grad_outputs is None else [grad_outputs] if isinstance(grad_outputs, Ten) else list(grad_outputs)
    total = {}
    for o, g in zip(outs, seeds):
        e = o.arr().data
        if g is None and len(e) != 1:
            from .interp import Raised
            raise Raised("RuntimeError", "grad can be implicitly created only for scalar outputs", it.here())
        ge = g.arr().data if g is not None else None
        for i, v in e.items():
            total = add(total, poly(v) if ge is None else mul(poly(v), poly(ge[i])))
    res = []
    for t in ins:
        e = t.arr().data
        keys = {}
        for i, v in e.items():
            p = poly(v)
            m = next(iter(p)) if len(p) == 1 else ()
            if len(m) != 1 or m[0][1] != 1 or p[m] != 1 or m[0][0][0] in ("let", "sum", "stop", "inv"):
                raise Unknown("gradient with respect to a value that is not a leaf")
            keys[i] = m[0][0]
        if not occurs(total, set(keys.values()), set()):
            if not allow_unused and not materialize_grads:
                from .interp import Raised
                raise Raised("RuntimeError", "One of the differentiated Tensors appears to not have been used in the graph", it.here())
            res.append(tn.full(tuple(t.shape), {}, t.dtype) if materialize_grads else None)
            continue
        memo = {i: nf.derive(total, lambda z, k=k: {(): 1} if z == k else None) for i, k in keys.items()}
        res.append(tn.make(Arr(t.arr().shape, memo), t.dtype))
    return tuple(res)


@op("lu")
def _lu(it, x, pivot=True, get_infos=False):
    """factors are left opaque; the infos say that the (generic) matrix is regular"""
    n, lead = x.shape[-1], tuple(x.shape[:-2])
    infos = tn.full(lead, {}, "int64")
    return (x, tn.full((*lead, n), {}, "int64"), infos) if get_infos else (x, tn.full((*lead, n), {}, "int64"))


@op("cholesky_solve")
def _chol_solve(it, b, L, upper=False, **k):
    """solution for the matrix of which L is the factor"""
    a = L.arr()
    n = a.shape[-1]
    rows, cut = {}, set()
    for i in product(*map(range, a.shape[:-2])):
        for p in range(n):
            for q in range(n):
                x, y = (q, p) if upper else (p, q)
                f = a.data[(*i, p, q)]
                if y > x:
                    if f:
                        raise Unknown("cholesky factor")
                    continue
                m = next(iter(f)) if len(f) == 1 else ()
                if len(m) == 1 and m[0][0][0] == "stop" and m[0][1] == 1 and f[m] == 1:
                    f = dict(m[0][0][1])
                    m = next(iter(f)) if len(f) == 1 else ()
                    cut.add(i)
                if len(m) != 1 or m[0][1] != 1 or m[0][0][0] != "chol" or m[0][0][2:] != (x, y) or f[m] != 1 or rows.setdefault(i, m[0][0][1]) != m[0][0][1]:
                    raise Unknown("cholesky factor")
    out = {}
    for i, k in rows.items():
        for p in range(n):
            for q in range(n):
                out[(*i, p, q)] = tn.stop(poly(nf.CHOL[k][p][q])) if i in cut else nf.CHOL[k][p][q]
    return matmul_(it, _inv(it, tn.make(Arr(a.shape, out), L.dtype)), b)


@op("cholesky")
def _chol(it, t, upper=False):
    """opaque factor of the matrix (its entries are numbers given the matrix)"""
    a = t.arr()
    n = a.shape[-1]
    if a.shape[-2] != n:
        raise Malformed("cholesky")
    out = {}
    for i in product(*map(range, a.shape[:-2])):
        m = tuple(al.freeze(a.data[(*i, p, q)]) for p in range(n) for q in range(n))
        k = nf.CHOL.get(m)
        if k is None:
            k = nf.CHOL[m] = len(nf.CHOL)
            nf.CHOL[k] = [[a.data[(*i, p, q)] for q in range(n)] for p in range(n)]
        for p in range(n):
            for q in range(n):
                x, y = (q, p) if upper else (p, q)
                out[(*i, p, q)] = al.atom(("chol", k, x, y)) if y <= x else {}
    return tn.make(Arr(a.shape, out), t.dtype)


@op("conj", "resolve_conj")
def _conj(it, t):
    return t


@op("tril", "triu")
def _tri(it, t, diagonal=0):
    raise Unknown("triangle")


@op("cumsum")
def _cumsum(it, t, dim):
    d = ax(t, dim)
    a = t.arr()
    out = {}
    for i in product(*map(range, a.shape)):
        prev = out.get((*i[:d], i[d] - 1, *i[d + 1:]), {})
        out[i] = add(prev, poly(a.data[i]))
    return tn.make(Arr(a.shape, out), t.dtype)


@op("einsum")
def _einsum(it, eq, *ts):
    if len(ts) == 1 and isinstance(ts[0], (list, tuple)):
        ts = list(ts[0])
    eq = eq.replace(" ", "")
    lhs, _, rhs = eq.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ts):
        raise Malformed("einsum")
    ell = 0
    for s, t in zip(ins, ts):
        if "..." in s:
            ell = max(ell, len(t.shape) - len(s.replace("...", "")))

    def names(s, n):
        out = []
        i = 0
        while i < len(s):
            if s.startswith("...", i):
                k = n - len(s.replace("...", ""))
                out += [("e", ell - k + j) for j in range(k)]
                i += 3
            else:
                out.append(s[i])
                i += 1
        return out
    labels = [names(s, len(t.shape)) for s, t in zip(ins, ts)]
    if "->" in eq:
        out = []
        i = 0
        while i < len(rhs):
            if rhs.startswith("...", i):
                out += [("e", j) for j in range(ell)]
                i += 3
            else:
                out.append(rhs[i])
                i += 1
    else:
        flat = [x for q in labels for x in q]
        out = [("e", j) for j in range(ell)] + sorted(x for x in set(flat) if not isinstance(x, tuple) and flat.count(x) == 1)
    size = {}
    for q, t in zip(labels, ts):
        if len(q) != len(t.shape):
            raise Malformed(f"einsum {eq}")
        for x, s in zip(q, t.shape):
            if size.get(x, 1) == 1:
                size[x] = s
            elif s not in (1, size[x]):
                raise Malformed(f"einsum {eq} {[tuple(z.shape) for z in ts]}")
    rest = [x for x in size if x not in out]
    sh = tuple(size[x] for x in out)
    arrs = [t.arr() for t in ts]
    data = {}
    for i in product(*map(range, sh)):
        env = dict(zip(out, i))
        s = {}
        for j in product(*[range(size[x]) for x in rest]):
            env.update(zip(rest, j))
            p = num(1)
            for q, a in zip(labels, arrs):
                v = a.data[tuple(env[x] if a.shape[n] != 1 else 0 for n, x in enumerate(q))]
                if not v:
                    p = {}
                    break
                p = mul(p, v)
            s = add(s, p)
        data[i] = s
    return tn.make(Arr(sh, data), common(it, list(ts)))


# -------------------------------------------------------------------- selection and logic
@op("where")
def _where(it, *a, **k):
    if isinstance(a[0], Ten) and a[0].dtype != "bool" and len(a) >= 2 and isinstance(a[1], Ten) and a[1].dtype == "bool":
        x, c, y = a[0], a[1], a[2] if len(a) > 2 else k["other"]
    else:
        c = a[0] if a else k["condition"]
        x = a[1] if len(a) > 1 else k.get("input")
        y = a[2] if len(a) > 2 else k.get("other")
        if len(a) == 3 and isinstance(a[0], Ten) and a[0].dtype != "bool":
            raise Unknown("where")
    if x is None or y is None:
        raise Unknown("where with one argument")
    x, y = it.ten(x), it.ten(y)
    sh = comp.bshape(comp.bshape(c.shape, x.shape), y.shape)
    ca, xa, ya = (comp.expand(z.arr(), sh) for z in (c, x, y))
    d = it.promote(x, y)
    if d == "scalar":
        d = it.p_default
    return tn.make(Arr(sh, {i: xa.data[i] if ca.data[i] else ya.data[i] for i in ca.data}), d)


def _cmp(o):
    return lambda it, t, other: it.compare(o, t, other)


for _n, _o2 in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!="), ("less", "<"), ("greater", ">")):
    F[_n] = _cmp(_o2)


def _logic(f):
    def g(it, t, other):
        def b(v):
            return v if isinstance(v, bool) else const_of(v) != 0
        return tn.make(comp.zipw(t.arr(), it.ten(other).arr(), lambda x, y: f(b(x), b(y))), "bool")
    return g


F["logical_and"], F["logical_or"], F["logical_xor"] = _logic(lambda x, y: x and y), _logic(lambda x, y: x or y), _logic(lambda x, y: x != y)


@op("logical_not", "bitwise_not")
def _lnot(it, t):
    return tn.make(t.arr().map(lambda v: not v if isinstance(v, bool) else const_of(v) == 0), "bool")


@op("any")
def _any(it, t, dim=None, keepdim=False):
    return reduced(t, dim, keepdim, lambda xs: any(x if isinstance(x, bool) else bool(x) for x in xs), "bool")


@op("all")
def _all(it, t, dim=None, keepdim=False):
    return reduced(t, dim, keepdim, lambda xs: all(x if isinstance(x, bool) else bool(x) for x in xs), "bool")


@op("allclose")
def _allclose(it, t, other, rtol=1e-5, atol=1e-8, **k):
    o = it.ten(other)
    d = comp.zipw(t.arr(), o.arr(), lambda x, y: add(poly(x), poly(y), -1))
    for p in d.data.values():
        c = const_of(p)
        if c is not None:
            if abs(c) > 1e-5:
                return False
        elif abs(it.region.value(p)) > 1e-5:
            return False
    return True


@op("isclose")
def _isclose(it, t, other, rtol=1e-5, atol=1e-8, **k):
    o = it.ten(other)
    return tn.make(comp.zipw(t.arr(), o.arr(), lambda x, y: abs(it.region.value(add(poly(x), poly(y), -1))) < 1e-6), "bool")


@op("equal")
def _equal(it, t, other):
    return tuple(t.shape) == tuple(other.shape) and comp.same(t.arr(), other.arr())


@op("isnan")
def _isnan(it, t):
    return tn.make(t.arr().map(lambda p: False), "bool")


def infinite(it, p):
    return not isinstance(p, bool) and any(k[0] == "inf" for m in p for k, _ in m) and abs(it.region.value(p)) > 1e25


@op("isinf")
def _isinf(it, t):
    return tn.make(t.arr().map(lambda p: infinite(it, p)), "bool")


@op("isfinite")
def _isfinite(it, t):
    return tn.make(t.arr().map(lambda p: not infinite(it, p)), "bool")


@op("nonzero")
def _nonzero(it, t, as_tuple=False):
    pos = [i for i in product(*map(range, t.shape)) if (t.store[t.keys.data[i]] if t.dtype == "bool" else bool(t.store[t.keys.data[i]]))]
    n = len(t.shape)
    if as_tuple:
        return tuple(tn.make(Arr((len(pos),), {(i,): num(p[k]) for i, p in enumerate(pos)}), "int64") for k in range(n))
    return tn.make(Arr((len(pos), n), {(i, k): num(p[k]) for i, p in enumerate(pos) for k in range(n)}), "int64")


@op("gather")
def _gather(it, t, dim, index):
    d = ax(t, dim)
    x = t.arr()
    ix = dict(zip(product(*map(range, index.shape)), tn.ints(index)))
    return tn.make(Arr(tuple(index.shape), {i: x.data[(*i[:d], j, *i[d + 1:])] for i, j in ix.items()}), t.dtype)


@op("take_along_dim")
def _tad(it, t, indices, dim):
    return _gather(it, t, dim, indices)


# -------------------------------------------------------------------- in place
def inplace(name):
    def f(it, t, *a, **k):
        r = F[name](it, t, *a, **k)
        t.write(t.keys, r.arr())
        return t
    return f


for _n in ("add", "sub", "mul", "div", "neg", "clamp", "sqrt", "pow", "abs", "sin", "cos", "exp", "logical_and", "logical_or", "square"):
    F[_n + "_"] = inplace(_n)


@op("copy_")
def _copy_(it, t, src, *a):
    t.write(t.keys, it.ten(src).arr())
    return t


@op("zero_")
def _zero_(it, t):
    t.write(t.keys, Arr((), {(): {}}))
    return t


@op("fill_")
def _fill_(it, t, v):
    t.write(t.keys, it.ten(v).arr())
    return t


@op("masked_fill")
def _mf(it, t, mask, value):
    return _where(it, mask, it.ten(value), t)


@op("masked_fill_")
def _mf_(it, t, mask, value):
    t.write(t.keys, _where(it, mask, it.ten(value), t).arr())
    return t


@op("scatter_")
def _scatter1(it, t, dim, index, src=None, value=None, reduce=None):
    src = value if src is None else src
    if reduce is not None:
        raise Unknown("scatter")
    d = ax(t, dim)
    a = t.arr()
    out = dict(a.data)
    for i, j in zip(product(*map(range, index.shape)), tn.ints(index)):
        x = src.arr().data[i] if isinstance(src, Ten) and len(src.shape) else it.ten(src).arr().data[()]
        out[(*i[:d], j, *i[d + 1:])] = x
    t.write(t.keys, Arr(tuple(t.shape), out))
    return t


@op("index_copy_", "index_fill_", "index_add_", "scatter_add_", "index_put_")
def _scatter(it, t, *a, **k):
    raise Unknown("scatter")


@op("retain_grad", "share_memory_", "pin_memory")
def _noop(it, t, *a, **k):
    return t


METHODS_ONLY = {"new_zeros", "new_ones", "new_empty", "new_full", "new_tensor"}
SIGS = {"input": 0, "self": 0}


FACTORIES = {"zeros", "ones", "eye", "full", "empty", "tensor", "rand", "randn", "linspace", "arange", "randint", "randperm", "normal"}
ANYWHERE = {"copy_", "index", "size", "dim", "numel", "item", "tolist", "is_tensor", "device", "Size", "get_default_dtype"}


def named_device(xs):
    """device among the arguments of to(): None when there is none"""
    from .interp import Ext
    for x in xs:
        if isinstance(x, Ten):
            return x.store.dev or "given"
        if isinstance(x, Ext) and x.name in ("device", "default device"):
            return "given" if x.name == "device" else "default"
        if isinstance(x, str):
            return "default"
    return None


def placed(it, name, dev, args, out):
    """device of a result"""
    from .interp import Ext
    if name in FACTORIES:
        if isinstance(out, Ten) and not (isinstance(dev, Ext) and dev.name == "device"):
            out.store.dev = f"torch.{name} in {it.here()}"
        return out
    if name in ("to", "cpu", "type_as"):
        d = "default" if name == "cpu" else named_device([dev, *args[1:]])
        want = None if d == "given" else args[0].store.dev if d is None else f"torch.{name} in {it.here()}" if d == "default" else d
        if want != out.store.dev:
            out = tn.make(out.arr(), out.dtype)
            out.store.dev = want
        return out
    if name.startswith(("new_", "zeros_like", "ones_like", "full_like", "empty_like")) and dev is not None:
        out.store.dev = None if isinstance(dev, Ext) and dev.name == "device" else f"torch.{name} in {it.here()}"
        return out
    if name not in ANYWHERE:
        it.place(name, args, out)
    return out


def run(it, name, args, kw):
    f = F.get(name)
    if f is None:
        raise Unknown(f"torch.{name}")
    kw = dict(kw)
    dev = kw.get("device")
    for q in ("out", "device", "requires_grad", "memory_format", "layout", "pin_memory", "generator", "non_blocking", "copy"):
        if q in kw and name not in ("to", "tensor", "as_tensor"):
            if q == "out":
                raise Unknown("out argument")
            kw.pop(q)
    if "input" in kw and name != "where":
        args = [kw.pop("input"), *args]
    try:
        out = f(it, *args, **kw)
        return placed(it, name, dev, [*args, *kw.values()], out)
    except TypeError as ex:
        if "argument" in str(ex):
            raise Unknown(f"torch.{name}: {ex}")
        raise


def install(Interp):
    from .interp import Ext, GradMode, Native

    def torch_fn(self, name, args, kw):
        h = self.hooks.get("torch." + name)
        if h is not None:
            return h(self, *args, **kw)
        if name in ("Tensor",) and args:
            return self.ten(args[0], self.p_default)
        if name in ("no_grad", "enable_grad", "set_grad_enabled", "inference_mode", "autograd.no_grad", "autograd.enable_grad", "autograd.set_grad_enabled"):
            n = name.split(".")[-1]
            if n in ("set_grad_enabled", "inference_mode"):
                on = args[0] if args else kw.get("mode", True)
                on = self.truth(on)
                return GradMode(self, on if n == "set_grad_enabled" else not on, n == "set_grad_enabled")
            return GradMode(self, n == "enable_grad")
        if name == "autograd.grad":
            return gradient(self, *args, **kw)
        if name == "is_grad_enabled":
            return self.mode
        if name.startswith("_C._nn._parse_to") or name == "_C._nn._parse_to":
            d = dev = None
            for x in [*args, *kw.values()]:
                if isinstance(x, Ext) and x.name.startswith("torch."):
                    d = x
                if isinstance(x, Ext) and x.name in ("device", "default device"):
                    dev = x
            return (dev, d, False, None)
        if name in ("nn.Parameter", "nn.parameter.Parameter"):
            return args[0]
        if name in ("manual_seed",):
            return None
        if name == "finfo":
            return Ext("torch.finfo()")
        if name in ("rand", "randn", "rand_like", "randn_like", "normal"):
            self.fresh += 1
            n = f"rand{self.fresh}"
            if name == "normal" and any(isinstance(x, Ten) for x in [*args, *kw.values()]):
                m, sd = (list(args) + [kw[x] for x in ("mean", "std") if x in kw])[:2] if len(args) + len(kw) > 1 else (args[0] if args else kw["mean"], 1.0)
                if "std" in kw and "mean" not in kw and not args:
                    m, sd = 0.0, kw["std"]
                shape = self.binop("+", m, sd).shape
                like = m if isinstance(m, Ten) else sd
                z = tn.symbols(n, shape, like.dtype)
                for j, i in enumerate(z.arr().data):
                    self.region.w[(n, *i)] = 2 * ((0.7548776662 * (j + 1) + 0.5698402910 * self.fresh) % 1) - 0.9
                return self.binop("+", m, self.binop("*", sd, z))
            dev = kw.get("device")
            t = tn.symbols(n, args[0].shape, args[0].dtype) if name.endswith("_like") else \
                tn.symbols(n, dims(self, args, kw), dtype_of(self, kw.get("dtype"), self.p_default))
            for j, i in enumerate(t.arr().data):
                x = (0.7548776662 * (j + 1) + 0.5698402910 * self.fresh) % 1     # somewhere in the unit interval
                self.region.w[(n, *i)] = x if name.startswith("rand") and not name.startswith("randn") else 2 * x - 0.9
            return placed(self, name, dev, args, t)
        return run(self, name, args, kw)

    def ten_attr(self, t, name):
        if name == "shape":
            return tuple(t.shape)
        if name == "ndim":
            return len(t.shape)
        if name == "dtype":
            return Ext("torch." + (t.dtype if t.dtype != "scalar" else self.p_default))
        if name == "device":
            return Ext("device" if t.store.dev is None else "default device")
        if name == "grad_fn":
            return None if t.cut or not self.grads else Ext("grad_fn")
        if name == "data":
            return F["data"](self, t)
        if name == "real":
            return t
        if name == "requires_grad":
            return id(t.store) in self.leaves
        if name == "is_cuda":
            return False
        if name == "grad":
            return None
        if name == "T":
            return F["t"](self, t)
        if name == "mT":
            return F["transpose"](self, t, -2, -1)
        if name == "is_sparse":
            return False
        if name in F or self.hooks.get("torch." + name):
            return Native(lambda *a, **k: torch_fn(self, name, [t, *a], k), name)
        if name == "__class__":
            return Ext("torch.Tensor")
        if name == "is_floating_point":
            return Native(lambda: t.dtype in FLOATS, name)
        if name in ("get_device",):
            return Native(lambda: -1, name)
        raise Unknown(f"tensor attribute {name}")
    Interp.torch_fn = torch_fn
    Interp.ten_attr = ten_attr


__all__ = ["F", "install", "run", "Malformed", "nf"]
