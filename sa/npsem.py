"""The part of numpy and scipy.sparse the library uses for index bookkeeping: arrays are tensors of constants."""
from . import tensor as tn
from .algebra import add, num
from .comp import Malformed, Unknown
from .normal import const_of
from .tensor import Ten, poly

SAME = {"concatenate": "cat", "stack": "stack", "cumsum": "cumsum", "arange": "arange", "zeros": "zeros", "ones": "ones", "empty": "empty",
        "full": "full", "eye": "eye", "zeros_like": "zeros_like", "ones_like": "ones_like", "where": "where", "argsort": "argsort", "sort": "sort", "abs": "abs",
        "sqrt": "sqrt", "exp": "exp", "maximum": "maximum", "minimum": "minimum", "sum": "sum", "prod": "prod", "diff": "diff", "repeat": "repeat_interleave", "all": "all", "any": "any", "logical_and": "logical_and", "logical_or": "logical_or", "logical_not": "logical_not"}


def kind(x):
    """dtype argument of numpy"""
    from .interp import Ext
    if isinstance(x, Ext):
        n = x.name.split(".")[-1]
        return {"int": "int64", "float": "float64", "double": "float64", "bool": "bool", "bool_": "bool", "int32": "int64", "intp": "int64"}.get(n, n)
    if isinstance(x, str):
        return x
    raise Unknown("numpy dtype")


def numpy_fn(it, name, args, kw):
    from .torchsem import cast
    kw = dict(kw)
    d = kw.pop("dtype", None)
    d = None if d is None else kind(d)
    if name in ("array", "asarray", "ascontiguousarray"):
        x = args[0]
        if hasattr(x, "items") and hasattr(x, "where"):      # array of objects
            return x.copy()
        if isinstance(x, (list, tuple)) and any(isinstance(y, Ten) for y in x):
            x = it.torch_fn("stack", [[it.ten(y) for y in x]], {}) if x else it.ten([])
        else:
            flat = list(x) if isinstance(x, (list, tuple, range)) else [x]
            if any(not isinstance(y, (int, float, list, tuple, bool, Ten)) for y in flat):
                from .interp import Obj, Objects
                if all(isinstance(y, Obj) for y in flat):
                    return Objects(flat)
                raise Unknown("numpy array of objects")
            x = it.ten(list(x) if isinstance(x, range) else x, d if d is not None else "int64" if not flat or all(isinstance(y, int) for y in flat) else None)
        if d is not None and x.dtype != d:
            x = cast(it, x, d)
        return tn.make(x.arr(), x.dtype)
    if name == "ndarray":
        shape = args[0] if args else kw["shape"]
        return tn.full(tuple(shape) if isinstance(shape, (list, tuple)) else (shape,), num(0), d or "float64")
    if name in ("int64", "int32", "float64", "float32") and len(args) == 1 and isinstance(args[0], (int, float)):
        return args[0]
    if name in SAME and len(args) == 1 and isinstance(args[0], (int, float)) and not isinstance(args[0], bool) and not kw and name in ("sqrt", "exp", "log", "sin", "cos", "tan", "abs"):
        return NotImplemented
    if name in SAME:
        if name in ("zeros", "ones", "empty", "eye", "full"):
            kw["dtype"] = d or "float64"
        elif name == "arange":
            if d is not None:
                kw["dtype"] = d
        if "axis" in kw:
            kw["dim"] = kw.pop("axis")
        a = list(args)
        if name in ("cumsum", "sort", "argsort", "sum", "diff", "repeat") and isinstance(a[0], (list, tuple, range)):
            a[0] = it.ten(list(a[0]), "int64" if all(isinstance(y, int) for y in a[0]) else None)
        if name == "cumsum" and len(a) == 1 and "dim" not in kw:
            if len(a[0].shape) != 1:
                raise Unknown("cumsum")
            kw["dim"] = 0
        return it.torch_fn(SAME[name], a, kw)
    return NotImplemented


def ints(x):
    if isinstance(x, Ten):
        return tn.ints(x)
    out = []
    for y in x:
        if isinstance(y, Ten):
            out += tn.ints(y)
        elif isinstance(y, int):
            out.append(y)
        else:
            raise Unknown("index")
    return out


def compressed(by_rows):
    """csr_matrix / csc_matrix((data, indices, indptr), shape)"""
    def make(it, arg, shape=None, dtype=None, copy=False):
        from .interp import Raised, Sparse
        if isinstance(arg, Sparse):
            return arg
        if isinstance(arg, Ten) and len(arg.shape) == 2:
            return Sparse(arg)
        if not (isinstance(arg, tuple) and len(arg) == 3) or shape is None:
            raise Unknown("sparse matrix")
        val, ind, ptr = arg
        val = it.ten(val) if not isinstance(val, Ten) else val
        if dtype is not None and kind(dtype) != val.dtype:
            from .torchsem import cast
            val = cast(it, val, kind(dtype))
        ind, ptr = ints(ind), ints(ptr)
        rows, cols = (it.key(x) for x in shape)
        major, minor = (rows, cols) if by_rows else (cols, rows)
        where = it.here()
        if len(val.shape) != 1:
            raise Raised("ValueError", "data must be one-dimensional", where)
        if len(ptr) != major + 1:
            raise Raised("ValueError", f"index pointer size {len(ptr)} should be {major + 1}", where)
        if len(ind) != val.shape[0]:
            raise Raised("ValueError", "indices and data should have the same size", where)
        if ptr[0] != 0 or any(x > y for x, y in zip(ptr, ptr[1:])) or ptr[-1] > len(ind):
            raise Raised("ValueError", "index pointers are not increasing", where)
        if any(not 0 <= i < minor for i in ind):
            raise Raised("ValueError", "indices out of range", where)
        e = val.arr().data
        out = [[{} for _ in range(cols)] for _ in range(rows)]
        for m in range(major):
            for k in range(ptr[m], ptr[m + 1]):
                i, j = (m, ind[k]) if by_rows else (ind[k], m)
                out[i][j] = add(out[i][j], poly(e[(k,)]))
        return Sparse(tn.make(tn.of_rows(out, val.dtype).arr() if rows and cols else tn.full((rows, cols), {}, val.dtype).arr(), val.dtype))
    return make


def pattern(it, sp, what):
    """indptr or indices of the rows of a constant matrix"""
    e = sp.dense.arr()
    rows, cols = e.shape
    ptr, ind = [0], []
    for i in range(rows):
        for j in range(cols):
            c = const_of(poly(e.data[(i, j)]))
            if c is None:
                raise Unknown("pattern of a symbolic matrix")
            if c != 0:
                ind.append(j)
        ptr.append(len(ind))
    return it.ten(ptr if what == "indptr" else ind, "int64")


__all__ = ["numpy_fn", "compressed", "pattern", "Malformed"]
