"""Abstract interpreter of the library's source. Tensor entries are normal forms over
the entries of the inputs (sa.normal), shapes and python values are concrete, and a
comparison is decided for the region of the input space under analysis. Nothing of the
library is imported or run: the statements of its syntax trees are given a meaning in
this domain, and anything outside it stops the analysis (Unknown)."""
import ast
import math
from fractions import Fraction
from itertools import product
from . import comp
from . import normal as nf
from . import tensor as tn
from .algebra import NotAlgebraic, add, atom, mul, num
from .comp import Arr, Malformed, Unknown
from .normal import Region, const_of
from .npsem import compressed, numpy_fn, pattern
from .project import ClassInfo, FunctionInfo
from .tensor import Ten, poly


class Raised(Exception):
    """the interpreted code raises"""

    def __init__(self, name, msg="", where=""):
        super().__init__(f"{name}: {msg} ({where})")
        self.name, self.msg, self.where = name, msg, where


class Ext:
    """name outside the project"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<{self.name}>"


GRADS = {"no_grad": False, "enable_grad": True, "set_grad_enabled": None, "inference_mode": False}


class GradMode:
    """torch.no_grad and its like; cuts tensors only in interpreters that follow gradients"""

    def __init__(self, it, on, now=False):
        self.it, self.on, self.prev, self.now = it, on, it.mode, now
        if now:
            self.set(on)

    def set(self, on):
        self.it.mode = on
        if self.it.grads:
            tn.GRAD[0] = on

    def __enter__(self):
        if not self.now:
            self.prev = self.it.mode
            self.set(self.on)

    def __exit__(self, *e):
        self.set(self.prev)


class Objects:
    """one-dimensional numpy array of objects"""

    def __init__(self, items):
        self.items = list(items)
        self.shape, self.ndim, self.size = (len(self.items),), 1, len(self.items)

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)

    def where(self, i):
        t = tn.index(tn.of_rows([num(k) for k in range(len(self.items))], "int64"), i)
        return t.shape, tn.ints(t)

    def get(self, i):
        shape, ks = self.where(i)
        return Objects([self.items[k] for k in ks]) if shape else self.items[ks[0]]

    def set(self, i, v):
        shape, ks = self.where(i)
        vs = list(v) if isinstance(v, (Objects, list, tuple)) else [v] * len(ks)
        if len(vs) != len(ks):
            raise Raised("ValueError", "array of another length", "")
        for k, w in zip(ks, vs):
            self.items[k] = w

    def copy(self):
        return Objects(self.items)

    def tolist(self):
        return list(self.items)


class Mod:
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, Mod) and o.m is self.m

    def __hash__(self):
        return id(self.m)


class Cls:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Cls) and o.c is self.c

    def __hash__(self):
        return id(self.c)

    def __repr__(self):
        return f"<class {self.c.name}>"


class Obj:
    def __init__(self, c, attrs=None):
        self.c, self.attrs = c, attrs if attrs is not None else {}

    def __repr__(self):
        return f"<{self.c.name} object>"


class Fn:
    """function with its defining scope and, for a method, its receiver"""

    def __init__(self, f, scope=None, recv=None, owner=None):
        self.f, self.scope, self.recv, self.owner = f, scope, recv, owner

    def __eq__(self, o):
        return isinstance(o, Fn) and self.f is o.f and self.scope is o.scope and self.recv is o.recv

    def __hash__(self):
        return id(self.f)

    def __repr__(self):
        return f"<{self.f.qual}>"


class Gen:
    """context manager written as a generator, not entered yet"""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Native:
    def __init__(self, call, name=""):
        self.call, self.name = call, name


DTYPES = {"torch.double": "torch.float64", "torch.float": "torch.float32", "torch.half": "torch.float16", "torch.long": "torch.int64", "torch.int": "torch.int32"}


class Sparse:
    """scipy sparse matrix: its dense value (matrix product is * and @)"""

    def __init__(self, dense):
        self.dense = dense


class Super:
    def __init__(self, after, recv):
        self.after, self.recv = after, recv


class Scope:
    def __init__(self, f, mod, outer=None):
        self.f, self.mod, self.outer, self.vars, self.glob, self.nonl = f, mod, outer, {}, set(), set()


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Exc:
    """value of an interpreted exception"""

    def __init__(self, name, args):
        self.name, self.args = name, args


FLOATS = ("float64", "float32", "float16")
EXCEPTIONS = ("ValueError", "RuntimeError", "NotImplementedError", "TypeError", "KeyError", "AttributeError", "IndexError", "Exception",
              "AssertionError", "StopIteration", "ImportError", "ModuleNotFoundError", "RuntimeWarning", "UserWarning", "DeprecationWarning", "ArithmeticError", "ZeroDivisionError")
PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "NotImplementedError": "RuntimeError"}


class Interp:
    def __init__(self, a, region=None, dtype="float64", hooks=None, budget=400000):
        self.a, self.p = a, a.p
        self.region = region or Region()
        self.dtype = dtype
        self.hooks = hooks or {}
        self.device_type = "cpu"
        self.globals = {}
        self.classvars = {}
        self.busy = set()
        self.budget = budget
        self.depth = 0
        self.entering = None
        self.trace = []
        self.functions = set()
        self.seen = getattr(a, "interpreted", None)
        self.mixed = []
        self.rounded = []       # casts that lose digits
        self.misplaced = []     # operations that meet tensors of the default and of the given device
        self.applied = []       # (autograd function, its context, inputs, outputs)
        self.fresh = 0
        self.mode = True        # gradient mode
        self.leaves = set()     # stores of tensors that require gradients
        self.grads = False      # follow gradient modes and detach: cut values become constants for derivatives

    # ---------------------------------------------------------------- tensors
    def ten(self, x, dtype=None):
        """python value as tensor"""
        if isinstance(x, Ten):
            return x
        if isinstance(x, bool):
            return tn.full((), x, "bool")
        if isinstance(x, int):
            return tn.full((), num(x), dtype or "int64")
        if isinstance(x, float):
            return tn.full((), self.number(x), dtype or "scalar")
        if isinstance(x, Fraction):
            return tn.full((), num(x), dtype or "scalar")
        if isinstance(x, (list, tuple)):
            def go(v):
                if isinstance(v, (list, tuple)):
                    return [go(y) for y in v]
                if isinstance(v, Ten) and v.shape == ():
                    return v.flat()[0]
                if isinstance(v, bool):
                    return v
                if isinstance(v, (int, float)):
                    return self.number(v)
                raise Unknown("tensor of " + type(v).__name__)
            flat = []

            def leaves(v):
                for y in v:
                    if isinstance(y, (list, tuple)):
                        leaves(y)
                    else:
                        flat.append(y)
            leaves(x)
            d = dtype
            if d is None:
                d = "bool" if flat and all(isinstance(y, bool) for y in flat) else "int64" if flat and all(isinstance(y, int) for y in flat) else "float32"
            return tn.of_rows(go(x), d)
        raise Unknown(f"tensor of {type(x).__name__}")

    def number(self, x):
        if isinstance(x, bool):
            return num(int(x))
        if isinstance(x, float) and x != x:
            raise Unknown("not a number")
        if isinstance(x, float) and x in (math.inf, -math.inf):
            return mul(num(1 if x > 0 else -1), atom(("inf",)))
        if self.region.watch is not None and isinstance(x, float) and 0 < abs(x) < 1e-9:
            return {(): Fraction(repr(x))}      # guards against singular points are kept
        return num(Fraction(x).limit_denominator(10**15)) if isinstance(x, float) and abs(x) < 1e-9 else num(x)

    def promote(self, a, b, node=None):
        da, db = a.dtype, b.dtype
        if da == db:
            return da
        rank = {"bool": 0, "int64": 1, "scalar": 2, "float16": 3, "float32": 4, "float64": 5}
        # dimensioned tensors decide within a category
        fa, fb = da in FLOATS, db in FLOATS
        if fa and fb:
            for x, y in ((a, b), (b, a)):
                if x.shape == () and y.shape != ():
                    if x.dtype == "float32" and y.dtype == "float64" and self.inexact(x):
                        self.rounded.append((x.dtype, y.dtype, self.here()))
                    return y.dtype
            self.mixed.append((da, db, self.trace[-1] if self.trace else ""))
        r = da if rank[da] >= rank[db] else db
        return r

    def lift(self, op, x, y):
        a, b = self.ten(x), self.ten(y)
        d = self.promote(a, b)
        if d == "scalar":
            d = self.p_default
        if d == "bool" and op is not None:
            d = "int64"
        f = {"+": lambda p, q: add(poly(p), poly(q)), "-": lambda p, q: add(poly(p), poly(q), -1), "*": lambda p, q: mul(poly(p), poly(q))}[op]
        return tn.make(comp.zipw(a.arr(), b.arr(), f), d)

    p_default = "float32"

    def inexact(self, t):
        from .torchsem import was_rounded
        return any(was_rounded(p) for p in t.arr().data.values())

    def scalar_or(self, t):
        return t

    def place(self, name, xs, out):
        """device of the result of an operation"""
        devs, scalars, todo, where = {}, {}, list(xs), self.here()
        while todo:
            x = todo.pop()
            if isinstance(x, (list, tuple)):
                todo.extend(x)
            elif isinstance(x, Ten):
                (devs if x.shape != () else scalars).setdefault(x.store.dev, x)
        devs = devs or scalars      # scalars combine with tensors of any device
        if len(devs) > 1:
            self.misplaced.append((name, where))
        elif None not in devs and devs:
            for x in out if isinstance(out, (list, tuple)) else [out]:
                if isinstance(x, Ten):
                    x.store.dev = next(iter(devs))

    def binop(self, op, x, y):
        out = self.binop_(op, x, y)
        if isinstance(out, Ten):
            self.place(op, (x, y), out)
        return out

    def binop_(self, op, x, y):
        if isinstance(x, Sparse) or isinstance(y, Sparse):
            if isinstance(x, Sparse) and op in ("*", "@"):
                m, v = x.dense, y.dense if isinstance(y, Sparse) else y
                if isinstance(v, Ten) and m.dtype != v.dtype:     # numpy promotes
                    m, v = (self.torch_fn("to", [q, Ext("torch.float64")], {}) for q in (m, v))
                out = self.binop_("@", m, v)
                return Sparse(out) if isinstance(y, Sparse) else out
            if isinstance(y, Sparse) and op == "@":
                return self.binop_("@", x, y.dense)
            raise Unknown(f"sparse {op}")
        if isinstance(x, Obj) or isinstance(y, Obj):
            names = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "@": "matmul", "**": "pow", "//": "floordiv", "%": "mod"}
            for o, q, other in ((x, "__{}__", y), (y, "__r{}__", x)):
                if isinstance(o, Obj) and op in names:
                    m = self.p.method(o.c, q.format(names[op]))
                    if m is not None:
                        return self.call_fn(Fn(m, None, o, m.cls), [other], {})
            raise Unknown(f"{x!r} {op} {y!r}")
        if isinstance(x, Ten) or isinstance(y, Ten):
            if op in ("+", "-", "*"):
                return self.lift(op, x, y)
            a, b = self.ten(x), self.ten(y)
            if op == "/":
                d = self.promote(a, b)
                if d not in FLOATS:
                    d = self.p_default
                return tn.make(comp.zipw(a.arr(), b.arr(), lambda p, q: mul(poly(p), self.div(q))), d)
            if op == "**":
                e = self.constant(b)
                if e is None:
                    raise Unknown("power")
                return tn.make(a.arr().map(lambda p: self.region.power(poly(p), e)), a.dtype)
            if op == "@":
                if a.dtype != b.dtype:
                    raise Raised("RuntimeError", f"matmul of {a.dtype} and {b.dtype}", self.here())
                return tn.make(self.matmul(a.arr(), b.arr()), a.dtype)
            if op == "//":
                return tn.make(comp.zipw(a.arr(), b.arr(), lambda p, q: self.region.fn("floor", mul(poly(p), self.div(q)))), self.promote(a, b))
            if op == "%":
                def md(p, q):
                    d = self.region.fn("floor", mul(poly(p), self.div(q)))
                    return add(poly(p), mul(d, poly(q)), -1)
                return tn.make(comp.zipw(a.arr(), b.arr(), md), self.promote(a, b))
            if op in ("&", "|", "^"):
                f = {"&": lambda p, q: p and q, "|": lambda p, q: p or q, "^": lambda p, q: p != q}[op]
                if a.dtype == b.dtype == "bool":
                    return tn.make(comp.zipw(a.arr(), b.arr(), f), "bool")
            raise Unknown(op)
        try:
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "/":
                return x / y
            if op == "//":
                return x // y
            if op == "%":
                return x % y
            if op == "**":
                return x ** y
            if op == "&":
                return x & y
            if op == "|":
                return x | y
            if op == "^":
                return x ^ y
        except (TypeError, ZeroDivisionError) as ex:
            raise Raised(type(ex).__name__, str(ex), self.here())
        raise Unknown(op)

    def div(self, q):
        q = poly(q)
        if not nf.reduce(q):
            return atom(("inf",))
        return self.region.power(q, -1)

    def matmul(self, a, b):
        va, vb = len(a.shape) == 1, len(b.shape) == 1
        if va:
            a = comp.reshape(a, (1, *a.shape))
        if vb:
            b = comp.reshape(b, (*b.shape, 1))
        if len(a.shape) < 2 or len(b.shape) < 2 or a.shape[-1] != b.shape[-2]:
            raise Malformed(f"matmul {a.shape} {b.shape}")
        out = comp.matmul(a, b)
        sh = out.shape
        if va:
            out = comp.reshape(out, (*sh[:-2], sh[-1]))
            sh = out.shape
        if vb:
            out = comp.reshape(out, sh[:-1])
        return out

    def constant(self, x):
        """python number of a constant"""
        if isinstance(x, Ten):
            if x.shape != ():
                return None
            v = x.flat()[0]
            if isinstance(v, bool):
                return v
            return const_of(v)
        return x

    def compare(self, op, x, y):
        if op in ("==", "!=") and (isinstance(x, Objects) or isinstance(y, Objects)):
            n = len(x if isinstance(x, Objects) else y)
            both = zip(*(v.items if isinstance(v, Objects) else [v] * n for v in (x, y)))
            return tn.make(Arr((n,), {(i,): self.compare(op, v, w) for i, (v, w) in enumerate(both)}), "bool")
        if isinstance(x, Ten) or isinstance(y, Ten):
            if x is None or y is None:
                return op == "!="
            if not isinstance(x, (Ten, int, float, bool)) or not isinstance(y, (Ten, int, float, bool)):
                return op == "!="
            a, b = self.ten(x), self.ten(y)
            f = {"<": lambda s: s < 0, "<=": lambda s: s <= 0, ">": lambda s: s > 0, ">=": lambda s: s >= 0, "==": lambda s: s == 0, "!=": lambda s: s != 0}[op]

            def cmp(p, q):
                d = add(poly(p), poly(q), -1)
                c = const_of(d)
                if c is not None:
                    return f(c)
                if op in ("==", "!=", "<=", ">=") and nf.is_zero(d):
                    return op != "!="
                v = self.region.value(d)
                if abs(v) < 1e-13 and nf.is_zero(d):
                    v = 0
                self.region.decided.append((op, d, v))
                return f(v)
            return tn.make(comp.zipw(a.arr(), b.arr(), cmp), "bool")
        if op == "==":
            return self.same(x, y)
        if op == "!=":
            return not self.same(x, y)
        try:
            return {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        except TypeError as ex:
            raise Raised("TypeError", str(ex), self.here())

    def same(self, x, y):
        if isinstance(x, Obj) and isinstance(y, Obj):
            m = self.p.method(x.c, "__eq__")
            if m is not None:
                return self.truth(self.call_fn(Fn(m, None, x, m.cls), [y], {}))
            if x.c is y.c and x is not y and getattr(x.c, "node", None) is not None and any("dataclass" in ast.unparse(d) for d in x.c.node.decorator_list):
                return x.attrs.keys() == y.attrs.keys() and all(self.truth(self.compare("==", v, y.attrs[k])) for k, v in x.attrs.items())
            return x is y
        if isinstance(x, Fn) and isinstance(y, Fn):
            return x.f is y.f and x.recv is y.recv
        return x == y

    def truth(self, x):
        if isinstance(x, Ten):
            if len(x.flat()) != 1:
                raise Raised("RuntimeError", "truth of a tensor", self.here())
            v = x.flat()[0]
            if isinstance(v, bool):
                return v
            c = const_of(v)
            if c is not None:
                return c != 0
            return self.region.value(v) != 0
        if isinstance(x, (Obj,)):
            m = self.p.method(x.c, "__bool__") or self.p.method(x.c, "__len__")
            return True if m is None else self.truth(self.call_fn(Fn(m, None, x, m.cls), [], {}))
        if isinstance(x, (Ext, Cls, Mod, Fn, Native)):
            return True
        return bool(x)

    # ---------------------------------------------------------------- names
    def here(self):
        return self.trace[-1] if self.trace else ""

    def lookup(self, name, sc):
        s = sc
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.outer
        return self.global_(sc.mod, name)

    def global_(self, m, name):
        key = (m.name, name)
        if key in self.globals:
            return self.globals[key]
        h = self.hooks.get((m.name, name))
        if h is not None:
            return h
        r = self.p.resolve_in_module(m, name)
        if r is None:
            b = self.builtin(name)
            if b is not None:
                return b
            if name == "__name__":
                return m.name
            x = self.tuple_global(m, name)
            if x is not None:
                return x[0]
            raise Unknown(f"name {name} in {m.name}")
        return self.of_ref(r, m, name)

    def of_ref(self, r, m=None, name=None):
        if r.kind == "func":
            return Fn(r.value)
        if r.kind == "class":
            return Cls(r.value)
        if r.kind == "mod":
            return Mod(r.value)
        if r.kind == "ext":
            return self.ext(r.value)
        if r.kind == "var":
            mod, nm = r.value
            return self.module_var(mod, nm)
        raise Unknown(f"name {name}")

    def module_var(self, m, name):
        key = (m.name, name)
        if key in self.globals:
            return self.globals[key]
        if key in self.busy:
            raise Unknown(f"cyclic global {name}")
        self.busy.add(key)
        try:
            last = self.bindings(m).get(name)
            if last is None:
                raise Unknown(f"global {name}")
            t, v = last
            sc = Scope(None, m)
            val = self.expr(v, sc)
            if isinstance(t, ast.Name):
                self.globals[key] = val
            else:
                self.assign(t, val, sc)
                for n, x in sc.vars.items():
                    self.globals[(m.name, n)] = x
            return self.globals[key]
        finally:
            self.busy.discard(key)

    def tuple_global(self, m, name):
        if name in self.bindings(m):
            return (self.module_var(m, name),)
        return None

    def bindings(self, m):
        """top level assignments: name -> (target, value)"""
        try:
            return m.toplevel_bindings
        except AttributeError:
            pass
        out = {}
        for st in self.toplevel(m.tree.body):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) and st.value is not None else []
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out[x.id] = (t, st.value)
        m.toplevel_bindings = out
        return out

    def toplevel(self, body):
        for st in body:
            if isinstance(st, (ast.If,)):
                yield from self.toplevel(st.body)
                yield from self.toplevel(st.orelse)
            elif isinstance(st, ast.Try):
                yield from self.toplevel(st.body)
            else:
                yield st

    def define(self, src, module):
        """run definitions of a client program in the scope of a module"""
        sc = Scope(None, self.p.modules[module])
        for st in ast.parse(src).body:
            self.stmt(st, sc)
        return sc.vars

    def ext(self, name):
        consts = {"math.pi": math.pi, "numpy.pi": math.pi, "torch.pi": math.pi, "math.inf": math.inf, "numpy.inf": math.inf, "torch.inf": math.inf,
                  "typing.TYPE_CHECKING": False}
        if name in consts:
            return consts[name]
        return Ext(DTYPES.get(name, name))

    def builtin(self, name):
        f = getattr(self, "b_" + name, None)
        if f is not None:
            return Native(f, name)
        if name in ("int", "float", "str", "bool", "list", "tuple", "dict", "set", "object", "type", "slice", "range", "super", "frozenset", "staticmethod", "property", "classmethod", "bytes", "complex"):
            return Ext("builtins." + name)
        if name in EXCEPTIONS:
            return Ext("builtins." + name)
        if name == "NotImplemented":
            return Ext("builtins.NotImplemented")
        return None

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, sc=None, default=Ellipsis):
        try:
            return self._getattr(o, name)
        except Raised as ex:
            if ex.name == "AttributeError" and default is not Ellipsis:
                return default
            raise

    def missing(self, o, name):
        raise Raised("AttributeError", f"{o!r} has no attribute {name}", self.here())

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            if name in o.attrs:
                m = self.p.method(o.c, name)
                if m is None or not m.is_property:
                    return o.attrs[name]
            if name == "__class__":
                return Cls(o.c)
            if name == "__dict__":
                return o.attrs
            if name == "__module__":
                return o.c.module.name
            h = self.hooks.get((o.c.name, name)) or next((self.hooks[(k.name, name)] for k in self.p.mro(o.c) if (k.name, name) in self.hooks), None)
            if h is not None:
                return Native(lambda *a, **k: h(self, o, *a, **k), name)
            m = self.p.method(o.c, name)
            if m is not None:
                if m.is_property:
                    return self.call_fn(Fn(m, None, o, m.cls), [], {})
                return self.bind(m, o, o.c)
            v = self.class_value(o.c, name)
            if v is not None:
                return v[0]
            x = self.ext_method(o, name)
            if x is not None:
                return x
            g = self.p.method(o.c, "__getattr__")
            if g is not None:
                return self.call_fn(Fn(g, None, o, g.cls), [name], {})
            self.missing(o, name)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.c.name
            if name == "__module__":
                return o.c.module.name
            h = self.hooks.get((o.c.name, name))
            if h is not None:
                return Native(lambda *a, **k: h(self, o, *a, **k), name)
            m = self.p.method(o.c, name)
            if m is not None:
                return self.bind(m, o, o.c)
            if name in o.c.inner:
                return Cls(o.c.inner[name])
            v = self.class_value(o.c, name)
            if v is not None:
                return v[0]
            if name == "apply" and any("autograd.Function" in b or b.endswith(".Function") for b in self.p.ext_bases(o.c)):
                return Native(lambda *a, **k: self.apply(o, a, k), "apply")
            self.missing(o, name)
        if isinstance(o, Mod):
            r = self.p.resolve_member(o.m.name, name)
            h = self.hooks.get((o.m.name, name))
            if h is not None:
                return h
            if r is not None and r.kind != "ext":
                return self.of_ref(r, o.m, name)
            if (o.m.name, name) in self.globals:
                return self.globals[(o.m.name, name)]
            x = self.tuple_global(o.m, name)
            if x is not None:
                return x[0]
            self.missing(o, name)
        if isinstance(o, Ext):
            if o.name in ("device", "default device") and name == "type":
                return self.device_type
            if o.name.startswith("torch.finfo") and name in ("eps", "tiny"):
                return 2.220446049250313e-16 if self.dtype == "float64" else 1.1920929e-07
            return self.ext(f"{o.name}.{name}")
        if isinstance(o, Super):
            m = None
            mro = self.p.mro(o.recv.c)
            m = self.p.method(o.recv.c, name, after=o.after)
            if m is not None:
                if m.is_property:
                    return self.call_fn(Fn(m, None, o.recv, m.cls), [], {})
                return self.bind(m, o.recv, m.cls)
            x = self.ext_method(o.recv, name) if isinstance(o.recv, Obj) else None
            if x is not None:
                return x
            if name in ("__init__", "__init_subclass__", "__setattr__"):
                return Native(lambda *a, **k: None, name)
            if name in ("to", "train", "eval") and any("Module" in str(b) for b in self.p.ext_bases(o.recv.c)):
                return Native(lambda *a, **k: o.recv, name)     # the module itself holds no parameters of its own
            self.missing(o, name)
        if isinstance(o, Ten):
            return self.ten_attr(o, name)
        if isinstance(o, Fn):
            if name in ("__name__", "__qualname__"):
                return o.f.name
            if name == "__func__":
                return Fn(o.f, o.scope, None, o.owner)
            if name == "__self__":
                return o.recv
            if name == "__doc__":
                return None
        if isinstance(o, (list, dict, str, tuple, set, int, float)):
            return self.py_method(o, name)
        if isinstance(o, slice) and name in ("start", "stop", "step"):
            return getattr(o, name)
        if isinstance(o, Sparse):
            if name == "T":
                return Sparse(self.ten_attr(o.dense, "mT"))
            if name in ("transpose", "tocsr", "tocsc", "copy", "sort_indices", "toarray", "todense"):
                return Native(lambda: Sparse(self.ten_attr(o.dense, "mT")) if name == "transpose" else o.dense if name in ("toarray", "todense") else o, name)
            if name == "shape":
                return tuple(o.dense.shape)
            if name in ("indptr", "indices"):
                return pattern(self, o, name)
        if isinstance(o, Exc) and name == "args":
            return tuple(o.args)
        raise Unknown(f"attribute {name} of {type(o).__name__}")

    def bind(self, m, o, c):
        if m.is_static:
            return Fn(m, getattr(m.cls, "closure", None), None, m.cls)
        if m.is_classmethod:
            return Fn(m, getattr(m.cls, "closure", None), o if isinstance(o, Cls) else Cls(o.c), m.cls)
        if isinstance(o, Cls):
            return Fn(m, getattr(m.cls, "closure", None), None, m.cls)
        return Fn(m, getattr(m.cls, "closure", None), o, m.cls)

    def class_value(self, c, name):
        v = self.p.class_var(c, name)
        if v is None:
            return None
        k, node = v
        key = (k.qual, name)
        if key not in self.classvars:
            x = self.expr(node, Scope(None, k.module))
            if self.is_enum(k) and not name.startswith("__"):
                m = Obj(k)
                m.attrs.update(name=name, value=x)
                x = m
            self.classvars[key] = x
        return (self.classvars[key],)

    def is_enum(self, c):
        return any("Enum" in b for b in self.p.ext_bases(c))

    def ext_method(self, o, name):
        if any("Module" in b for b in self.p.ext_bases(o.c)) and name in ("train", "eval", "register_buffer", "register_parameter", "add_module"):
            if name.startswith("register"):
                return Native(lambda n, v, *a, **k: o.attrs.__setitem__(n, v), name)
            return Native(lambda *a, **k: o, name)
        if name == "__call__" and self.p.method(o.c, "forward"):
            return self.bind(self.p.method(o.c, "forward"), o, o.c)
        return None

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            m = self.p.method(o.c, "__setattr__")
            s = self.p.setter(o.c, name)
            if s is not None:
                self.call_fn(Fn(s, None, o, s.cls), [v], {})
                return
            o.attrs[name] = v
            return
        if isinstance(o, Cls):
            v_ = self.p.class_var(o.c, name)
            self.classvars[((v_[0] if v_ else o.c).qual, name)] = v
            if v_ is None:
                o.c.class_vars  # class attributes without declaration are not supported
                raise Unknown(f"class attribute {name}")
            return
        if isinstance(o, Ext):
            return
        if isinstance(o, Ten) and name in ("requires_grad", "grad"):
            return
        raise Unknown(f"attribute {name} set on {type(o).__name__}")

    # ---------------------------------------------------------------- calls
    def apply(self, c, args, kw):
        """autograd Function: its forward"""
        f = self.p.method(c.c, "forward")
        if f is None:
            raise Unknown(f"{c.c.name}.forward")
        ps = f.params
        first = ps[1:] if f.is_classmethod else ps
        if first and first[0] == "ctx":
            ctx = Obj(Ctx, {})
            ctx.attrs["save_for_backward"] = Native(lambda *x: ctx.attrs.__setitem__("saved_tensors", tuple(x)), "save_for_backward")
            ctx.attrs["needs_input_grad"] = tuple(isinstance(x, Ten) for x in args)
            for n in ("mark_non_differentiable", "set_materialize_grads", "mark_dirty"):
                ctx.attrs[n] = Native(lambda *x: None, n)
            watch, self.region.watch = self.region.watch, None      # not on the differentiable path
            try:
                out = self.call_fn(self.bind(f, c, c.c), [ctx, *args], kw)
            finally:
                self.region.watch = watch
            self.applied.append((c, ctx, args, out))
            return out
        return self.call_fn(self.bind(f, c, c.c), list(args), kw)

    def call(self, f, args, kw, node=None):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Native):
            return f.call(*args, **kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, Obj):
            m = self.p.method(f.c, "__call__")
            if m is not None:
                return self.call_fn(Fn(m, None, f, m.cls), args, kw)
            m = self.ext_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
        raise Unknown(f"call of {f!r}")

    def construct(self, c, args, kw):
        h = self.hooks.get((c.c.name, "__new__"))
        if h is not None:
            return h(self, c, *args, **kw)
        o = Obj(c.c)
        if self.is_exception(c.c):
            return Exc(c.c.name, args)
        init = self.p.method(c.c, "__init__")
        if init is not None:
            self.call_fn(Fn(init, None, o, init.cls), args, kw)
            return o
        ebs = self.p.ext_bases(c.c)
        if self.is_enum(c.c):
            for n in c.c.class_vars:
                m = self.class_value(c.c, n)[0]
                if args and m.attrs["value"] == args[0]:
                    return m
            raise Raised("ValueError", f"{args} is not a member of {c.c.name}", self.here())
        if any("dataclass" in ast.unparse(d) for d in c.c.node.decorator_list):
            names = []
            for k in reversed(self.p.mro(c.c)):
                for n in k.class_anns:
                    if n not in names:
                        names.append(n)
            for n, v in zip(names, args):
                o.attrs[n] = v
            o.attrs.update(kw)
            for n in names:
                if n not in o.attrs:
                    d = self.class_value(c.c, n)
                    if d is None:
                        raise Raised("TypeError", f"missing {n}", self.here())
                    o.attrs[n] = d[0]
            pi = self.p.method(c.c, "__post_init__")
            if pi is not None:
                self.call_fn(Fn(pi, None, o, pi.cls), [], {})
            return o
        if any("NamedTuple" in b for b in ebs):
            names = list(c.c.class_anns)
            for n, v in zip(names, args):
                o.attrs[n] = v
            o.attrs.update(kw)
            return o
        return o

    def is_exception(self, c):
        return any(b.split(".")[-1] in EXCEPTIONS or b.endswith("Warning") for b in self.p.ext_bases(c)) or any(ast.unparse(b) in EXCEPTIONS for k in self.p.mro(c) for b in k.node.bases)

    def call_fn(self, fn, args, kw):
        f = fn.f
        h = self.hooks.get(f.qual) or self.hooks.get(("call", f.name))
        if h is not None:
            return h(self, fn, *args, **kw)
        if self.depth > 60:
            raise Unknown("call depth")
        self.functions.add(f.qual)
        if self.seen is not None:
            self.seen.add(f.qual)
        if f.is_contextmanager and not kw.pop("__enter__", None):
            return Gen(fn, args, kw)
        sc = Scope(f, f.module, fn.scope)
        sc.owner = fn.owner if fn.owner is not None else (fn.scope.owner if fn.scope is not None and hasattr(fn.scope, "owner") else None)
        sc.recv = fn.recv if fn.recv is not None else (getattr(fn.scope, "recv", None) if fn.scope is not None else None)
        a = f.node.args
        pos = list(args)
        if fn.recv is not None:
            pos = [fn.recv] + pos
        names = [x.arg for x in a.posonlyargs + a.args]
        dscope = Scope(f, f.module, fn.scope)
        for n, v in zip(names, pos):
            sc.vars[n] = v
        if len(pos) > len(names):
            if a.vararg is None:
                raise Raised("TypeError", f"{f.name}() takes {len(names)} arguments but {len(pos)} were given", self.here())
            sc.vars[a.vararg.arg] = tuple(pos[len(names):])
        elif a.vararg is not None:
            sc.vars[a.vararg.arg] = ()
        allowed = set(names) | {x.arg for x in a.kwonlyargs}
        extra = {}
        for n, v in kw.items():
            if n in allowed:
                if n in sc.vars:
                    raise Raised("TypeError", f"{f.name}() got multiple values for {n}", self.here())
                sc.vars[n] = v
            elif a.kwarg is not None:
                extra[n] = v
            else:
                raise Raised("TypeError", f"{f.name}() got an unexpected keyword {n}", self.here())
        if a.kwarg is not None:
            sc.vars[a.kwarg.arg] = extra
        defaults = f.defaults()
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in sc.vars:
                if n not in defaults:
                    raise Raised("TypeError", f"{f.name}() missing argument {n}", self.here())
                sc.vars[n] = self.default(f, n, defaults[n], dscope)
        if isinstance(f.node, ast.Lambda):
            return self.expr(f.node.body, sc)
        if f.node.decorator_list and not f.is_contextmanager:
            for d in f.node.decorator_list:
                if any(isinstance(x, (ast.Attribute, ast.Name)) and (getattr(x, "attr", None) or getattr(x, "id", None)) in GRADS for x in ast.walk(d)):
                    cm = self.expr(d, Scope(None, f.module))
                    if isinstance(cm, GradMode):
                        with cm:
                            return self.run_body(f, sc)
        return self.run_body(f, sc)

    def run_body(self, f, sc):
        self.depth += 1
        self.trace.append(f.loc)
        try:
            if f.is_contextmanager:
                sc.inside, self.entering = self.entering, None
            elif f.is_generator:
                sc.yields = []
            try:
                self.block(f.node.body, sc)
                r = None
            except _Return as ex:
                r = ex.v
            return sc.yields if f.is_generator and not f.is_contextmanager else r
        finally:
            self.depth -= 1
            self.trace.pop()

    def default(self, f, n, node, sc):
        key = (id(f.node), n)
        if key not in self.classvars:
            self.classvars[key] = self.expr(node, sc)
        return self.classvars[key]

    # ---------------------------------------------------------------- statements
    def block(self, body, sc):
        for st in body:
            self.stmt(st, sc)

    def stmt(self, st, sc):
        self.budget -= 1
        if self.budget < 0:
            raise Unknown("budget")
        k = type(st).__name__
        if self.trace:
            self.trace[-1] = f"{sc.mod.relpath}:{st.lineno}"
        if k == "Expr":
            if isinstance(st.value, ast.Constant):
                return
            if isinstance(st.value, ast.Yield):
                v = None if st.value.value is None else self.expr(st.value.value, sc)
                if getattr(sc, "inside", None) is not None:
                    sc.inside(v)
                else:
                    sc.yields.append(v)
                return
            self.expr(st.value, sc)
        elif k == "Assign":
            v = self.expr(st.value, sc)
            for t in st.targets:
                self.assign(t, v, sc)
        elif k == "AnnAssign":
            if st.value is not None:
                self.assign(st.target, self.expr(st.value, sc), sc)
        elif k == "AugAssign":
            self.augassign(st, sc)
        elif k == "If":
            self.block(st.body if self.truth(self.expr(st.test, sc)) else st.orelse, sc)
        elif k == "Return":
            raise _Return(self.expr(st.value, sc) if st.value is not None else None)
        elif k == "For":
            self.for_(st, sc)
        elif k == "While":
            for _ in range(2000):
                if not self.truth(self.expr(st.test, sc)):
                    self.block(st.orelse, sc)
                    break
                try:
                    self.block(st.body, sc)
                except _Break:
                    break
                except _Continue:
                    continue
            else:
                raise Unknown("loop bound")
        elif k == "Pass":
            pass
        elif k == "Break":
            raise _Break()
        elif k == "Continue":
            raise _Continue()
        elif k == "Raise":
            self.raise_(st, sc)
        elif k == "Assert":
            if not self.truth(self.expr(st.test, sc)):
                raise Raised("AssertionError", ast.unparse(st.test)[:80], self.here())
        elif k == "With":
            self.with_(st, sc, 0)
        elif k == "Try":
            self.try_(st, sc)
        elif k == "FunctionDef":
            fi = FunctionInfo(st, sc.mod, None, sc.f) if sc.f is not None else FunctionInfo(st, sc.mod)
            v = Fn(fi, sc)
            for d in reversed(st.decorator_list):
                dv = self.expr(d, sc)
                if isinstance(dv, Fn):
                    v = self.call(dv, [v], {})
            sc.vars[st.name] = v
        elif k in ("Import", "ImportFrom"):
            for al in st.names:
                nm = al.asname or al.name.split(".")[0]
                full = al.name if k == "Import" else f"{st.module}.{al.name}"
                if k == "ImportFrom" and st.level:
                    base = sc.mod.name.split(".")
                    if not sc.mod.is_pkg:
                        base = base[:-1]
                    base = base[:len(base) - (st.level - 1)]
                    full = ".".join([*base, *([st.module] if st.module else []), al.name])
                if k == "Import":
                    full = al.name if al.asname else nm
                    sc.vars[nm] = Mod(self.p.modules[full]) if full in self.p.modules else self.ext(full)
                else:
                    b, mem = full.rsplit(".", 1)
                    sc.vars[nm] = self.of_ref(self.p.resolve_member(b, mem), sc.mod, nm)
        elif k == "Delete":
            for t in st.targets:
                if isinstance(t, ast.Name):
                    sc.vars.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    del self.expr(t.value, sc)[self.expr(t.slice, sc)]
                elif isinstance(t, ast.Attribute):
                    self.expr(t.value, sc).attrs.pop(t.attr)
        elif k == "Global":
            sc.glob.update(st.names)
        elif k == "Nonlocal":
            sc.nonl.update(st.names)
        elif k == "ClassDef":
            if any(not isinstance(b, (ast.Attribute, ast.Name)) for b in st.bases) or st.decorator_list:
                raise Unknown("local class")
            c = ClassInfo(st, sc.mod)
            c.closure = sc
            sc.vars[st.name] = Cls(c)
        else:
            raise Unknown(k)

    def for_(self, st, sc):
        it = self.iterate(self.expr(st.iter, sc))
        for v in it:
            self.assign(st.target, v, sc)
            try:
                self.block(st.body, sc)
            except _Break:
                return
            except _Continue:
                continue
        self.block(st.orelse, sc)

    def iterate(self, v):
        if isinstance(v, Ten):
            if not v.shape:
                raise Raised("TypeError", "iteration over a 0-d tensor", self.here())
            return [tn.index(v, i) for i in range(v.shape[0])]
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, range, set, str, frozenset)):
            return list(v) if not isinstance(v, list) else Live(v)
        if isinstance(v, It):
            return v
        if isinstance(v, Obj):
            m = self.p.method(v.c, "__iter__")
            if m is not None:
                return self.iterate(self.call_fn(Fn(m, None, v, m.cls), [], {}))
            if any("NamedTuple" in b for b in self.p.ext_bases(v.c)):
                return [v.attrs[n] for n in v.c.class_anns]
            m = self.p.method(v.c, "__getitem__")
            n = self.p.method(v.c, "__len__")
            if m is not None and n is not None:
                k = self.call_fn(Fn(n, None, v, n.cls), [], {})
                return [self.call_fn(Fn(m, None, v, m.cls), [i], {}) for i in range(k)]
        if isinstance(v, Cls) and any("Enum" in b for b in self.p.ext_bases(v.c)):
            return [self.class_value(v.c, n)[0] for n in v.c.class_vars]
        if hasattr(v, "__iter__") and not isinstance(v, (Ext, Fn, Native)):
            return list(v)
        raise Unknown(f"iteration over {v!r}")

    def raise_(self, st, sc):
        if st.exc is None:
            e = getattr(sc, "handling", None)
            if e is not None:
                raise e
            raise Unknown("bare raise")
        v = self.expr(st.exc, sc)
        if isinstance(v, Exc):
            raise Raised(v.name, str(v.args[0])[:150] if v.args else "", self.here())
        if isinstance(v, Ext):
            raise Raised(v.name.split(".")[-1], "", self.here())
        if isinstance(v, Cls):
            raise Raised(v.c.name, "", self.here())
        raise Unknown("raise")

    def try_(self, st, sc):
        try:
            try:
                self.block(st.body, sc)
            except (Raised, Malformed) as ex:
                name = ex.name if isinstance(ex, Raised) else "RuntimeError"
                for h in st.handlers:
                    if self.catches(h.type, name, sc):
                        if h.name:
                            sc.vars[h.name] = Exc(name, [getattr(ex, "msg", "")])
                        old = getattr(sc, "handling", None)
                        sc.handling = ex
                        try:
                            self.block(h.body, sc)
                        finally:
                            sc.handling = old
                        return
                raise
            else:
                self.block(st.orelse, sc)
        finally:
            self.block(st.finalbody, sc)

    def catches(self, t, name, sc):
        if t is None:
            return True
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        for x in ts:
            n = ast.unparse(x).split(".")[-1]
            q = name
            while q is not None:
                if n in (q, "Exception", "BaseException"):
                    return True
                q = PARENT.get(q)
        return False

    def with_(self, st, sc, i):
        if i == len(st.items):
            self.block(st.body, sc)
            return
        item = st.items[i]
        cm = self.context(item.context_expr, sc)
        if isinstance(cm, Gen):
            left, entered = [], []

            def inside(v):
                entered.append(1)
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, sc)
                try:
                    self.with_(st, sc, i + 1)
                except (_Return, _Break, _Continue) as ex:
                    left.append(ex)
            self.entering = inside
            self.call_fn(cm.fn, cm.args, {**cm.kw, "__enter__": True})
            if not entered:
                raise Raised("RuntimeError", "generator didn't yield", self.here())
            if left:
                raise left[0]
            return
        if isinstance(cm, GradMode):
            with cm:
                self.with_(st, sc, i + 1)
            return
        if isinstance(cm, Obj):
            en, ex = self.p.method(cm.c, "__enter__"), self.p.method(cm.c, "__exit__")
            if en is not None and ex is not None:
                v = self.call_fn(Fn(en, None, cm, en.cls), [], {})
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, sc)
                try:
                    self.with_(st, sc, i + 1)
                except (Raised, Malformed) as err:
                    name = err.name if isinstance(err, Raised) else "RuntimeError"
                    if self.call_fn(Fn(ex, None, cm, ex.cls), [Ext("builtins." + name), Exc(name, [getattr(err, "msg", "")]), None], {}) is True:
                        return
                    raise
                except (_Return, _Break, _Continue):
                    self.call_fn(Fn(ex, None, cm, ex.cls), [None, None, None], {})
                    raise
                self.call_fn(Fn(ex, None, cm, ex.cls), [None, None, None], {})
                return
        if item.optional_vars is not None:
            self.assign(item.optional_vars, cm, sc)
        self.with_(st, sc, i + 1)

    def context(self, node, sc):
        """value of a context expression; torch's contexts have no effect in this domain"""
        if isinstance(node, ast.Call):
            f = self.expr(node.func, sc)
            if isinstance(f, Ext):
                return self.expr(node, sc) if f.name.split(".")[-1] in GRADS else None
        v = self.expr(node, sc)
        return v

    def assign(self, t, v, sc):
        if isinstance(t, ast.Name):
            if t.id in sc.glob:
                self.globals[(sc.mod.name, t.id)] = v
                return
            if t.id in sc.nonl:
                s = sc.outer
                while s is not None:
                    if t.id in s.vars:
                        s.vars[t.id] = v
                        return
                    s = s.outer
            sc.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise Raised("ValueError", "not enough values to unpack", self.here())
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, sc)
                self.assign(t.elts[i].value, vs[i:len(vs) - after], sc)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(x, y, sc)
                return
            if len(vs) != len(t.elts):
                raise Raised("ValueError", f"unpacking {len(vs)} values into {len(t.elts)}", self.here())
            for x, y in zip(t.elts, vs):
                self.assign(x, y, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.expr(t.value, sc), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, sc), self.expr(t.slice, sc), v)
        else:
            raise Unknown(type(t).__name__)

    def setitem(self, o, i, v):
        if isinstance(o, Objects):
            o.set(i, v)
            return
        if isinstance(o, Ten):
            x = self.ten(v)
            if x.dtype in FLOATS and o.dtype in FLOATS and x.dtype != o.dtype and x.shape != ():
                self.mixed.append((o.dtype, x.dtype, self.here()))
            a = x.arr()
            if o.dtype != "bool":
                a = a.map(poly)
            tn.assign(o, i, a)
            return
        if isinstance(o, Obj):
            m = self.p.method(o.c, "__setitem__")
            if m is not None:
                self.call_fn(Fn(m, None, o, m.cls), [i, v], {})
                return
        if isinstance(o, (list, dict)):
            i = self.key(i)
            try:
                o[i] = v
            except (IndexError, TypeError) as ex:
                raise Raised(type(ex).__name__, str(ex), self.here())
            return
        raise Unknown(f"item set on {o!r}")

    def key(self, i):
        if isinstance(i, Ten):
            c = self.constant(i)
            if c is None:
                raise Unknown("key")
            return int(c)
        return i

    def augassign(self, st, sc):
        t = st.target
        op = OPS[type(st.op).__name__]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, sc)
        elif isinstance(t, ast.Attribute):
            base = self.expr(t.value, sc)
            cur = self.getattr(base, t.attr)
        else:
            base, ix = self.expr(t.value, sc), self.expr(t.slice, sc)
            cur = self.getitem(base, ix)
        v = self.expr(st.value, sc)
        if isinstance(cur, list) and op == "+":
            cur.extend(self.iterate(v))
            new = cur
        elif isinstance(cur, Ten):
            r = self.binop(op, cur, v)
            if isinstance(t, ast.Subscript) and isinstance(base, Ten):
                new = r
            else:
                if cur.dtype in FLOATS and r.dtype in FLOATS and cur.dtype != r.dtype:
                    self.mixed.append((cur.dtype, r.dtype, self.here()))
                cur.write(cur.keys, r.arr())
                new = cur
        else:
            new = self.binop(op, cur, v)
        if isinstance(t, ast.Name):
            self.assign(t, new, sc)
        elif isinstance(t, ast.Attribute):
            self.setattr(base, t.attr, new)
        else:
            self.setitem(base, ix, new)

    # ---------------------------------------------------------------- expressions
    def expr(self, e, sc):
        return getattr(self, "e_" + type(e).__name__, self.e_other)(e, sc)

    def e_other(self, e, sc):
        raise Unknown(type(e).__name__)

    def e_Constant(self, e, sc):
        return e.value

    def e_Name(self, e, sc):
        return self.lookup(e.id, sc)

    def e_Attribute(self, e, sc):
        return self.getattr(self.expr(e.value, sc), e.attr)

    def e_Tuple(self, e, sc):
        return tuple(self.elements(e.elts, sc))

    def e_List(self, e, sc):
        return self.elements(e.elts, sc)

    def e_Set(self, e, sc):
        return set(self.elements(e.elts, sc))

    def elements(self, elts, sc):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.expr(x.value, sc)))
            else:
                out.append(self.expr(x, sc))
        return out

    def e_Dict(self, e, sc):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.expr(v, sc))
            else:
                out[self.expr(k, sc)] = self.expr(v, sc)
        return out

    def e_JoinedStr(self, e, sc):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                try:
                    x = self.expr(v.value, sc)
                    out += self.str_(x)
                except (Unknown, Raised):
                    out += "?"
        return out

    def str_(self, x):
        if isinstance(x, Ext):
            return x.name
        if isinstance(x, (str, int, float, bool, tuple)) or x is None:
            return str(x)
        if isinstance(x, Cls):
            return x.c.name
        return "?"

    def e_BinOp(self, e, sc):
        return self.binop(OPS[type(e.op).__name__], self.expr(e.left, sc), self.expr(e.right, sc))

    def e_UnaryOp(self, e, sc):
        v = self.expr(e.operand, sc)
        k = type(e.op).__name__
        if k == "Not":
            return not self.truth(v)
        if isinstance(v, Ten):
            if k == "USub":
                return tn.make(v.arr().map(lambda p: mul(num(-1), poly(p))), v.dtype)
            if k == "Invert":
                if v.dtype == "bool":
                    return tn.make(v.arr().map(lambda p: not p), "bool")
            if k == "UAdd":
                return v
            raise Unknown(k)
        if isinstance(v, Obj):
            m = self.p.method(v.c, {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[k])
            if m is None:
                raise Unknown(k)
            return self.call_fn(Fn(m, None, v, m.cls), [], {})
        return -v if k == "USub" else ~v if k == "Invert" else v

    def e_BoolOp(self, e, sc):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.expr(x, sc)
            if self.truth(v) != isand:
                return v
        return v

    def e_Compare(self, e, sc):
        left = self.expr(e.left, sc)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.expr(c, sc)
            k = type(op).__name__
            if k in ("Is", "IsNot"):
                s = left is right or (isinstance(left, (Ext, Cls, Mod)) and left == right or isinstance(left, Fn) and left.recv is None and left == right)
                res = s == (k == "Is")
            elif k in ("In", "NotIn"):
                s = self.contains(right, left)
                res = s == (k == "In")
            else:
                res = self.compare({"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}[k], left, right)
            if len(e.ops) > 1 and not self.truth(res):
                return res
            left = right
        return res

    def contains(self, c, x):
        if isinstance(c, Obj):
            m = self.p.method(c.c, "__contains__")
            if m is not None:
                return self.truth(self.call_fn(Fn(m, None, c, m.cls), [x], {}))
            return any(self.same(x, y) for y in self.iterate(c))
        if isinstance(c, (dict, set, str)):
            return x in c
        if isinstance(c, (list, tuple)):
            return any(x is y or not isinstance(y, Ten) and self.same(x, y) is True for y in c)
        if isinstance(c, range):
            return x in c
        raise Unknown("in")

    def e_IfExp(self, e, sc):
        return self.expr(e.body if self.truth(self.expr(e.test, sc)) else e.orelse, sc)

    def e_Lambda(self, e, sc):
        return Fn(FunctionInfo(e, sc.mod, None, sc.f), sc)

    def e_NamedExpr(self, e, sc):
        v = self.expr(e.value, sc)
        self.assign(e.target, v, sc)
        return v

    def e_Slice(self, e, sc):
        def g(x):
            return None if x is None else self.key(self.expr(x, sc))
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Subscript(self, e, sc):
        o = self.expr(e.value, sc)
        if isinstance(o, Ext):
            return o      # annotation
        return self.getitem(o, self.expr(e.slice, sc))

    def getitem(self, o, i):
        if isinstance(o, Ten):
            return tn.index(o, i)
        if isinstance(o, Objects):
            return o.get(i)
        if isinstance(o, Obj):
            m = self.p.method(o.c, "__getitem__")
            if m is not None:
                return self.call_fn(Fn(m, None, o, m.cls), [i], {})
            if any("NamedTuple" in b for b in self.p.ext_bases(o.c)):
                return [o.attrs[n] for n in o.c.class_anns][i]
        if isinstance(o, (list, tuple, str, dict, range)):
            try:
                return o[self.key(i)]
            except (IndexError, KeyError, TypeError) as ex:
                raise Raised(type(ex).__name__, str(ex)[:80], self.here())
        if isinstance(o, Cls):
            if self.is_enum(o.c):
                m = self.class_value(o.c, i)
                if m is None:
                    raise Raised("KeyError", str(i), self.here())
                return m[0]
            return o
        raise Unknown(f"item of {o!r}")

    def comp(self, gens, sc, body, i=0):
        if i == 0:
            s2 = Scope(sc.f, sc.mod, sc)
            s2.owner, s2.recv = getattr(sc, "owner", None), getattr(sc, "recv", None)
            sc = s2
        if i == len(gens):
            body(sc)
            return
        g = gens[i]
        for v in self.iterate(self.expr(g.iter, sc)):
            self.assign(g.target, v, sc)
            if all(self.truth(self.expr(c, sc)) for c in g.ifs):
                self.comp(gens, sc, body, i + 1)

    def e_ListComp(self, e, sc):
        out = []
        self.comp(e.generators, self.inner(sc), lambda s: out.append(self.expr(e.elt, s)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, sc):
        return set(self.e_ListComp(e, sc))

    def e_DictComp(self, e, sc):
        out = {}
        self.comp(e.generators, self.inner(sc), lambda s: out.__setitem__(self.expr(e.key, s), self.expr(e.value, s)))
        return out

    def inner(self, sc):
        return sc

    def e_Starred(self, e, sc):
        raise Unknown("star")

    def e_Yield(self, e, sc):
        raise Unknown("yield")

    def e_Call(self, e, sc):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            s = sc
            while s is not None and getattr(s, "owner", None) is None:
                s = s.outer
            if s is None or not s.f.params or s.f.params[0] not in s.vars:
                raise Unknown("super")
            return Super(s.owner, s.vars[s.f.params[0]])
        f = self.expr(e.func, sc)
        args = self.elements(e.args, sc)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.expr(k.value, sc))
            else:
                kw[k.arg] = self.expr(k.value, sc)
        return self.call(f, args, kw, e)

    # ---------------------------------------------------------------- python builtins
    def b_len(self, x):
        if isinstance(x, Ten):
            return x.shape[0]
        if isinstance(x, Obj):
            m = self.p.method(x.c, "__len__")
            if m is not None:
                return self.call_fn(Fn(m, None, x, m.cls), [], {})
            raise Unknown("len")
        return len(x)

    def b_isinstance(self, x, c):
        cs = c if isinstance(c, tuple) else (c,)
        return any(self.is_a(x, k) for k in cs)

    def is_a(self, x, k):
        if isinstance(k, Cls):
            return isinstance(x, Obj) and k.c in self.p.mro(x.c)
        if isinstance(k, Ext):
            n = k.name
            if n in ("torch.Tensor", "torch.FloatTensor"):
                return isinstance(x, Ten)
            if n.startswith("builtins."):
                n = n[9:]
                py = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "tuple": tuple, "dict": dict, "set": set, "object": object}
                if n in py:
                    if isinstance(x, (Ten, Obj, Ext, Cls, Fn)):
                        return n == "object"
                    return isinstance(x, py[n])
            if n.endswith(("Sequence", "Iterable", "List", "Tuple")):
                return isinstance(x, (list, tuple, str)) if n.endswith(("Sequence", "Iterable")) else isinstance(x, list if n.endswith("List") else tuple)
            if n.endswith(("Dict", "Mapping")):
                return isinstance(x, dict)
            if n.endswith("Callable"):
                return isinstance(x, (Fn, Native))
            if n in ("torch.device", "torch.dtype", "torch.Size", "torch.Generator", "numpy.ndarray"):
                return n == "torch.Size" and isinstance(x, tuple) or n == "torch.dtype" and isinstance(x, Ext) and x.name.startswith("torch.") or n == "torch.device" and isinstance(x, Ext) and x.name == "device"
            if isinstance(x, Obj):
                return n in self.p.ext_bases(x.c) or x.attrs.get("__instance_of__") == n
            return False
        raise Unknown("isinstance")

    def b_issubclass(self, x, c):
        if isinstance(x, Cls):
            cs = c if isinstance(c, tuple) else (c,)
            return any(isinstance(k, Cls) and k.c in self.p.mro(x.c) for k in cs)
        raise Unknown("issubclass")

    def b_hasattr(self, o, n):
        try:
            self.getattr(o, n)
            return True
        except Raised as ex:
            if ex.name == "AttributeError":
                return False
            raise

    def b_getattr(self, o, n, *d):
        return self.getattr(o, n, None, d[0] if d else Ellipsis)

    def b_setattr(self, o, n, v):
        self.setattr(o, n, v)

    def b_enumerate(self, x, start=0):
        return [(i + start, v) for i, v in enumerate(self.iterate(x))]

    def b_zip(self, *xs):
        return [tuple(t) for t in zip(*[list(self.iterate(x)) for x in xs])]

    def b_map(self, f, *xs):
        return [self.call(f, list(t), {}) for t in zip(*[list(self.iterate(x)) for x in xs])]

    def b_filter(self, f, xs):
        return [x for x in self.iterate(xs) if self.truth(x if f is None else self.call(f, [x], {}))]

    def b_reversed(self, x):
        return list(reversed(list(self.iterate(x))))

    def b_sorted(self, x, key=None, reverse=False):
        vs = list(self.iterate(x))
        try:
            return sorted(vs, key=(lambda v: self.call(key, [v], {})) if key is not None else None, reverse=reverse)
        except TypeError:
            raise Unknown("sorted")

    def b_sum(self, x, start=0):
        out = start
        for v in self.iterate(x):
            out = self.binop("+", out, v)
        return out

    def extreme(self, xs, kw, name):
        if len(xs) == 1 and not isinstance(xs[0], Ten):
            xs = list(self.iterate(xs[0]))
            if not xs and "default" in kw:
                return kw["default"]
        key = kw.get("key")
        best, bk = xs[0], self.call(key, [xs[0]], {}) if key is not None else xs[0]
        for v in xs[1:]:
            k = self.call(key, [v], {}) if key is not None else v
            if self.truth(self.compare(">" if name == "max" else "<", k, bk)):
                best, bk = v, k
        return best

    def b_max(self, *xs, **kw):
        return self.extreme(xs, kw, "max")

    def b_min(self, *xs, **kw):
        return self.extreme(xs, kw, "min")

    def b_abs(self, x):
        if isinstance(x, Ten):
            return self.call(self.getattr(x, "abs"), [], {})
        return abs(x)

    def b_any(self, x):
        return any(self.truth(v) for v in self.iterate(x))

    def b_all(self, x):
        return all(self.truth(v) for v in self.iterate(x))

    def b_print(self, *a, **k):
        return None

    def b_id(self, x):
        return id(x)

    def b_repr(self, x):
        return "?"

    def b_round(self, x, n=None):
        return round(x, n) if n is not None else round(x)

    def b_iter(self, x):
        return It(list(self.iterate(x)))

    def b_next(self, it, *d):
        if isinstance(it, It):
            if it.k < len(it.v):
                it.k += 1
                return it.v[it.k - 1]
            if d:
                return d[0]
            raise Raised("StopIteration", "", self.here())
        if isinstance(it, list):     # generator expression
            if it:
                return it[0]
            if d:
                return d[0]
            raise Raised("StopIteration", "", self.here())
        if isinstance(it, Counter):
            it.n += 1
            return it.n - 1
        raise Unknown("next")

    def b_callable(self, x):
        return isinstance(x, (Fn, Native, Cls))

    def b_vars(self, o):
        return o.attrs

    def b___import__(self, name, *a, **k):
        if name in self.p.modules:
            return Mod(self.p.modules[name])
        return self.ext(name)

    def py_method(self, o, name):
        if isinstance(o, list):
            if name == "append":
                return Native(o.append, name)
            if name == "extend":
                return Native(lambda x: o.extend(list(self.iterate(x))), name)
            if name in ("pop", "insert", "clear", "copy", "reverse"):
                return Native(getattr(o, name), name)
            if name in ("index", "count", "remove"):
                return Native(getattr(o, name), name)
            if name == "sort":
                def srt(key=None, reverse=False):
                    o.sort(key=(lambda v: self.call(key, [v], {})) if key is not None else None, reverse=reverse)
                return Native(srt, name)
        if isinstance(o, dict):
            if name in ("keys", "values", "items"):
                return Native(lambda: list(getattr(o, name)()), name)
            if name in ("get", "pop", "update", "setdefault", "copy", "clear", "popitem"):
                def d(*a, **k):
                    try:
                        return getattr(o, name)(*a, **k)
                    except KeyError as ex:
                        raise Raised("KeyError", str(ex), self.here())
                return Native(d, name)
        if isinstance(o, str):
            if hasattr(o, name):
                return Native(getattr(o, name), name)
        if isinstance(o, tuple):
            if name == "numel":
                return Native(lambda: comp.prod(o), name)
            if name in ("index", "count"):
                return Native(getattr(o, name), name)
        if isinstance(o, set):
            if name in ("add", "update", "discard", "remove", "union", "intersection", "difference", "pop", "issubset", "copy"):
                return Native(getattr(o, name), name)
        if isinstance(o, (int, float)) and name in ("item",):
            return Native(lambda: o, name)
        if isinstance(o, float) and name == "is_integer":
            return Native(o.is_integer, name)
        raise Raised("AttributeError", f"{type(o).__name__}.{name}", self.here())

    # ---------------------------------------------------------------- external functions
    def call_ext(self, name, args, kw):
        h = self.hooks.get(name)
        if h is not None:
            return h(self, *args, **kw)
        if name.startswith("builtins."):
            return self.call_builtin(name[9:], args, kw)
        if name.startswith("torch.nn.functional."):
            name = "torch." + name[20:]
        if name.startswith("torch.linalg."):
            name = "torch." + name[13:]
        if name.startswith(("warnings.", "logging.")):
            return None
        if name == "torch._C._functorch.is_batchedtensor":
            return False
        if name == "threading.local":
            return Obj(Ctx, {})
        if name in ("typing.cast",):
            return args[1]
        if name in ("itertools.count",):
            return Counter(args[0] if args else 0)
        if name == "itertools.chain":
            return [v for x in args for v in self.iterate(x)]
        if name == "itertools.product":
            return [tuple(t) for t in product(*[list(self.iterate(x)) for x in args])]
        if name == "functools.reduce":
            vs = list(self.iterate(args[1]))
            out = args[2] if len(args) > 2 else vs.pop(0)
            for v in vs:
                out = self.call(args[0], [out, v], {})
            return out
        if name == "functools.partial":
            f = args[0]
            return Native(lambda *b, **k: self.call(f, [*args[1:], *b], {**kw, **k}), "partial")
        if name in ("copy.copy", "copy.deepcopy"):
            o = args[0]
            if isinstance(o, Obj):
                m = self.p.method(o.c, "__deepcopy__")
                if m is not None:
                    return self.call_fn(Fn(m, None, o, m.cls), [{}], {})
            if isinstance(o, (list, dict)):
                return o.copy()
            raise Unknown(name)
        if name in ("collections.OrderedDict",):
            return dict(*[x if isinstance(x, dict) else list(self.iterate(x)) for x in args], **kw)
        if name == "collections.defaultdict":
            return DefaultDict(lambda: self.call(args[0], [], {}))
        if name in ("scipy.sparse.csr_matrix", "scipy.sparse.csc_matrix"):
            return compressed("csr" in name)(self, *args, **kw)
        if name in ("numpy.prod", "math.prod") and isinstance(args[0], (list, tuple)) and len(args) == 1 and all(isinstance(x, (int, float)) for x in args[0]):
            return comp.prod(args[0])
        if name.startswith("numpy."):
            r = numpy_fn(self, name[6:], args, kw)
            if r is not NotImplemented:
                return r
        if name.startswith(("math.", "numpy.")) and len(args) >= 1 and not kw:
            f = name.split(".")[-1]
            if all(isinstance(x, (int, float)) for x in args) and hasattr(math, f):
                return getattr(math, f)(*args)
            if f == "prod":
                return comp.prod(self.iterate(args[0]))
        if name.startswith("torch."):
            return self.torch_fn(name[6:], args, kw)
        if name.endswith("dataclasses.asdict") and isinstance(args[0], Obj):
            fs = [n for k in reversed(self.p.mro(args[0].c)) for n in k.class_anns]
            return {n: args[0].attrs[n] for n in fs if n in args[0].attrs}
        if name.endswith("dataclasses.fields"):
            return [Obj(Ctx, {"name": n}) for k in reversed(self.p.mro(args[0].c)) for n in k.class_anns]
        raise Unknown(f"call {name}")

    def call_builtin(self, n, args, kw):
        if n in ("list", "tuple", "set", "frozenset"):
            vs = list(self.iterate(args[0])) if args else []
            return {"list": list, "tuple": tuple, "set": set, "frozenset": set}[n](vs)
        if n == "dict":
            return dict(*[x if isinstance(x, dict) else [tuple(self.iterate(y)) for y in self.iterate(x)] for x in args], **kw)
        if n == "int":
            x = args[0]
            if isinstance(x, Ten):
                v = x.flat()[0]
                if isinstance(v, bool):
                    return int(v)
                c = const_of(v)
                return int(c) if c is not None else int(self.region.value(v))
            return int(x)
        if n == "float":
            x = args[0]
            if isinstance(x, Ten):
                return x
            return float(x)
        if n == "bool":
            return self.truth(args[0])
        if n == "str":
            return self.str_(args[0])
        if n == "range":
            return range(*[self.key(x) for x in args])
        if n == "slice":
            return slice(*[self.key(x) for x in args])
        if n == "type":
            x = args[0]
            if isinstance(x, Obj):
                return Cls(x.c)
            if isinstance(x, Ten):
                return Ext("torch.Tensor")
            return Ext("builtins." + type(x).__name__)
        if n in EXCEPTIONS:
            return Exc(n, args)
        if n == "object":
            return Obj(Ctx, {})
        if n == "super":
            return Super(args[0].c, args[1])
        raise Unknown(n)


class Counter:
    def __init__(self, n):
        self.n = n


class It:
    def __init__(self, v):
        self.v, self.k = v, 0

    def __iter__(self):
        while self.k < len(self.v):
            self.k += 1
            yield self.v[self.k - 1]


class Live:
    """iteration over a list that sees appended elements"""

    def __init__(self, v):
        self.v = v

    def __iter__(self):
        k = 0
        while k < len(self.v):
            yield self.v[k]
            k += 1


class DefaultDict(dict):
    def __init__(self, f):
        super().__init__()
        self.f = f

    def __missing__(self, k):
        self[k] = self.f()
        return self[k]


class _CtxMod:
    name, relpath, is_pkg = "", "", False


class _Ctx:
    """class of helper objects that have no class of the project"""
    name = qual = "object"
    methods, setters, class_vars, class_anns, inner, module = {}, {}, {}, {}, {}, _CtxMod
    node = ast.parse("class object: pass").body[0]
    _mro, _bases = None, []


Ctx = _Ctx()
Ctx._mro = [Ctx]

OPS = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**", "MatMult": "@", "BitAnd": "&", "BitOr": "|", "BitXor": "^"}

from .torchsem import install  # noqa: E402

install(Interp)

__all__ = ["Interp", "Raised", "Ext", "Mod", "Cls", "Obj", "Fn", "Native", "Region", "Ten", "Unknown", "Malformed", "NotAlgebraic", "ClassInfo"]
