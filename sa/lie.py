"""torchlie operators in the component domain: forward values, custom backward
rules and analytic jacobians of the operations of each group module."""
import ast
from .algebra import NotAlgebraic
from .comp import B, Arr, Comp, Unknown, symbols
from .project import FunctionInfo
from .rules import call_kw, call_pos, default_of, is_call, is_const, show, subterms
from .terms import T

MODULES = {"so3_impl": 3, "se3_impl": 6}
GRP = {"so3_impl": (B, 3, 3), "se3_impl": (B, 3, 4)}
TAN = {"so3_impl": (B, 3), "se3_impl": (B, 6)}
HAT = {"so3_impl": (B, 3, 3), "se3_impl": (B, 4, 4)}
OPS = {  # operator class -> input shapes
    "Exp": lambda m: [TAN[m]], "Log": lambda m: [GRP[m]], "Adjoint": lambda m: [GRP[m]], "Inverse": lambda m: [GRP[m]],
    "Hat": lambda m: [TAN[m]], "Vee": lambda m: [HAT[m]], "Compose": lambda m: [GRP[m], GRP[m]],
    "TransformFrom": lambda m: [GRP[m], (B, 3)], "Untransform": lambda m: [GRP[m], (B, 3)],
    "QuaternionToRotation": lambda m: [(B, 4)], "Lift": lambda m: [TAN[m]], "Project": lambda m: [GRP[m]],
    "Normalize": lambda m: [GRP[m]],
}


def module_value(p, mod, name):
    m = p.modules.get(mod)
    if m is None:
        return None
    out = None
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in st.targets):
            out = st.value
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
            out = st.value
    return out


def factory(p, mod, name):
    """op, jop = ...OperatorFactory(module, "op"): name of the function that serves op"""
    m = p.modules.get(mod)
    for st in m.tree.body if m is not None else ():
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.targets[0], ast.Tuple):
            c = st.value
            n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
            if n.endswith("OperatorFactory") and len(c.args) == 2 and isinstance(c.args[1], ast.Constant):
                names = [getattr(x, "id", None) for x in st.targets[0].elts]
                if name in names[:1]:
                    return f"_{c.args[1].value}_autograd_fn"
    return None


def near(t):
    """mentions a tolerance of the library (get_eps or a constant named so)"""
    for x in subterms(t):
        if is_call(x, "get_eps"):
            return True
        if x.kind in ("attr", "gvar") and "EPS" in str(x.args[1]).upper():
            return True
        if x.kind == "fstr" and any(is_const(y) and isinstance(y.args[0], str) and "eps" in y.args[0] for y in subterms(x)):
            return True
    return False


def generic(c):
    """selections on a small angle: the branch away from the singularity"""
    if c.kind == "un" and c.args[0] == "not":
        w = generic(c.args[1])
        return None if w is None else not w
    if c.kind == "cmp" and c.args[0] in ("<", "<=", ">", ">="):
        l, r_ = near(c.args[1]), near(c.args[2])
        if l != r_:
            small = r_ == (c.args[0] in ("<", "<="))
            return not small
    return None


def resolve_name(p, mod, name, depth=0):
    """("class", ClassInfo) whose apply a module-level name is, or ("func", FunctionInfo, {parameter: module}), or None"""
    m = p.modules.get(mod)
    if m is None or depth > 5:
        return None
    if name in m.functions:
        return "func", m.functions[name], {}
    made = factory(p, mod, name)
    if made is not None:
        return resolve_name(p, mod, made, depth + 1)
    v = module_value(p, mod, name)
    if isinstance(v, ast.Name):
        return resolve_name(p, mod, v.id, depth + 1)
    if isinstance(v, ast.Attribute):
        if v.attr == "apply":
            r = p.resolve_expr(m, v.value)
            if r is not None and r.kind == "class":
                return "class", r.value
        r = p.resolve_expr(m, v)
        if r is not None and r.kind == "func":
            return "func", r.value, {}
        if isinstance(v.value, ast.Name):
            r = p.resolve_expr(m, v.value)
            if r is not None and r.kind == "mod":
                return resolve_name(p, r.value.name, v.attr, depth + 1)
    if isinstance(v, ast.Call):
        r = p.resolve_expr(m, v.func)
        if r is not None and r.kind == "func":
            f = r.value
            inner = [n for n in f.node.body if isinstance(n, ast.FunctionDef)]
            if len(inner) == 1 and len(v.args) == len(f.params) == 1 and any(isinstance(n, ast.Return) for n in f.node.body):
                return "func", FunctionInfo(inner[0], f.module, None, f), {f.params[0]: mod}
    return None


class LieComp(Comp):
    """resolves module constants, C.apply and module functions to their own forms"""

    def __init__(self, a, leaf, where=None, depth=0, extra=None, bound=None, params=None):
        super().__init__(leaf, gvar=self.listed, where=where)
        self.a, self.depth, self.extra = a, depth, extra
        self.bound = bound or {}    # parameter of an enclosing factory -> module
        self.params = params or {}  # parameter -> None or int
        self.dimleaf = self.integer

    def listed(self, x):
        v = module_value(self.a.p, x.args[0], x.args[1])
        try:
            v = ast.literal_eval(v)
        except Exception:
            return None
        return list(v) if isinstance(v, (list, tuple)) else v

    def integer(self, t):
        if t in self.params and isinstance(self.params[t], int):
            return self.params[t]
        if t.kind == "gvar":
            v = self.listed(t)
            if isinstance(v, int) and not isinstance(v, bool):
                return v
        return None

    def truth(self, c):
        if c.kind == "cmp" and c.args[0] in ("is", "==") and any(is_const(x, None) for x in c.args[1:]):
            o = [x for x in c.args[1:] if not is_const(x, None)]
            return self.null(o[0]) if o else True
        return super().truth(c)

    def null(self, t):
        """is the term None"""
        if is_const(t):
            return t.args[0] is None
        if t in self.params:
            return self.params[t] is None
        if t.kind == "phi":
            w = self.truth(t.args[0])
            return None if w is None else self.null(t.args[1] if w else t.args[2])
        for f in (self.int_, self.arr):
            try:
                f(t)
                return False
            except NotAlgebraic:
                pass
        return None

    def target(self, c):
        if c.kind == "attr" and c.args[1] == "apply" and c.args[0].kind == "class":
            return "class", self.a.p.cls(c.args[0].args[0])
        if c.kind == "func":
            return "func", self.a.p.func(c.args[0]), {}
        if c.kind == "gvar":
            return resolve_name(self.a.p, c.args[0], c.args[1])
        if c.kind == "attr" and c.args[0].kind in ("param", "free", "gvar", "name", "builtin") and str(c.args[0].args[-1]) in self.bound:
            return resolve_name(self.a.p, self.bound[str(c.args[0].args[-1])], c.args[1])
        return None

    def given(self, t):
        """argument: its array, None or an integer"""
        if is_const(t, None) or t in self.params and self.params[t] is None:
            return None
        if t in self.params:
            return self.params[t]
        try:
            return self.arr(t)
        except NotAlgebraic as ex:
            try:
                return self.int_(t)
            except NotAlgebraic:
                raise ex

    def call(self, t):
        c = t.args[0]
        if self.extra is not None:
            x = self.extra(self, t)
            if x is not None:
                return x
        w = self.target(c)
        if w is not None and w[1] is not None and self.depth < 8:
            if w[0] == "class":
                f = self.a.p.method(w[1], "_forward_impl")
                if f is None:
                    raise Unknown(show(t)[:60])
                return self.value_of(w[1], "_forward_impl", f, t, {}, 1)
            return self.value_of(None, None, w[1], t, w[2], 0)
        return super().call(t)

    def value_of(self, cl, meth, f, t, bound, skip):
        names = f.params[skip:]
        args = {}
        for n, x in zip(names, call_pos(t)):
            args[n] = self.given(x)
        for n, x in call_kw(t).items():
            args[n] = self.given(x)
        return evaluate(self.a, f, cl, meth, args, self.pick, self.depth + 1, self.extra, bound)


def evaluate(a, f, cl, meth, args, pick=None, depth=0, extra=None, bound=None, part=None):
    """value of the function for these arguments (name -> Arr, int or None); part picks from a returned tuple"""
    if cl is not None:
        v = a.view(cl, meth, known=set(), inline_key="lie")
    else:
        v = a.view_of(f, None, known=set())
    rets = v.returns()
    if len(rets) != 1:
        raise Unknown(f.qual)
    env, params = {}, {}
    for n in f.params:
        q = T("param", f.qual, n)
        if n in args:
            if isinstance(args[n], Arr):
                env[q] = args[n]
            else:
                params[q] = args[n]
        else:
            d = default_of(f, n)
            if d is None or isinstance(d, int) and not isinstance(d, bool):
                params[q] = d
    t = v.c(rets[0].value)
    comp = LieComp(a, env.get, pick, depth, extra, bound, params)
    if part is not None:
        return part(comp, t)
    if t.kind == "tuple" and cl is not None:
        t = t.args[0][0]
    return comp.arr(t)


def value(a, cl, meth, args, pick=None, depth=0):
    f = a.p.method(cl, meth)
    if f is None:
        raise Unknown(f"{cl.name}.{meth}")
    return evaluate(a, f, cl, meth, dict(zip([x for x in f.params if x not in ("cls", "self", "ctx")], args)), pick, depth)


def impl_of(a, mod, name):
    """function a module-level name stands for, following assignments"""
    m = a.p.modules[mod]
    for _ in range(4):
        if name in m.functions:
            return m.functions[name]
        v = module_value(a.p, m.name, name)
        if isinstance(v, ast.Name):
            name = v.id
        else:
            return None
    return None
