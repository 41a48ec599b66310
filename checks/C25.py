"""Custom derivative rules: arity and save/use pairing of every autograd function; torchlie
rules decided against the derivative of the forward closed form (component domain); linear
solve and sparse product rules decided against the adjoint formulas (operator normal forms)."""
from fractions import Fraction
from sa import lie
from sa.algebra import NotAlgebraic, add, alg, atom, diff, freeze, is_zero, mul, num
from sa.comp import Arr, B, Malformed, Unknown, bshape, expand, matmul, same, swap, symbols, total
from sa import linear as L
from sa.rules import *  # noqa: F401,F403
from sa.rules import psub as terms_minus

CASTS = ("clone", "double", "float", "to", "cpu", "cuda", "type", "contiguous", "detach", "numpy", "type_as", "view_as")
COPIES = ("clone", "zeros", "empty", "zeros_like", "empty_like", "new_zeros", "new_empty", "ones", "full", "eye")
ALIAS = ("double", "float", "to", "cpu", "cuda", "type", "contiguous", "detach", "numpy", "view", "reshape", "view_as", "squeeze",
         "unsqueeze", "transpose", "permute", "expand", "diagonal", "as_tensor", "type_as", "flatten")
# positions of the forward inputs a gradient is due for
DUE = {"CholmodSolveFunction": (0, 1), "LUCudaSolveFunction": (0, 1), "BaspachoSolveFunction": (0, 1),
       "_SparseMvPAutograd": (3, 4), "_SparseMtvPAutograd": (3, 4), "_FromTensor": (0,), "_UnaryPassthroughFn": (0,)}


def functions(a):
    out = []
    for c in a.p.all_classes():
        ks = [c, *a.p.mro(c)]
        if any(b.endswith("autograd.Function") or b.endswith("Function") and "autograd" in b for k in ks for b in a.p.ext_bases(k)):
            out.append(c)
    return out


def inputs_of(a, c):
    """(names of the apply() inputs or None when variable, FunctionInfo computing the output)"""
    f = a.p.method(c, "forward")
    ps = [x for x in f.params]
    args = f.node.args
    if args.vararg is not None and not args.args[1:]:
        g = a.p.method(c, "_forward_impl")
        if g is None:
            return None, None
        return [x for x in g.params if x != "cls"], g
    ps = [x for x in ps if x not in ("cls", "ctx", "self")]
    if args.vararg is not None:
        return None, f
    return ps, f


def is_ctx(t):
    return t.kind == "param" and t.args[1] == "ctx"


def entries_of(v, e):
    """returned entries; None when their number is not visible"""
    def go(t):
        if t.kind in ("tuple", "list"):
            return list(t.args[0])
        if t.kind == "coll":
            es = entries(t)
            if any(x.kind != "item" or x.loops for x in es):
                return None
            return [x.value for x in es]
        if t.kind == "call" and call_name(t) in ("tuple", "list") and call_recv(t) is None and len(call_pos(t)) == 1:
            return go(call_pos(t)[0])
        if t.kind == "bin" and t.args[0] == "+":
            x, y = go(t.args[1]), go(t.args[2])
            return None if x is None or y is None or not seqlike(t) else x + y
        if t.kind == "bin" and t.args[0] == "*" and any(is_const(x) and isinstance(x.args[0], int) for x in t.args[1:]):
            k = next(x for x in t.args[1:] if is_const(x))
            o = t.args[2] if k is t.args[1] else t.args[1]
            x = go(o)
            return None if x is None or not seqlike(o) else x * k.args[0]
        return None

    def seqlike(t):
        if t.kind == "bin":
            return seqlike(t.args[1]) or seqlike(t.args[2])
        return t.kind in ("tuple", "list", "coll") or t.kind == "call" and call_name(t) in ("tuple", "list")
    t = v.c(e.value)
    if t.kind in ("tuple", "list", "coll") or seqlike(t):
        return go(t)
    return [t]


def saved_seq(a, c):
    """(terms saved by save_for_backward, view, event) from forward or setup_context; the longest"""
    best = (None, None, None)
    for m in ("setup_context", "forward"):
        f = a.p.method(c, m)
        if f is None:
            continue
        v = a.view(c, m)
        for e in v.calls("save_for_backward"):
            if e.term is not None and is_ctx(call_recv(e.term)):
                ts = [v.c(x) for x in call_pos(e.term)]
                if best[0] is None or len(ts) > len(best[0]):
                    best = ts, v, e
    return best


def check_pairing(a, r, c):
    name = c.name
    b = a.p.method(c, "backward")
    if b is None or b.cls is not c and c.name not in ("LieGroup",) and not a.p.method(c, "_forward_impl"):
        return
    v = a.view(c, "backward", known=set())
    ins, fwd = inputs_of(a, c)
    # A: one gradient per input, further ones None
    for e in v.returns():
        es = entries_of(v, e)
        if es is None or any(x.kind == "star" for x in es) or ins is None:
            continue
        n = len(ins)
        r.check(len(es) >= n and all(is_const(x, None) for x in es[n:]), "one gradient per input", f"{name}.backward", e,
                f"returns {len(es)} gradients for {n} inputs")
        due = DUE.get(name)
        if due is None and fwd is not None and fwd.name == "_forward_impl":
            due = tuple(i for i, x in enumerate(ins) if x != "dim_out")
        for i in due or ():
            if i < len(es):
                r.check(not is_const(es[i], None), "gradient for differentiable input", f"{name}.backward", e,
                        f"no gradient for input {i} ({ins[i]})")
    # B: everything read from the context has been put there
    sv, fv, se = saved_seq(a, c)
    stored = set()
    for m in ("forward", "setup_context"):
        if a.p.method(c, m) is not None:
            for e in a.view(c, m, known=set()).kinds("setattr"):
                if is_ctx(e.base):
                    stored.add(e.name)
    seen = set()
    for e in v.events:
        for t in (e.value, e.term, e.base if not isinstance(e.base, str) else None, e.index, *(g[0] for g in e.guards)):
            if t is None or not hasattr(t, "kind"):
                continue
            for x in subterms(t):
                if x.kind == "attr" and is_ctx(x.args[0]) and x.args[1] not in ("saved_tensors", "needs_input_grad"):
                    seen.add((x.args[1], None))
                if x.kind == "sub" and x.args[0].kind == "attr" and x.args[0].args[1] == "saved_tensors" and is_const(x.args[1]):
                    seen.add((None, x.args[1].args[0]))
    own_attrs = {e.name for e in v.kinds("setattr") if is_ctx(e.base)}
    for n_, i in sorted(seen, key=str):
        if n_ is not None:
            r.check(n_ in stored or n_ in own_attrs, "context attribute stored by forward", f"{name}.backward", b, f"ctx.{n_} is read but never stored")
        elif sv is not None and not any(x.kind == "star" for x in sv) and isinstance(i, int):
            r.check(-len(sv) <= i < len(sv), "saved tensor exists", f"{name}.backward", b, f"saved_tensors[{i}] of {len(sv)} saved")
        elif sv is None:
            r.bad("saved tensor exists", f"{name}.backward", b, "saved_tensors is read but nothing is saved")
    # C: inputs, gradients and saved values are not written to
    views = [v] + [a.view(c, m, known=set()) for m in ("forward", "_forward_impl") if a.p.method(c, m) is not None]
    for w in views:
        for e in w.kinds("setitem", "aug", "mutcall", "call"):
            t = None
            if e.kind == "setitem":
                t = e.base
            elif e.kind in ("call", "mutcall") and e.term is not None:
                n_ = call_name(e.term)
                if n_.endswith("_") and not n_.startswith("_") and not n_.endswith("__") and n_ != "requires_grad_":
                    t = call_recv(e.term)
                elif n_ == "solve" and call_recv(e.term) is not None and call_recv(e.term).kind not in ("module", "ext") and len(call_pos(e.term)) == 1 and \
                        not contains(call_recv(e.term), lambda y: y.kind == "attr" and y.args[1] == "linear_solver"):
                    t = call_pos(e.term)[0]
            if t is None or not hasattr(t, "kind"):
                continue
            src = aliased(t)
            if src is not None:
                r.bad("no write to inputs", f"{name}.{e.func.name}", e, f"writes to {show(src)[:60]}")
            else:
                r.ok("no write to inputs", f"{name}.{e.func.name}", e)


def aliased(t):
    """input, gradient or context value the tensor may share memory with"""
    while True:
        if t.kind == "param":
            return t if t.args[1] not in ("ctx", "cls", "self") and t.args[1] != "jacobians" else None
        if t.kind == "attr":
            if is_ctx(t.args[0]) or t.args[1] in ("T", "mT", "data"):
                if is_ctx(t.args[0]):
                    return t
                t = t.args[0]
                continue
            return None
        if t.kind in ("sub", "upd", "fresh"):
            if t.kind == "fresh":
                return None
            if t.kind == "sub" and t.args[0].kind == "attr" and t.args[0].args[1] == "saved_tensors":
                return t
            t = t.args[0]
            continue
        if t.kind == "inplace":
            t = t.args[1]
            continue
        if t.kind == "call":
            n = call_name(t)
            r = call_recv(t)
            if n in ALIAS and r is not None and r.kind not in ("module", "ext"):
                t = r
                continue
            if n in ("as_tensor", "cast") and call_pos(t):
                t = call_pos(t)[-1]
                continue
            return None
        if t.kind == "phi":
            return aliased(t.args[1]) or aliased(t.args[2])
        return None


# ------------------------------------------------------------------ torchlie rules
def lie_inputs(m, op):
    if op == "LeftAct":
        return [lie.GRP[m], (B, 3, 2) if m == "so3_impl" else (B, 3, 2), None]
    if op == "LeftProject":
        return [lie.GRP[m], lie.GRP[m], None]
    return lie.OPS[op](m)


def check_lie(a, r):
    for m in lie.MODULES:
        mod = a.p.modules.get("torchlie.functional." + m)
        if mod is None:
            raise AnalysisBroken(f"torchlie.functional.{m} is gone")
        for op in (*lie.OPS, "LeftAct", "LeftProject"):
            c = mod.classes.get(op)
            if c is None or a.p.method(c, "backward") is None or op in ("Log", "Normalize"):
                continue
            name = f"{m}.{op}"
            try:
                ok, loc, msg = rule_holds(a, m, c, op)
            except Malformed as ex:
                r.bad("derivative rule", f"{name}.backward", a.p.method(c, "backward"), f"an operation cannot be carried out on a batch: {ex}")
                continue
            except NotAlgebraic as ex:
                r.skip("derivative rule", name, str(ex)[:120])
                continue
            for k, good in enumerate(ok):
                r.check(good, "derivative rule", f"{name}.backward", loc, f"gradient of input {k} is not the adjoint of the derivative of the forward value" + msg)
        c = mod.classes.get("Log")
        if c is not None:
            check_log(a, r, m, mod, c)


def nth(seq, t):
    """element of a list a constant subscript stands for"""
    i = t.args[1].args[0]
    if not isinstance(i, int) or not -len(seq) <= i < len(seq):
        raise Malformed(show(t)[:60])
    return seq[i]


def rule_holds(a, m, c, op):
    shs = lie_inputs(m, op)
    ins = [None if s is None else symbols(f"x{i}", s) for i, s in enumerate(shs)]
    pick = lie.generic
    F = lie.value(a, c, "_forward_impl", ins, pick)
    g = symbols("g", F.shape)
    v = a.view(c, "backward", known=set(), inline_key="lie")
    rets = v.returns()
    if len(rets) != 1:
        raise Unknown("several returns")
    sv, sview, _ = saved_seq(a, c)

    def place(s):
        """value of a term of setup_context"""
        if s.kind == "param" and s.args[1] in ("outputs", "output"):
            return F
        if s.kind == "sub" and s.args[0].kind == "param" and s.args[0].args[1] == "inputs" and is_const(s.args[1]):
            x = nth(ins, s)
            if x is None:
                raise Unknown("not a tensor")
            return x
        raise Unknown(show(s)[:50])

    def leaf(t):
        if t.kind == "param" and t.args[1] == "grad_output":
            return g
        if t.kind == "sub" and is_const(t.args[1]) and t.args[0].kind == "attr" and t.args[0].args[1] == "saved_tensors":
            if sv is None:
                raise Unknown("nothing saved")
            return place(nth(sv, t))
        return None
    comp = lie.LieComp(a, leaf, pick)
    for e in (sview.kinds("setattr") if sview is not None else ()):
        s = sview.c(e.value)
        if is_ctx(e.base) and s.kind == "sub" and is_const(s.args[1]) and show(s.args[0]).endswith("inputs") and nth(ins, s) is None:
            comp.params[T("attr", T("param", a.p.method(c, "backward").qual, "ctx"), e.name)] = None
    rt = v.c(rets[0].value)
    outs = list(rt.args[0]) if rt.kind == "tuple" else [rt]
    good = []
    msg = ""
    for k, x in enumerate(ins):
        if x is None:
            continue
        got = comp.arr(outs[k])
        want = Arr.fill(x.shape, lambda j: total(mul(g.data[i], diff(F.data[i], (f"x{k}", *j))) for i in F.data))
        good.append(len(got.shape) == len(want.shape) and got.dims == want.dims and same(got, want))
    return good, rets[0], msg


def check_log(a, r, m, mod, c):
    """gradient of the logarithm: its pairing with any motion of the element is g . J"""
    n = lie.MODULES[m]
    gshape = lie.GRP[m]
    R = Arr.fill((B, 3, 3), lambda i: cayley(i))
    grp = R if n == 3 else Arr((B, 3, 4), {**R.data, **{(i, 3): atom(("p", i)) for i in range(3)}})
    J = symbols("J", (B, n, n))
    g = symbols("g", (B, n))
    todo = [(c, "backward")]
    w = mod.classes.get("_LogPassthroughWrapper")
    if w is not None:
        todo.append((w, "_backward_impl"))
    for cl, meth in todo:
        f = a.p.method(cl, meth)
        if f is None:
            continue
        name = f"{m}.{cl.name}.{meth}"
        v = a.view(cl, meth, known=set(), opaque=("_jlog_impl",), inline_key="lie-log")
        rets = v.returns()
        if len(rets) != 1:
            r.skip("derivative rule", name, "several returns")
            continue
        sv, _, _ = saved_seq(a, cl) if meth == "backward" else (None, None, None)

        def leaf(t):
            if t.kind == "param":
                return {"grad_output": g, "group": grp, "jacobian": J}.get(t.args[1])
            if t.kind == "sub" and is_const(t.args[1]) and t.args[0].kind == "attr" and t.args[0].args[1] == "saved_tensors" and sv is not None:
                s = nth(sv, t)
                if s.kind == "sub" and s.args[0].kind == "param" and s.args[0].args[1] == "inputs":
                    return grp
                raise Unknown("logarithm of the element")
            if t.kind == "sub" and is_const(t.args[1], 0) and t.args[0].kind == "sub" and is_const(t.args[0].args[1], 0) and \
                    is_call(t.args[0].args[0], "_jlog_impl"):
                x = call_pos(t.args[0].args[0])
                x = x[0] if x else list(call_kw(t.args[0].args[0]).values())[0]
                if leaf(x) is grp:
                    return J
                raise Unknown("jacobian of something else")
            return None
        try:
            got = lie.LieComp(a, leaf, lie.generic).arr(v.c(rets[0].value))
            if got.dims != tuple(gshape[1:]):
                r.bad("derivative rule", name, rets[0], f"gradient of shape {got.shape}")
                continue
            good = True
            for k in range(n):
                X = hat(n, k)
                d = matmul(grp if n == 3 else Arr((B, 3, 3), R.data), X)
                s = total(mul(got.data[i], d.data[i]) for i in got.data)
                want = total(mul(g.data[(q,)], J.data[(q, k)]) for q in range(n))
                good = good and is_zero(clear(add(s, want, -1)))
            r.check(good, "derivative rule", name, rets[0], "gradient does not pair with motions of the element as its jacobian says")
        except Malformed as ex:
            r.bad("derivative rule", name, rets[0], f"an operation cannot be carried out on a batch: {ex}")
        except NotAlgebraic as ex:
            r.skip("derivative rule", name, str(ex)[:120])


def hat(n, k):
    w = [0, 0, 0]
    v = [0, 0, 0]
    if n == 3:
        w[k] = 1
    elif k < 3:
        v[k] = 1
    else:
        w[k - 3] = 1
    rows = [[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]]
    if n == 3:
        return Arr((3, 3), {(i, j): num(rows[i][j]) if rows[i][j] else {} for i in range(3) for j in range(3)})
    return Arr((3, 4), {(i, j): (num(x) if x else {}) for i in range(3) for j, x in enumerate([*rows[i], v[i]])})


def q(i):
    return atom(("q", i))


NORM = ("qq",)  # inverse of the squared norm of the quaternion


def cayley(i):
    """entry of the rotation of an unnormalized quaternion, in terms of 1/|q|^2"""
    w, x, y, z = q(0), q(1), q(2), q(3)

    def s(*ts):
        return total(mul(num(c), mul(u, v)) for c, u, v in ts)
    M = [[s((1, w, w), (1, x, x), (-1, y, y), (-1, z, z)), s((2, x, y), (-2, w, z)), s((2, x, z), (2, w, y))],
         [s((2, x, y), (2, w, z)), s((1, w, w), (-1, x, x), (1, y, y), (-1, z, z)), s((2, y, z), (-2, w, x))],
         [s((2, x, z), (-2, w, y)), s((2, y, z), (2, w, x)), s((1, w, w), (-1, x, x), (-1, y, y), (1, z, z))]]
    return mul(M[i[0]][i[1]], atom(NORM))


def clear(p):
    """multiply a polynomial in 1/|q|^2 out"""
    nn = total(mul(q(i), q(i)) for i in range(4))
    deg = max((e for m in p for k, e in m if k == NORM), default=0)
    out = {}
    for m, c in p.items():
        e = next((e for k, e in m if k == NORM), 0)
        t = {tuple((k, x) for k, x in m if k != NORM): c}
        for _ in range(int(deg - e)):
            t = mul(t, nn)
        out = add(out, t)
    return out


# ------------------------------------------------------------------ linear solves and sparse products
class Ops:
    """operator normal forms: linear combinations of words A, A^T and solves applied to inputs"""

    def __init__(self, a, c, v, due, fwd=None, saved=None):
        self.a, self.c, self.v, self.due, self.fwd, self.saved = a, c, v, due, fwd, saved
        self.memo = {}
        f = a.p.method(c, "forward")
        ps = [x for x in f.params if x not in ("ctx", "cls", "self")]
        self.role = {ps[due[0]]: "A", ps[due[1]]: "b"} if len(ps) > max(due) else {}
        self.ps = ps
        self.solved = {}
        self.stored = {}
        for e in v.calls("solve"):
            p = call_pos(e.term)
            if len(p) == 1 and call_recv(e.term) is not None and call_recv(e.term).kind not in ("module", "ext"):
                self.solved[self.key(v.c(p[0]))] = self.factor(v.c(call_recv(e.term)))
        for e in v.kinds("setattr"):
            if is_ctx(e.base):
                self.stored[e.name] = v.c(e.value)

    @staticmethod
    def key(t):
        return t

    def inner(self, t):
        """forward meaning of a term read from the context"""
        if self.fwd is None:
            return None
        if t.kind == "attr" and is_ctx(t.args[0]) and t.args[1] in self.fwd.stored:
            return self.fwd.stored[t.args[1]]
        if t.kind == "sub" and is_const(t.args[1]) and t.args[0].kind == "attr" and t.args[0].args[1] == "saved_tensors" and self.saved is not None:
            return self.saved[t.args[1].args[0]]
        return None

    def factor(self, t):
        """identity of a factorization: the forward term that made it"""
        x = self.inner(t)
        if x is not None:
            return self.fwd.factor(x)
        if t.kind == "sub":
            y = self.inner(t.args[0]) if self.fwd is not None else None
            src = y if y is not None else t.args[0]
            es = [e for e in (entries(src) or []) if e.kind == "item"]
            if len(es) == 1:
                return (self.fwd or self).factor(es[0].value)
            raise Unknown("factor " + show(t)[:50])
        return show_key(t)

    def batch_row(self, i):
        """index picks one batch element of a loop over all of them"""
        if i.kind == "tuple" and len(i.args[0]) == 2 and full_slice(i.args[0][1]):
            i = i.args[0][0]
        return i if i.kind in ("idx", "loopvar", "elem", "idxvar") or show(i).startswith("idx<range(") else None

    def form(self, t):
        if t in self.memo:
            return self.memo[t]
        r = self._form(t)
        s = self.solved.get(t)
        if s is not None:
            r = self.apply(("S", s), r)
        self.memo[t] = r
        return r

    def apply(self, op, p):
        out = {}
        for m, c in p.items():
            if len(m) != 1 or m[0][1] != 1:
                raise Unknown("not linear")
            out = add(out, {((((*op, m[0][0])), 1),): c})
        return out

    def matrix(self, t):
        """("A",) or ("At",) of a matrix term"""
        n = call_name(t) if t.kind == "call" else None
        if n in ("csr_straight", "csc_transpose") and call_pos(t):
            if self.form(call_pos(t)[0]) == atom(("in", "A")):
                return ("A",) if n == "csr_straight" else ("At",)
        if n in ("csr_matrix", "csc_matrix") and call_pos(t) and call_pos(t)[0].kind == "tuple":
            vals = call_pos(t)[0].args[0][0]
            if self.form(vals) == atom(("in", "A")):
                return ("A",) if n == "csr_matrix" else ("At",)
        if t.kind == "attr" and t.args[1] == "T" or n == "transpose" and not call_pos(t):
            m = self.matrix(t.args[0] if t.kind == "attr" else call_recv(t))
            return {("A",): ("At",), ("At",): ("A",)}.get(m)
        return None

    def _form(self, t):
        x = self.inner(t)
        if x is not None:
            return self.fwd.form(x)
        k = t.kind
        if k == "param":
            if t.args[1] == "grad_output":
                return atom(("g",))
            if t.args[1] in self.role:
                return atom(("in", self.role[t.args[1]]))
            raise Unknown(show(t))
        if k == "fresh":
            return self.form(t.args[0])
        if k == "bin" and t.args[0] in ("+", "-"):
            return add(self.form(t.args[1]), self.form(t.args[2]), 1 if t.args[0] == "+" else -1)
        if k == "un" and t.args[0] == "-":
            return mul(num(-1), self.form(t.args[1]))
        if k == "bin" and t.args[0] in ("@", "*"):
            m = self.matrix(t.args[1])
            if m is not None:
                return self.apply(m, self.form(t.args[2]))
            m = self.matrix(t.args[2])
            raise Unknown(show(t)[:60])
        if k == "sub" and self.batch_row(t.args[1]) is not None:
            return self.form(t.args[0])
        if k == "upd" and self.batch_row(t.args[1]) is not None:
            return self.form(t.args[2])
        if k == "phi":
            x, y = self.form(t.args[1]), self.form(t.args[2])
            if is_zero(add(x, y, -1)):
                return x
            raise Unknown("alternatives")
        if k == "coll":
            es = [e for e in (entries(t) or [])]
            if len(es) == 1 and es[0].kind == "item":
                return self.form(es[0].value)
        if k == "call":
            n, r = call_name(t), call_recv(t)
            if n in CASTS and r is not None and r.kind not in ("module", "ext"):
                return self.form(r)
            if n in ("as_tensor", "tensor", "array", "stack", "from_numpy"):
                ps = call_pos(t) or list(call_kw(t).values())[:1]
                if n == "stack":
                    ps = [call_kw(t)["tensors"]] if "tensors" in call_kw(t) else ps
                return self.form(ps[0])
            if n in ("mat_vec", "tmat_vec", "_mat_vec_cpu", "_tmat_vec_cpu"):
                ps = list(call_pos(t))
                kw = call_kw(t)
                vals = ps[4] if len(ps) > 4 else kw.get("A_val")
                vec = ps[5] if len(ps) > 5 else kw.get("v")
                if vals is None or vec is None or self.form(vals) != atom(("in", "A")):
                    raise Unknown("matrix of " + n)
                return self.apply(("At",) if "tmat" in n else ("A",), self.form(vec))
            if t.args[0].kind in ("sub", "call") and len(call_pos(t)) == 1:
                return self.apply(("S", self.factor(t.args[0])), self.form(call_pos(t)[0]))
        raise Unknown(f"{k}: {show(t)[:60]}")


def show_key(t):
    """identity of a term up to the name of the loop variable"""
    return freeze_term(t)


def freeze_term(t):
    if t.kind in ("idx", "idxvar"):
        return ("i",)
    out = [t.kind]
    for x in t.args:
        out.append(freeze_arg(x))
    return tuple(out)


def freeze_arg(x):
    if hasattr(x, "kind"):
        return freeze_term(x)
    if isinstance(x, tuple):
        return tuple(freeze_arg(y) for y in x)
    return repr(x)


def at(p, where):
    return {tuple((("at", where, k), e) for k, e in m): c for m, c in p.items()}


class Stripe:
    """products of selected columns: normal form of a row stripe of the matrix gradient"""

    def __init__(self, ops, rowptr, colind):
        self.o, self.rp, self.ci = ops, rowptr, colind

    def where(self, i):
        """row, cols (column indices of the row's stripe) or nnz (values of the stripe)"""
        i0 = i
        if i.kind == "tuple" and len(i.args[0]) == 2 and full_slice(i.args[0][0]):
            i = i.args[0][1]
        else:
            return None
        while i.kind == "call" and call_name(i) in ("long", "to", "type") and call_recv(i) is not None:
            i = call_recv(i)
        if i.kind == "slice":
            return "nnz" if self.stripe(i) else None
        if i.kind == "sub" and i.args[1].kind == "slice" and self.stripe(i.args[1]) and self.ci(i.args[0]):
            return "cols"
        if self.ci(i):
            return "allcols"
        if show(i).startswith("idx<range("):
            return "row"
        return None

    def stripe(self, s):
        lo, hi, st = s.args
        if not (is_const(st, None) and lo.kind == "sub" and hi.kind == "sub" and self.rp(lo.args[0]) and self.rp(hi.args[0])):
            return False
        return not terms_minus(terms_minus(poly(hi.args[1]), poly(lo.args[1])), poly(T("const", 1)))

    def form(self, t):
        k = t.kind
        if is_const(t) and isinstance(t.args[0], (int, float)):
            return num(t.args[0])
        if k == "bin" and t.args[0] == "*":
            return mul(self.form(t.args[1]), self.form(t.args[2]))
        if k == "bin" and t.args[0] in ("+", "-"):
            return add(self.form(t.args[1]), self.form(t.args[2]), 1 if t.args[0] == "+" else -1)
        if k == "un" and t.args[0] == "-":
            return mul(num(-1), self.form(t.args[1]))
        if k == "call":
            n = call_name(t)
            if n in ("unsqueeze", "view", "reshape", "double", "to", "type") and call_recv(t) is not None:
                return self.form(call_recv(t))
        if k == "sub":
            w = self.where(t.args[1])
            if w == "allcols":
                return self.spread(self.product(t.args[0]), "cols")
            if w is not None:
                return at(self.o.form(t.args[0]), w)
            if t.args[0].kind in ("bin",) and w is None:
                raise Unknown(show(t)[:50])
        if k == "sub" and is_const(t.args[1]):
            x = self.o.inner(t.args[0]) or t.args[0]
            return atom(("damp", show(x), t.args[1].args[0]))
        raise Unknown(show(t)[:60])

    def product(self, t):
        """componentwise products of whole vectors"""
        if t.kind == "bin" and t.args[0] == "*":
            return mul(self.product(t.args[1]), self.product(t.args[2]))
        if is_const(t) and isinstance(t.args[0], (int, float)):
            return num(t.args[0])
        if t.kind == "call" and call_name(t) in ("view", "unsqueeze", "reshape") and call_recv(t) is not None:
            return self.product(call_recv(t))
        if t.kind == "sub" and is_const(t.args[1]):
            return self.form(t)
        p = self.o.form(t)
        return at(p, "?")

    def spread(self, p, w):
        return {tuple(((("at", w, k[2]) if k[0] == "at" else k), e) for k, e in m): c for m, c in p.items()}


def ctx_pred(ops, pos_names):
    """terms standing for the sparse structure's row pointer or column indices"""
    def pred(t):
        x = ops.inner(t)
        if x is not None:
            t = x
        while t.kind == "call" and call_name(t) in ("type", "long", "to") and call_recv(t) is not None:
            t = call_recv(t)
            y = ops.inner(t)
            if y is not None:
                t = y
        return t.kind in ("param", "attr") and t.args[1] in pos_names
    return pred


ROWPTR = ("row_ptr", "A_row_ptr")
COLIND = ("col_ind", "A_col_ind")


def check_solves(a, r):
    n = 0
    for name in ("CholmodSolveFunction", "LUCudaSolveFunction", "BaspachoSolveFunction"):
        c = a.p.cls(name)
        if c is None:
            raise AnalysisBroken(name)
        due = DUE[name]
        fv = a.view(c, "forward", known=set())
        bv = a.view(c, "backward", known=set())
        try:
            fwd = Ops(a, c, fv, due)
            bwd = Ops(a, c, bv, due, fwd)
            (fe,) = fv.returns()
            (be,) = bv.returns()
            X = fwd.form(fv.c(fe.value))
        except (NotAlgebraic, ValueError) as ex:
            r.skip("solution form", name, str(ex)[:120])
            continue
        ats = [k for m in X for k, _ in m]
        good = len(ats) == 1 and ats[0][0] == "S" and ats[0][2] == ("At", ("in", "b"))
        r.check(good, "solution of the normal equations", f"{name}.forward", fe, f"returns {X if len(str(X)) < 90 else 'something else'} instead of the solve of A^T b")
        if not good:
            continue
        fk = ats[0][1]
        H = atom(("S", fk, ("g",)))
        es = entries_of(bv, be)
        # right-hand side
        try:
            got = bwd.form(es[1])
            want = bwd.apply(("A",), H)
            r.check(is_zero(add(got, want, -1)), "gradient of the right-hand side", f"{name}.backward", be,
                    "is not A times the solve of the incoming gradient with the factorization of the forward call")
        except NotAlgebraic as ex:
            r.skip("gradient of the right-hand side", name, str(ex)[:120])
        # matrix
        en = Stripe(bwd, ctx_pred(bwd, ROWPTR), ctx_pred(bwd, COLIND))
        bAx = add(atom(("in", "b")), bwd.apply(("A",), X), -1)
        full = add(mul(at(bAx, "row"), at(H, "cols")), mul(at(bwd.apply(("A",), H), "row"), at(X, "cols")), -1)
        gn = mul(at(atom(("in", "b")), "row"), at(H, "cols"))
        stripes = [e for e in bv.kinds("setitem") if e.index is not None and en.where(bv.c(e.index)) == "nnz"]
        for detached, want in ((False, full), (True, gn)):
            hit = False
            for e in stripes:
                for gs, val_ in cases(bv.c(e.value), tuple(e.guards)):
                    state = None
                    for g_, pol in gs:
                        if g_.kind in ("attr", "param") and g_.args[1] == "detach_hessian":
                            state = pol
                    if state is not None and state != detached:
                        continue
                    hit = True
                    try:
                        got = en.form(val_)
                    except NotAlgebraic as ex:
                        r.skip("gradient of the matrix", name, str(ex)[:120])
                        continue
                    r.check(is_zero(add(got, want, -1)), "gradient of the matrix", f"{name}.backward", e,
                            "row stripe is not " + ("b (x) H" if detached else "(b - Ax) (x) H - AH (x) x"))
                    n += 1
            if not hit and stripes:
                r.bad("gradient of the matrix", f"{name}.backward", be, f"no value with detach_hessian={detached}")
        if "damping_alpha_beta" in fwd.ps:
            check_scaled(r, name, bv, bwd, en, H, X, be, es[0])
    return n


def check_scaled(r, name, bv, bwd, en, H, X, be, grad):
    """damping scaled by the diagonal contributes 2 alpha H x A"""
    hits = []
    for e in bv.kinds("aug"):
        if e.value is None:
            continue
        t = bv.c(e.value)
        if t.kind == "bin" and t.args[0] in ("+", "-") and contains(t.args[2], lambda y: y.kind == "sub" and en.where(y.args[1]) == "allcols"):
            hits.append((e, t))
    cond = [x for x in subterms(grad) if x.kind == "phi"]
    if not hits:
        for x in subterms(grad):
            if x.kind == "bin" and x.args[0] == "-" and contains(x.args[2], lambda y: y.kind == "sub" and en.where(y.args[1]) == "allcols"):
                hits.append((be, x))
                break
    if not hits:
        r.bad("scaled damping term", f"{name}.backward", be, "damping scaled by the diagonal depends on the matrix, but its derivative is not in the gradient")
        return
    for e, t in hits:
        x = t.args[2]
        try:
            parts = []

            def factors(y):
                if y.kind == "bin" and y.args[0] == "*":
                    factors(y.args[1])
                    factors(y.args[2])
                else:
                    parts.append(y)
            factors(x)
            got = num(1)
            for y in parts:
                if y.kind == "sub" and en.where(y.args[1]) == "allcols":
                    got = mul(got, en.form(y))
                else:
                    try:
                        got = mul(got, en.form(y))
                    except NotAlgebraic:
                        got = mul(got, at(bwd.form(y), "nnz"))
            if t.args[0] == "+":
                got = mul(num(-1), got)
            damp = [k for m in got for k, _ in m if k[0] == "damp"]
            want = mul(num(2), mul(atom(("damp", damp[0][1], 0)) if damp else num(1), mul(at(atom(("in", "A")), "nnz"), mul(at(H, "cols"), at(X, "cols")))))
            r.check(bool(damp) and is_zero(add(got, want, -1)), "scaled damping term", f"{name}.backward", e, "is not 2 alpha A H x subtracted")
        except NotAlgebraic as ex:
            r.skip("scaled damping term", name, str(ex)[:120])


def check_sparse(a, r):
    for name, tr in (("_SparseMvPAutograd", False), ("_SparseMtvPAutograd", True)):
        c = a.p.cls(name)
        if c is None:
            r.skip("sparse product rule", name, "class not found")
            continue
        due = DUE[name]
        fv = a.view(c, "forward", known=set())
        bv = a.view(c, "backward", known=set())
        f = a.p.method(c, "forward")
        ps = [x for x in f.params if x not in ("ctx", "cls", "self")]
        sv = None
        for e in fv.calls("save_for_backward"):
            sv = [fv.c(x) for x in call_pos(e.term)]
        fwd = Ops(a, c, fv, due)
        bwd = Ops(a, c, bv, due, fwd, sv)
        op = ("At",) if tr else ("A",)
        try:
            (fe,) = fv.returns()
            got = fwd.form(fv.c(fe.value))
            r.check(got == fwd.apply(op, atom(("in", "b"))), "sparse product", f"{name}.forward", fe, f"is not {op[0]} v")
        except (NotAlgebraic, ValueError) as ex:
            r.skip("sparse product", name, str(ex)[:120])
        en = Stripe(bwd, ctx_pred(bwd, ROWPTR), ctx_pred(bwd, COLIND))
        A, g, vv = atom(("in", "A")), atom(("g",)), atom(("in", "b"))
        try:
            (be,) = bv.returns()
            es = entries_of(bv, be)
            gA, gv = es[due[0]], es[due[1]]
        except Exception:
            r.skip("sparse product rule", name, "return")
            continue
        rowcol = (("row", "cols") if tr else ("cols", "row"))
        wantA = mul(at(vv, rowcol[0]), at(g, rowcol[1]))
        try:
            if gA.kind != "upd" or en.where(gA.args[1]) != "nnz":
                raise Unknown("stripes of the matrix gradient")
            r.check(is_zero(add(en.form(gA.args[2]), wantA, -1)), "sparse product rule", f"{name}.backward", be, "gradient of the values of a row")
        except NotAlgebraic as ex:
            r.skip("sparse product rule", name, str(ex)[:120])
        try:
            if gv.kind != "upd":
                raise Unknown("columns of the vector gradient")
            w = en.where(gv.args[1])
            val_ = gv.args[2]
            if tr:
                if is_call(val_, "sum") and w == "row":
                    got = en.form(call_recv(val_))
                    want = mul(at(g, "cols"), at(A, "nnz"))
                    r.check(is_zero(add(got, want, -1)), "sparse product rule", f"{name}.backward", be, "gradient of the vector")
                elif w == "cols":
                    r.bad("sparse product rule", f"{name}.backward", be, "gradient of the vector is scattered over the columns of a transposed product")
                else:
                    raise Unknown("columns of the vector gradient")
            elif w == "cols":
                if val_.kind == "bin" and val_.args[0] == "+" and any(x.kind == "sub" and x.args[0] == gv.args[0] for x in val_.args[1:]):
                    o = [x for x in val_.args[1:] if not (x.kind == "sub" and x.args[0] == gv.args[0])]
                    want = mul(at(g, "row"), at(A, "nnz"))
                    r.check(len(o) == 1 and is_zero(add(en.form(o[0]), want, -1)), "sparse product rule", f"{name}.backward", be, "gradient of the vector")
                else:
                    r.bad("sparse product rule", f"{name}.backward", be, "rows sharing a column do not add up in the gradient of the vector")
            elif w == "row":
                r.bad("sparse product rule", f"{name}.backward", be, "gradient of the vector is indexed by rows")
            else:
                raise Unknown("columns of the vector gradient")
        except NotAlgebraic as ex:
            r.skip("sparse product rule", name, str(ex)[:120])


# ------------------------------------------------------------------ direct loss minimization and pass-through rules
def check_dlm(a, r):
    c = a.p.cls("TheseusLayerDLMForward")
    if c is None:
        r.skip("loss perturbation gradient", "TheseusLayerDLMForward", "class not found")
        return
    fv, bv = a.view(c, "forward"), a.view(c, "backward")
    f = a.p.method(c, "forward")
    named = [x for x in f.params if x not in ("ctx", "inputs")]
    sv = None
    for e in fv.calls("save_for_backward"):
        sv, se = [fv.c(x) for x in call_pos(e.term)], e
    if sv is None or any(x.kind != "star" for x in sv):
        r.skip("saved layout", "TheseusLayerDLMForward.forward", "not a sequence of groups")
        return
    attrs = {e.name: fv.c(e.value) for e in fv.kinds("setattr") if is_ctx(e.base)}
    (be,) = bv.returns() or [None]
    es = entries_of(bv, be)
    # layout: length of each saved group as a polynomial over the context
    groups = [x.args[0] for x in sv]

    def ctx_poly(t):
        return poly(rebuild(t, lambda y: None))
    reads = {}
    for e in bv.events:
        for t in (e.value, e.term):
            if t is None or not hasattr(t, "kind"):
                continue
            for x in subterms(bv.c(t)):
                if x.kind == "sub" and x.args[1].kind == "slice" and x.args[0].kind == "attr" and x.args[0].args[1] == "saved_tensors":
                    reads[x] = e
    n_, k_ = None, None
    for k, t in attrs.items():
        if p_param(t, "n"):
            n_ = k
        if is_call(t, "len") and call_pos(t) and call_pos(t)[0].kind == "sub":
            k_ = k
    if n_ is None or k_ is None:
        r.skip("saved layout", "TheseusLayerDLMForward", "sizes not recognised")
        return
    ctx = T("param", a.p.method(c, "backward").qual, "ctx")
    N, K = poly(T("attr", ctx, n_)), poly(T("attr", ctx, k_))
    zero = poly(T("const", 0))

    def plus(p, q_):
        return {m: p.get(m, 0) + q_.get(m, 0) for m in {*p, *q_} if p.get(m, 0) + q_.get(m, 0)}
    bounds = [zero, N, plus(N, K), plus(plus(N, K), K), None]

    def group_of(x):
        lo = zero if is_const(x.args[1].args[0], None) else poly(x.args[1].args[0])
        hi = None if is_const(x.args[1].args[1], None) else poly(x.args[1].args[1])
        for i in range(4):
            if not terms_minus(lo, bounds[i]) and (hi is None and i == 3 or hi is not None and bounds[i + 1] is not None and not terms_minus(hi, bounds[i + 1])):
                return i
        return None

    def kind_of(t):
        """what a saved group is"""
        if is_call(t, "grad") and contains(t, lambda y: y.kind == "attr" and y.args[1] == "autograd" or "autograd" in show(t.args[0])):
            return "grad"
        if t.kind == "sub" and t.args[1].kind == "slice" and show(t.args[0]).endswith("inputs"):
            lo, hi = t.args[1].args[0], t.args[1].args[1]
            if is_const(hi, None):
                return "diff"
            return "vals"
        if contains(t, lambda y: y.kind == "call" and "forward" in call_name(y)) or contains(t, lambda y: y.kind == "attr" and y.args[1] == "optim_vars"):
            return "optim"
        return None
    kinds = [kind_of(g) for g in groups]
    if sorted(map(str, kinds)) != ["diff", "grad", "optim", "vals"]:
        r.skip("saved layout", "TheseusLayerDLMForward.forward", str(kinds))
        return
    # only the layout [n values, k, k, rest] can be cut by n and k
    r.check(kinds[0] == "vals" and kinds[3] == "optim", "saved layout", "TheseusLayerDLMForward.forward", se, f"groups saved as {kinds}")
    for x, e in reads.items():
        r.check(group_of(x) is not None, "saved layout", "TheseusLayerDLMForward.backward", e, f"{show(x)[:80]} does not cut the saved groups")

    def group_kind(t):
        while t.kind in ("elem",) or t.kind == "call" and call_name(t) in ("iter", "each"):
            t = t.args[0] if t.kind == "elem" else call_pos(t)[0]
        if t in reads and group_of(t) is not None:
            return kinds[group_of(t)]
        if is_call(t, "grad"):
            w = call_pos(t)[1] if len(call_pos(t)) > 1 else call_kw(t).get("inputs")
            o = call_pos(t)[0] if call_pos(t) else call_kw(t).get("outputs")
            if w is not None and w in reads and group_of(w) is not None and kinds[group_of(w)] == "diff":
                return "gradp" if o is not None and contains(o, lambda y: y.kind == "attr" and y.args[1] == "bwd_objective") else "gradx"
        return None
    # differences
    star = [x.args[0] for x in es if x.kind == "star"]
    last = star[-1] if star else None
    items = [x for x in (entries(last) or [])] if last is not None else []
    done = False
    for it in items:
        if it.kind != "item":
            continue
        for gs, val_ in cases(it.value):
            if is_const(val_, None):
                continue
            done = True

            def leaf(t):
                if t.kind == "elem":
                    kd = group_kind(t)
                    if kd is None:
                        raise Unknown(show(t)[:60])
                    return atom((kd,))
                if t.kind == "attr" and is_ctx(t.args[0]) and p_param(attrs.get(t.args[1], NONE), "epsilon"):
                    return atom(("eps",))
                return None
            try:
                got = alg(val_, leaf, ())
                want = mul(add(atom(("grad",)), atom(("gradp",)), -1), atom(("eps",), -1))
                r.check(is_zero(add(got, want, -1)), "loss perturbation gradient", "TheseusLayerDLMForward.backward", be,
                        "is not (gradient at the solution - gradient at the perturbed solution) / epsilon")
            except NotAlgebraic as ex:
                r.skip("loss perturbation gradient", "TheseusLayerDLMForward.backward", str(ex)[:120])
    if not done:
        r.skip("loss perturbation gradient", "TheseusLayerDLMForward.backward", "differences not found")
    # arity
    lead = [x for x in es if x.kind != "star"]
    r.check(len(lead) == len(named) and all(is_const(x, None) for x in lead), "one gradient per input", "TheseusLayerDLMForward.backward", be,
            f"{len(lead)} leading entries for {len(named)} inputs")
    if len(star) == 2:
        t = star[0]
        if t.kind == "bin" and t.args[0] == "*":
            cnt = t.args[2] if t.args[1].kind in ("coll", "list") else t.args[1]
            r.check(not terms_minus(poly(cnt), plus(N, N)), "one gradient per input", "TheseusLayerDLMForward.backward", be, "keys and values need 2n entries without gradient")


NONE = T("const", None)


def check_pass(a, r):
    c = a.p.cls("_FromTensor")
    if c is not None and a.p.method(c, "backward") is not None:
        v = a.view(c, "backward")
        for e in v.returns():
            x = entries_of(v, e)[0]
            r.check(x.kind == "param" and x.args[1] == "grad_output", "pass-through gradient", "_FromTensor.backward", e, "gradient is not handed on unchanged")
    c = a.p.cls("_UnaryPassthroughFn")
    if c is not None:
        v = a.view(c, "backward", opaque=("_backward_impl",))
        ins, fwd = inputs_of(a, c)
        sv, _, _ = saved_seq(a, c)
        fv = a.view(c, "forward")
        for e in fv.returns():
            t = fv.c(e.value)
            r.check(t.kind == "param" and t.args[1] == ins[1], "pass-through value", "_UnaryPassthroughFn.forward", e, "does not return the given result")
        for e in v.returns():
            x = entries_of(v, e)[0]
            if not is_call(x, "_backward_impl") or sv is None:
                continue
            f = a.p.method(c, "_backward_impl")
            names = [q_ for q_ in f.params if q_ != "cls"]
            for i, want in ((0, 0), (1, 2)):
                y = get_arg(x, i, names[i])
                if y is None or not (y.kind == "sub" and is_const(y.args[1])):
                    continue
                s = sv[y.args[1].args[0]] if y.args[1].args[0] < len(sv) else NONE
                r.check(s.kind == "sub" and is_const(s.args[1], want) and show(s.args[0]).endswith("inputs"), "pass-through gradient",
                        "_UnaryPassthroughFn.backward", e, f"{names[i]} is not input {want}")


def check(a, r):
    fs = functions(a)
    for c in fs:
        check_pairing(a, r, c)
    check_lie(a, r)
    check_solves(a, r)
    check_sparse(a, r)
    check_dlm(a, r)
    check_pass(a, r)
    r.parallel(a, [(f, ()) for f in (L.solve_gradients, L.kept_factors, L.kernels)])
