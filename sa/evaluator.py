"""Abstract evaluator: one structured forward pass over a function (with
inlining of project helpers) that produces

* a value term for every expression (global value numbering: locals are
  substituted away, joins become phi terms, loop elements become `each(...)`),
* a list of guarded effect events (calls, attribute/subscript stores, raises,
  returns, ...), each with the conditions, loops, `with` contexts and `try`
  blocks that enclose it *after inlining*.

No path enumeration, no solver, no execution: every statement is visited once
and states are joined at merges.
"""
import ast

from .project import AnalysisBroken, ClassInfo, FunctionInfo, Ref
from .terms import (
    FALSE,
    NONE,
    T,
    TRUE,
    UNDEF,
    Term,
    attr,
    call_name,
    call_recv,
    const,
    is_const,
    rebuild,
    subterms,
)

COMM = {"+", "*", "&", "|", "^"}
BINOPS = {
    ast.Add: "+",
    ast.Sub: "-",
    ast.Mult: "*",
    ast.Div: "/",
    ast.FloorDiv: "//",
    ast.Mod: "%",
    ast.Pow: "**",
    ast.MatMult: "@",
    ast.BitAnd: "&",
    ast.BitOr: "|",
    ast.BitXor: "^",
    ast.LShift: "<<",
    ast.RShift: ">>",
}
UNOPS = {ast.USub: "-", ast.UAdd: "+", ast.Not: "not", ast.Invert: "~"}

# torch functions that are also tensor methods: torch.f(x, ...) == x.f(...)
METHOD_EQUIV = set(
    """abs sum mean any all max min norm square sqrt exp log sin cos tan atan2
    clamp matmul bmm mm mv unsqueeze squeeze transpose permute reshape flatten
    clone detach logical_and logical_or logical_not isnan isinf isfinite
    cross dot diagonal diag diag_embed cumsum prod std var argmin argmax sort
    sign relu softmax allclose numel add mul sub div neg reciprocal pow
    index_select gather repeat_interleave expand_as conj cholesky_solve inverse
    where_ eq ne lt le gt ge ravel narrow roll flip triu tril swapaxes
    masked_fill masked_select nonzero unique unbind split chunk round floor
    float_power sinc asin acos arccos arcsin rsqrt hypot fmod remainder view_as
    """.split()
)
TORCH_SIGS = {
    "unsqueeze": ["dim"],
    "squeeze": ["dim"],
    "sum": ["dim", "keepdim"],
    "mean": ["dim", "keepdim"],
    "any": ["dim", "keepdim"],
    "all": ["dim", "keepdim"],
    "prod": ["dim", "keepdim"],
    "norm": ["p", "dim", "keepdim"],
    "transpose": ["dim0", "dim1"],
    "cat": ["tensors", "dim"],
    "stack": ["tensors", "dim"],
    "clamp": ["min", "max"],
    "cumsum": ["dim"],
    "diag_embed": ["offset", "dim1", "dim2"],
    "diagonal": ["offset", "dim1", "dim2"],
    "flatten": ["start_dim", "end_dim"],
    "index_select": ["dim", "index"],
    "where": ["condition", "input", "other"],
    "narrow": ["dim", "start", "length"],
}


class Event:
    __slots__ = (
        "kind",
        "term",
        "base",
        "name",
        "index",
        "value",
        "target",
        "guards",
        "loops",
        "ctxs",
        "tries",
        "func",
        "node",
        "seq",
        "inlined",
        "aug",
        "stack",
        "end",
    )

    def __init__(self, **kw):
        for s in self.__slots__:
            setattr(self, s, kw.get(s))

    @property
    def loc(self):
        return f"{self.func.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        core = {
            "call": lambda: f"call {self.term}",
            "setattr": lambda: f"{self.base}.{self.name} {'op' if self.aug else ''}= {self.value}",
            "setitem": lambda: f"{self.base}[{self.index}] {'op' if self.aug else ''}= {self.value}",
        }.get(self.kind, lambda: f"{self.kind} {self.base or ''} {self.value or self.term or ''}")()
        g = " & ".join(("" if p else "not ") + repr(t) for t, p in self.guards)
        lp = f" loops={len(self.loops)}" if self.loops else ""
        return f"<{self.seq} {core}{lp}{' | ' + g if g else ''}>"


class Frame:
    def __init__(self, func, cls, env, parent=None):
        self.func = func
        self.cls = cls  # class providing the method (for super())
        self.env = env
        self.parent = parent
        self.returns = []
        self.guard_base = 0
        self.loop_base = 0
        self.nonlocals = set()
        self.yields = []


class Flow:
    __slots__ = ("dead", "residual")

    def __init__(self, dead=None, residual=None):
        self.dead = dead  # None | 'ret' | 'raise' | 'loop'
        self.residual = residual or []


class Entry:
    __slots__ = ("kind", "items", "guards", "loops")

    def __init__(self, kind, items, guards, loops):
        self.kind, self.items, self.guards, self.loops = kind, items, guards, loops

    def __repr__(self):
        return f"Entry({self.kind},{self.items},g={self.guards},l={self.loops})"


def norm_cond(t, pol=True):
    while True:
        if t.kind == "un" and t.args[0] == "not":
            t, pol = t.args[1], not pol
        elif t.kind == "cmp" and t.args[0] == "<=":
            t, pol = T("cmp", "<", t.args[2], t.args[1]), not pol
        elif t.kind == "call" and t.args[0] is T("builtin", "bool") and t.args[1]:
            t = t.args[1][0]
        else:
            return t, pol


def split_guard(t, pol):
    """Guards implied by (t is pol)."""
    t, pol = norm_cond(t, pol)
    if t.kind == "and" and pol:
        out = []
        for x in t.args[0]:
            out += split_guard(x, True)
        return out
    if t.kind == "or" and not pol:
        out = []
        for x in t.args[0]:
            out += split_guard(x, False)
        return out
    return [(t, pol)]


def mk_not(t):
    if is_const(t, True):
        return FALSE
    if is_const(t, False):
        return TRUE
    if t.kind == "un" and t.args[0] == "not":
        return t.args[1]
    return T("un", "not", t)


def mk_phi(c, a, b):
    if a is b:
        return a
    c, pol = norm_cond(c)
    if is_const(c):
        v = bool(c.args[0]) == pol
        return a if v else b
    if not pol:
        a, b = b, a
    # boolean phi
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    # collapse nested phi on the same condition
    if a.kind == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.kind == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return T("phi", c, a, b)


def mk_bin(op, a, b):
    if a.kind == "const" and b.kind == "const":
        x, y = a.args[0], b.args[0]
        if (
            isinstance(x, (int, float))
            and isinstance(y, (int, float))
            and not isinstance(x, bool)
            and not isinstance(y, bool)
        ):
            try:
                r = {
                    "+": lambda: x + y,
                    "-": lambda: x - y,
                    "*": lambda: x * y,
                    "/": lambda: x / y,
                    "//": lambda: x // y,
                    "%": lambda: x % y,
                    "**": lambda: x**y,
                }[op]()
                return const(r)
            except Exception:
                pass
    if op == "+" and a.kind in ("new", "inst") or b.kind in ("new", "inst"):
        return T("bin", op, a, b)
    if op in ("+", "*") and a.kind == "tuple" and b.kind == "tuple" and op == "+":
        return T("tuple", a.args[0] + b.args[0])
    if op in COMM and a.kind not in ("tuple", "fstr") and b.kind not in ("tuple", "fstr"):
        if b < a:
            a, b = b, a
    return T("bin", op, a, b)


def mk_un(op, a):
    if op == "not":
        return mk_not(a)
    if a.kind == "const" and isinstance(a.args[0], (int, float)):
        if op == "-":
            return const(-a.args[0])
        if op == "+":
            return a
    if op == "-" and a.kind == "un" and a.args[0] == "-":
        return a.args[1]
    return T("un", op, a)


def mk_cmp(op, a, b):
    if op == "!=":
        return mk_not(mk_cmp("==", a, b))
    if op == "is not":
        return mk_not(mk_cmp("is", a, b))
    if op == "not in":
        return mk_not(mk_cmp("in", a, b))
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_cmp("<=", b, a)
    if op in ("is", "=="):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if is_const(x, None) and y.kind in (
                "new",
                "inst",
                "tuple",
                "closure",
                "func",
                "class",
                "fstr",
                "list",
            ):
                return FALSE
        if a.kind == "const" and b.kind == "const":
            if op == "==" or a.args[0] is None or b.args[0] is None:
                return const(a.args[0] == b.args[0] and (type(a.args[0]) is type(b.args[0]) or op == "=="))
        if b < a:
            a, b = b, a
    return T("cmp", op, a, b)


class Evaluator:
    def __init__(
        self,
        project,
        opaque=(),
        inline=None,
        known=None,
        max_depth=14,
        inline_public=False,
    ):
        self.p = project
        self.opaque = set(opaque)
        self.inline_set = set(inline or ())
        self.known = known
        self.max_depth = max_depth
        self.inline_public = inline_public
        self.events = []
        self.guards = []
        self.loops = []
        self.ctxs = []
        self.tries = []
        self.frames = []
        self.stack = []
        self.heap = {}
        self.allocs = {}
        self.alloc_birth = {}
        self.insts = {}
        self.made = {}
        self.closures = {}
        self.ptypes = {}
        self.typehints = {}
        self.loopinfo = {}
        self.leaves = {}  # loop id -> [(break|continue, guards, {loopvar: value there})]
        self.carry = []
        self.n = 0
        self.stmt_residual = []
        self.call_dead = False
        self.unsupported = []

    # ------------------------------------------------------------------ entry
    def run(self, func, cls=None, args=None):
        """Evaluate `func` (as method of concrete class `cls` if given)."""
        cls = cls or func.cls
        env = {}
        params = func.params
        bound = dict(args or {})
        allp = list(params) + list(func.kwonly)
        defaults = func.defaults()
        for i, name in enumerate(allp):
            if name in bound:
                env[name] = bound[name]
                continue
            if i == 0 and func.cls is not None and not func.is_static:
                if func.is_classmethod:
                    env[name] = T("class", cls.qual)
                else:
                    env[name] = T("self", cls.qual)
                continue
            t = T("param", func.qual, name)
            ann = func.param_nodes()[name].annotation
            self.ptypes[t] = self.p.ann_type(func.module, ann)
            env[name] = t
        a = func.node.args
        if a.vararg:
            env[a.vararg.arg] = bound.get(a.vararg.arg, T("param", func.qual, "*" + a.vararg.arg))
        if a.kwarg:
            env[a.kwarg.arg] = bound.get(a.kwarg.arg, T("param", func.qual, "**" + a.kwarg.arg))
        fr = Frame(func, func.cls, env)
        self.frames.append(fr)
        self.stack.append(func)
        pushed = self._push_decorator_ctx(func)
        flow = self.exec_block(func.node.body)
        self._pop_ctx(pushed)
        if not flow.dead:
            fr.returns.append((tuple(r[:2] for r in flow.residual), NONE, None))
        self.frames.pop()
        self.stack.pop()
        self.frame0 = fr
        self.result = self.merge_returns(fr.returns)
        return self

    def _push_decorator_ctx(self, func):
        n = 0
        for d in getattr(func.node, "decorator_list", []):
            s = ast.unparse(d)
            if "no_grad" in s or "enable_grad" in s or "inference_mode" in s:
                node = d if isinstance(d, ast.Call) else ast.Call(func=d, args=[], keywords=[])
                ast.copy_location(node, d)
                ast.fix_missing_locations(node)
                r = self.p.resolve_expr(func.module, node.func)
                if r is not None and r.kind == "ext":
                    self.ctxs.append(T("call", T("ext", r.value), (), ()))
                    n += 1
        return n

    def _pop_ctx(self, n):
        for _ in range(n):
            self.ctxs.pop()

    # ----------------------------------------------------------------- helpers
    @property
    def fr(self):
        return self.frames[-1]

    def new_id(self):
        self.n += 1
        return self.n

    def ev(self, kind, node, **kw):
        e = Event(
            kind=kind,
            guards=tuple(self.guards),
            loops=tuple(self.loops),
            ctxs=tuple(self.ctxs),
            tries=tuple(self.tries),
            func=self.fr.func,
            stack=tuple(self.stack),
            node=node,
            seq=len(self.events),
            **kw,
        )
        self.events.append(e)
        return e

    def alloc(self, kind, items=()):
        n = self.new_id()
        t = T("new", kind, n)
        self.allocs[n] = [
            Entry("item", (i,), tuple(self.guards), tuple(self.loops)) for i in items
        ]
        self.alloc_birth[n] = (len(self.guards), len(self.loops))
        return t

    def add_entry(self, t, kind, *items):
        if t.kind == "phi":
            for x in t.args[1:]:
                self.add_entry(x, kind, *items)
            return
        if t.kind == "new":
            self.allocs[t.args[1]].append(
                Entry(kind, items, tuple(self.guards), tuple(self.loops))
            )

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts):
        residual = []
        n0 = len(self.guards)
        for st in stmts:
            flow = self.exec_stmt(st)
            if flow.dead:
                del self.guards[n0:]
                return Flow(flow.dead, residual)
            for r in flow.residual:
                if (r[0], r[1]) not in self.guards:
                    self.guards.append((r[0], r[1]))
                    residual.append(r)
        del self.guards[n0:]
        return Flow(None, residual)

    def exec_stmt(self, st):
        saved = self.stmt_residual
        self.stmt_residual = []
        dead0 = self.call_dead
        self.call_dead = False
        n0 = len(self.guards)
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            self.unsupported.append((type(st).__name__, self.fr.func.qual))
            flow = Flow()
        else:
            flow = m(st) or Flow()
        res = self.stmt_residual
        self.stmt_residual = saved
        del self.guards[n0:]
        if self.call_dead and not flow.dead:
            flow = Flow("raise")
        self.call_dead = dead0
        flow.residual = list(res) + list(flow.residual)
        return flow

    def st_Pass(self, st):
        pass

    def st_Import(self, st):
        for a in st.names:
            nm = a.asname or a.name.split(".")[0]
            self.fr.env[nm] = T("ext", a.name if a.asname else nm)

    def st_ImportFrom(self, st):
        base = self.fr.func.module._abs(st)
        for a in st.names:
            r = self.p.resolve_member(base, a.name)
            self.fr.env[a.asname or a.name] = self.ref_term(r)

    def st_Global(self, st):
        pass

    def st_Nonlocal(self, st):
        self.fr.nonlocals.update(st.names)

    def st_FunctionDef(self, st):
        fi = FunctionInfo(st, self.fr.func.module, parent=self.fr.func)
        n = self.new_id()
        self.closures[n] = (fi, self.fr)
        self.fr.env[st.name] = T("closure", n)

    def st_ClassDef(self, st):
        self.fr.env[st.name] = T("localclass", f"{self.fr.func.qual}.{st.name}")

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def st_Assert(self, st):
        c = self.eval(st.test)
        self.ev("assert", st, value=c)
        return Flow(None, [(g, p, "raise") for g, p in split_guard(c, True)])

    def st_Return(self, st):
        v = self.eval(st.value) if st.value is not None else NONE
        fr = self.fr
        rel = tuple(self.guards[fr.guard_base :])
        loop = tuple(self.loops[fr.loop_base :])
        fr.returns.append((rel, v, loop))
        self.ev("return", st, value=v)
        return Flow("ret")

    def st_Raise(self, st):
        v = self.eval(st.exc) if st.exc is not None else NONE
        self.ev("raise", st, value=v)
        return Flow("raise")

    def st_Break(self, st):
        self.ev("break", st)
        self.leave("break")
        return Flow("loop")

    def st_Continue(self, st):
        self.ev("continue", st)
        self.leave("continue")
        return Flow("loop")

    def leave(self, kind):
        """Values of the loop-carried variables where an iteration is cut short."""
        if self.carry:
            lid, init = self.carry[-1]
            now = {lv: self.fr.env.get(nm, old) for nm, (lv, old) in init.items()}
            self.leaves.setdefault(lid, []).append((kind, tuple(self.guards), now))

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                i = self.eval_index(t.slice)
                self.ev("del", st, base=b, index=i)
                self.add_entry(b, "del", i)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value)
                self.ev("delattr", st, base=b, name=t.attr)
                self.heap.pop((b, t.attr), None)

    def st_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v, st)

    def st_AnnAssign(self, st):
        if st.value is not None:
            v = self.eval(st.value)
            ty = self.p.ann_type(self.fr.func.module, st.annotation)
            if ty is not None and v not in self.typehints:
                self.typehints[v] = ty
            self.assign(st.target, v, st)

    def st_AugAssign(self, st):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id)
            v = self.eval(st.value)
            if old.kind == "new" and op == "+":
                self.ev("mutcall", st, base=old, name="extend", value=v)
                self.add_entry(old, "extend", v)
                return
            new = mk_bin(op, old, v)
            self.ev("aug", st, base=old, name=t.id, value=new, term=v, index=const(op))
            self.set_name(t.id, new)
            self.write_through(old, new)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            old = self.getattr(b, t.attr, t)
            v = self.eval(st.value)
            if old.kind == "new" and op == "+":
                self.add_entry(old, "extend", v)
            new = mk_bin(op, old, v)
            self.ev("setattr", st, base=b, name=t.attr, value=new, aug=op, term=v)
            self.heap[(b, t.attr)] = new
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            i = self.eval_index(t.slice)
            old = self.subscript(b, i)
            v = self.eval(st.value)
            new = mk_bin(op, old, v)
            self.setitem(b, i, new, st, aug=op, term=v)

    def st_If(self, st):
        c = self.eval(st.test)
        c, pol = norm_cond(c)
        if c.kind == "const":
            truth = bool(c.args[0]) == pol
            return self.exec_block(st.body if truth else st.orelse)
        known = self.known_truth(c)
        if known is not None:
            return self.exec_block(st.body if known == pol else st.orelse)
        gt = split_guard(c, pol)
        gf = split_guard(c, not pol)
        fr = self.fr
        env0, heap0 = fr.env, self.heap
        fr.env, self.heap = dict(env0), dict(heap0)
        n0 = len(self.guards)
        self.guards.extend(gt)
        f1 = self.exec_block(st.body)
        del self.guards[n0:]
        env1, heap1 = fr.env, self.heap
        fr.env, self.heap = dict(env0), dict(heap0)
        self.guards.extend(gf)
        f2 = self.exec_block(st.orelse)
        del self.guards[n0:]
        env2, heap2 = fr.env, self.heap
        if f1.dead and f2.dead:
            lab = f1.dead if f1.dead == f2.dead else "ret"
            if "loop" in (f1.dead, f2.dead) and lab == "ret":
                lab = "loop"
            return Flow(lab)
        if f1.dead:
            fr.env, self.heap = env2, heap2
            return Flow(None, [(g, p, f1.dead) for g, p in gf] + f2.residual)
        if f2.dead:
            fr.env, self.heap = env1, heap1
            return Flow(None, [(g, p, f2.dead) for g, p in gt] + f1.residual)
        cc = c if pol else mk_not(c)
        fr.env = self.join_env(cc, env1, env2)
        self.heap = self.join_heap(cc, heap1, heap2)
        residual = []
        for gs, f in ((gt, f1), (gf, f2)):
            for g, p, lab in f.residual:
                residual.append(
                    (T("implies", tuple(x if q else mk_not(x) for x, q in gs), g if p else mk_not(g)), True, lab)
                )
        return Flow(None, residual)

    def known_truth(self, c):
        for g, p in self.guards:
            if g is c:
                return p
        return None

    def join_env(self, c, e1, e2):
        out = {}
        for k in set(e1) | set(e2):
            out[k] = mk_phi(c, e1.get(k, UNDEF), e2.get(k, UNDEF))
        return out

    def join_heap(self, c, h1, h2):
        out = {}
        for k in set(h1) | set(h2):
            out[k] = mk_phi(c, h1.get(k, attr(*k)), h2.get(k, attr(*k)))
        return out

    # loops
    def assigned_names(self, stmts):
        out = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        return out

    def assigned_attrs(self, stmts):
        out = set()
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.Call):
                    nm = None
                    if isinstance(n.func, ast.Attribute):
                        nm = n.func.attr
                    elif isinstance(n.func, ast.Name):
                        nm = n.func.id
                    if nm:
                        out |= modset(self.p, nm)
        return out

    def exec_loop(self, st, iter_term, target, test=None):
        fr = self.fr
        lid = self.new_id()
        names = self.assigned_names(st.body)
        env0 = dict(fr.env)
        heap0 = dict(self.heap)
        depth = len(self.loops)
        init = {}
        counted = None
        if test is not None:
            counted = self.counted_while(st, names)
        for nm in sorted(names):
            if nm in fr.env or self._in_outer(nm):
                old = fr.env.get(nm)
                if old is None:
                    continue
                if old.kind == "new":
                    continue
                lv = T("loopvar", nm, lid)
                init[nm] = (lv, old)
                self.typehints.setdefault(lv, self.type_of(old))
                fr.env[nm] = lv
        attrs = self.assigned_attrs(st.body)
        for k in list(self.heap):
            if k[1] in attrs:
                v = self.heap[k]
                if v.kind == "new":
                    continue
                self.heap[k] = T("hv", k[0], k[1], self.new_id())
        n0 = len(self.guards)
        if counted is not None:
            var, bound = counted
            b = self.eval(bound)
            iter_term = T("call", T("builtin", "range"), (b,), ())
            elem = self.elem_of(iter_term, depth)
            fr.env[var] = elem
            init.pop(var, None)
            self.loops.append((lid, iter_term, st))
        elif test is not None:
            self.loops.append((lid, T("while", lid), st))
            c = self.eval(test)
            self.guards.extend(split_guard(c, True))
        else:
            elem = self.elem_of(iter_term, depth)
            for nm in self.counters(st, init):
                fr.env[nm] = self.idx_of(iter_term)     # as with enumerate
            self.loops.append((lid, iter_term, st))
            self.assign(target, elem, st, quiet=True)
        self.carry.append((lid, init))
        flow = self.exec_block(st.body)
        self.carry.pop()
        del self.guards[n0:]
        self.loops.pop()
        env1, heap1 = fr.env, self.heap
        # after the loop
        out = dict(env1)
        for nm, (lv, old) in init.items():
            new = env1.get(nm, old)
            self.loopinfo[lv] = (old, new, iter_term)
            if new is lv:
                out[nm] = old
            else:
                out[nm] = T("loopout", lid, lv, old, new)
        for nm in env1:
            if nm not in env0 and nm not in init:
                pass
        fr.env = out
        for k, v in list(heap1.items()):
            if k in heap0 and heap0[k] is not v and v.kind != "new":
                self.heap[k] = T("loopout", lid, attr(*k), heap0[k], v)
        residual = []
        labs = {r[2] for r in flow.residual}
        if "ret" in labs or "raise" in labs or flow.dead in ("ret", "raise"):
            lab = "raise" if labs <= {"raise", "loop"} and flow.dead != "ret" else "ret"
            residual.append((T("loopdone", lid), True, lab))
            if flow.residual and all(r[2] == "raise" for r in flow.residual):
                # every element satisfied the check
                for g, p, _ in flow.residual:
                    residual.append(
                        (T("forall", iter_term, g if p else mk_not(g)), True, "raise")
                    )
        if st.orelse:
            f = self.exec_block(st.orelse)
            if f.dead:
                # break paths may still fall through
                return Flow(None, residual)
            residual += f.residual
        if test is not None and is_const(self._quiet_eval_const(test), True):
            if not _has_break(st.body):
                return Flow("ret", residual)
        return Flow(None, residual)

    def _in_outer(self, nm):
        return False

    def _quiet_eval_const(self, node):
        if isinstance(node, ast.Constant):
            return const(bool(node.value))
        return UNDEF

    def counters(self, st, init):
        """locals that are zero before the loop and incremented once by every iteration"""
        out = []
        for n in st.body:
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant) and n.value.value == 1:
                nm = n.target.id
                if nm not in init or not is_const(init[nm][1], 0) or isinstance(init[nm][1].args[0], bool):
                    continue
                others = [x for y in st.body for x in ast.walk(y) if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, (ast.Store, ast.Del))]
                if len(others) == 1 and not _has_jump(st.body) and not _has_break(st.body):
                    out.append(nm)
        return out

    def counted_while(self, st, names):
        """while i < n: ...; i += 1  (i starts at 0, no other writes/continue)."""
        t = st.test
        if not (
            isinstance(t, ast.Compare)
            and len(t.ops) == 1
            and isinstance(t.ops[0], ast.Lt)
            and isinstance(t.left, ast.Name)
        ):
            return None
        var = t.left.id
        if not is_const(self.fr.env.get(var, UNDEF), 0):
            return None
        writes = []
        for s in st.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == var:
                    writes.append(n)
        last = st.body[-1]
        if not (
            isinstance(last, ast.AugAssign)
            and isinstance(last.op, ast.Add)
            and isinstance(last.target, ast.Name)
            and last.target.id == var
            and isinstance(last.value, ast.Constant)
            and last.value.value == 1
            and len(writes) == 1
        ):
            return None
        for s in st.body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Continue, ast.Break)):
                    return None
        bnames = {n.id for n in ast.walk(t.comparators[0]) if isinstance(n, ast.Name)}
        if bnames & names:
            return None
        return var, t.comparators[0]

    def st_For(self, st):
        it = self.eval(st.iter)
        return self.exec_loop(st, it, st.target)

    def st_While(self, st):
        return self.exec_loop(st, None, None, test=st.test)

    def elem_of(self, it, depth=0):
        """The generic element of iterable `it`."""
        if it.kind == "call":
            nm = call_name(it)
            pos = it.args[1]
            if it.args[0].kind == "builtin":
                if nm == "enumerate" and pos:
                    return T("tuple", (self.idx_of(pos[0]), self.elem_of(pos[0], depth)))
                if nm == "zip":
                    return T("tuple", tuple(self.elem_of(x, depth) for x in pos))
                if nm in ("list", "tuple", "iter") and len(pos) == 1:
                    return self.elem_of(pos[0], depth)
                if nm == "range" and len(pos) == 1:
                    b = pos[0]
                    if b.kind == "call" and b.args[0] is T("builtin", "len"):
                        return self.idx_of(b.args[1][0])
                    return T("idx", it)
            if it.args[0].kind == "attr" and not pos:
                d = it.args[0].args[0]
                if nm == "items":
                    return T("tuple", (T("key", d), T("val", d)))
                if nm == "values":
                    return T("val", d)
                if nm == "keys":
                    return T("key", d)
        ty = self.type_of(it)
        if isinstance(ty, tuple) and ty[0] == "dict":
            return T("key", it)
        if it.kind == "new" and it.args[0] == "dict":
            return T("key", it)
        if it.kind == "new":
            # elements of a comprehension-like list
            es = self.simple_entries(it)
            if es is not None and len(es) == 1 and es[0].kind in ("item", "append"):
                birth = self.alloc_birth[it.args[1]]
                if len(es[0].loops) > birth[1] and es[0].guards[birth[0] :] == ():
                    return es[0].items[0]
        return T("elem", it)

    def idx_of(self, it):
        if it.kind == "call" and it.args[0].kind == "builtin" and call_name(it) in ("list", "tuple") and it.args[1]:
            return self.idx_of(it.args[1][0])
        return T("idx", it)

    def simple_entries(self, t):
        es = self.allocs.get(t.args[1])
        if es is None:
            return None
        if any(e.kind not in ("item", "append", "extend", "kv") for e in es):
            return None
        return es

    # with / try
    def st_With(self, st):
        pushed = 0
        n0 = len(self.guards)
        for item in st.items:
            c = self.eval(item.context_expr)
            e = self.ev("with", st, value=c)
            self.ctxs.append(c)
            pushed += 1
            if item.optional_vars is not None:
                self.assign(item.optional_vars, T("enter", c), st)
        flow = self.exec_block(st.body)
        for _ in range(pushed):
            c = self.ctxs.pop()
            self.ev("endwith", st, value=c)
        return flow

    def st_Try(self, st):
        tid = self.new_id()
        fr = self.fr
        env0, heap0 = dict(fr.env), dict(self.heap)
        has_handlers = bool(st.handlers)
        self.tries.append((tid, "body", st))
        fb = self.exec_block(st.body)
        if not fb.dead and st.orelse:
            for r in fb.residual:
                self.guards.append(tuple(r[:2]))
            fo = self.exec_block(st.orelse)
            del self.guards[len(self.guards) - len(fb.residual) :]
            fb = Flow(fo.dead, fb.residual + fo.residual)
        self.tries.pop()
        env1, heap1 = fr.env, self.heap
        results = [(None, fb, env1, heap1)]
        for i, h in enumerate(st.handlers):
            cond = T("exc", tid, i)
            fr.env = self.join_env(T("excpoint", tid), env0, env1)
            self.heap = self.join_heap(T("excpoint", tid), heap0, heap1)
            if h.name:
                fr.env[h.name] = T("excvalue", tid, i)
            self.guards.append((cond, True))
            self.tries.append((tid, "handler", st))
            ht = self.eval(h.type) if h.type is not None else NONE
            self.ev("except", h, value=ht)
            fh = self.exec_block(h.body)
            self.tries.pop()
            self.guards.pop()
            results.append((cond, fh, fr.env, self.heap))
        live = [r for r in results if not r[1].dead]
        if not live:
            fr.env, self.heap = env1, heap1
            deads = {r[1].dead for r in results}
            flow = Flow("ret" if "ret" in deads else "loop" if "loop" in deads else "raise")
        else:
            e, h = live[-1][2], live[-1][3]
            for cond, f, ee, hh in reversed(live[:-1]):
                c = live[-1][0] if live[-1][0] is not None else T("exc", tid, 0)
                e = self.join_env(c, e, ee)
                h = self.join_heap(c, h, hh)
            fr.env, self.heap = e, h
            if len(live) == 1 and live[0][0] is None:
                flow = Flow(None, list(fb.residual))
            elif len(live) == 1:
                flow = Flow(None, [(live[0][0], True, fb.dead or "ret")])
            else:
                flow = Flow(None, [r for r in fb.residual if r[2] in ("ret", "loop")])
        if st.finalbody:
            self.tries.append((tid, "finally", st))
            ff = self.exec_block(st.finalbody)
            self.tries.pop()
            if ff.dead:
                flow = Flow(ff.dead)
            else:
                flow.residual = list(flow.residual) + ff.residual
        return flow

    # -------------------------------------------------------------- assignment
    def assign(self, target, v, node, quiet=False):
        if isinstance(target, ast.Name):
            self.set_name(target.id, v)
        elif isinstance(target, ast.Attribute):
            b = self.eval(target.value)
            self.ev("setattr", node, base=b, name=target.attr, value=v)
            self.heap[(b, target.attr)] = v
        elif isinstance(target, ast.Subscript):
            b = self.eval(target.value)
            i = self.eval_index(target.slice)
            self.setitem(b, i, v, node)
        elif isinstance(target, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    after = len(target.elts) - i - 1
                    self.assign(
                        e.value,
                        self.subscript(v, T("slice", const(i), const(-after) if after else NONE, NONE)),
                        node,
                    )
                elif star and i > star[0]:
                    self.assign(e, self.subscript(v, const(i - len(target.elts))), node)
                else:
                    self.assign(e, self.item(v, i), node)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, node)

    def item(self, v, i):
        if v.kind == "phi":
            return mk_phi(v.args[0], self.item(v.args[1], i), self.item(v.args[2], i))
        return self.subscript(v, const(i))

    def set_name(self, name, v):
        fr = self.fr
        if name in fr.nonlocals and fr.parent is not None:
            f = fr.parent
            while f is not None:
                if name in f.env:
                    f.env[name] = v
                    return
                f = f.parent
        fr.env[name] = v

    def setitem(self, b, i, v, node, aug=None, term=None):
        root = strip(b)
        self.ev("setitem", node, base=root, index=i, value=v, aug=aug, term=term)
        if root.kind == "new":
            self.add_entry(root, "kv", i, v)
            return
        if root.kind == "phi":
            self.add_entry(root, "kv", i, v)
        ty = self.type_of(root)
        if isinstance(ty, tuple) and ty[0] in ("dict", "list"):
            self.heap[(root, ("item", i))] = v
            return
        if isinstance(ty, ClassInfo):
            return
        self.replace(b, T("upd", b, i, v))

    def replace(self, old, new):
        if old.kind in ("const", "self", "func", "class", "ext", "builtin"):
            return
        for f in self.frames:
            for k, v in f.env.items():
                if v is old:
                    f.env[k] = new
        changed = False
        for k, v in self.heap.items():
            if v is old:
                self.heap[k] = new
                changed = True
        if old.kind == "attr" and not changed and (old.args[0], old.args[1]) not in self.heap:
            self.heap[(old.args[0], old.args[1])] = new

    # -------------------------------------------------------------- expressions
    def eval(self, node):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            self.unsupported.append((type(node).__name__, self.fr.func.qual))
            return T("unknown", self.new_id())
        return m(node)

    def ex_Constant(self, n):
        return const(n.value)

    def lookup(self, name):
        f = self.fr
        while f is not None:
            if name in f.env:
                v = f.env[name]
                return v
            f = f.parent
        r = self.p.resolve_in_module(self.fr.func.module, name)
        if r is not None:
            return self.ref_term(r)
        return T("builtin", name)

    def ref_term(self, r):
        if r.kind == "func":
            return T("func", r.value.qual)
        if r.kind == "class":
            return T("class", r.value.qual)
        if r.kind == "mod":
            return T("mod", r.value.name)
        if r.kind == "ext":
            return T("ext", r.value)
        m, n = r.value
        node = m.vars[n]
        if isinstance(node, ast.Constant):
            return const(node.value)
        if (
            isinstance(node, ast.UnaryOp)
            and isinstance(node.op, ast.USub)
            and isinstance(node.operand, ast.Constant)
        ):
            return const(-node.operand.value)
        t = T("gvar", m.name, n)
        return t

    def ex_Name(self, n):
        return self.lookup(n.id)

    def ex_Attribute(self, n):
        b = self.eval(n.value)
        return self.getattr(b, n.attr, n)

    def getattr(self, b, name, node=None):
        if b.kind == "mod":
            r = self.p.resolve_member(b.args[0], name)
            if r.kind != "ext":
                return self.ref_term(r)
            return T("ext", r.value)
        if b.kind == "ext":
            return T("ext", f"{b.args[0]}.{name}")
        if b.kind == "phi" and any(x.kind in ("inst", "new") or is_const(x, None) for x in b.args[1:]):
            pass
        if (b, name) in self.heap:
            return self.heap[(b, name)]
        if b.kind == "inst":
            args = self.insts.get(b.args[1], {})
        ty = self.type_of(b)
        if isinstance(ty, ClassInfo):
            m = self.p.method(ty, name)
            if m is not None and m.is_property:
                if self.want_inline(m, b, ty):
                    self.ev("call", node, term=T("call", attr(b, name), (), ()), target=m, inlined=True)
                    return self.inline(m, {m.params[0]: b}, node, ty)
                return attr(b, name)
        if b.kind == "class":
            c = self.p._class_index.get(b.args[0])
            if c is not None:
                m = self.p.method(c, name)
                if m is not None and not m.is_property:
                    return T("func", m.qual)
                if name in c.inner:
                    return T("class", c.inner[name].qual)
        return attr(b, name)

    def ex_Subscript(self, n):
        b = self.eval(n.value)
        i = self.eval_index(n.slice)
        return self.subscript(b, i)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return T(
                "slice",
                self.eval(s.lower) if s.lower else NONE,
                self.eval(s.upper) if s.upper else NONE,
                self.eval(s.step) if s.step else NONE,
            )
        if isinstance(s, ast.Tuple):
            return T("tuple", tuple(self.eval_index(e) for e in s.elts))
        return self.eval(s)

    def ex_Slice(self, n):
        return self.eval_index(n)

    def subscript(self, b, i):
        if b.kind in ("tuple", "list") and i.kind == "const" and isinstance(i.args[0], int):
            items = b.args[0]
            if -len(items) <= i.args[0] < len(items) and not any(x.kind == "star" for x in items):
                return items[i.args[0]]
        if b.kind == "tuple" and i.kind == "slice" and all(
            x.kind == "const" and (x.args[0] is None or isinstance(x.args[0], int)) for x in i.args
        ):
            return T("tuple", b.args[0][slice(*[x.args[0] for x in i.args])])
        if b.kind == "new":
            es = self.simple_entries(b)
            birth = self.alloc_birth[b.args[1]]
            if es is not None:
                flat = all(
                    e.guards[birth[0] :] == () and len(e.loops) == birth[1] for e in es
                )
                if flat and i.kind == "const" and isinstance(i.args[0], int) and b.args[0] != "dict":
                    items = []
                    ok = True
                    for e in es:
                        if e.kind in ("item", "append"):
                            items.append(e.items[0])
                        else:
                            ok = False
                    if ok and -len(items) <= i.args[0] < len(items):
                        return items[i.args[0]]
                if flat and b.args[0] == "dict":
                    for e in reversed(es):
                        if e.kind == "kv" and e.items[0] is i:
                            return e.items[1]
                        if e.kind == "kv" and not (e.items[0].kind == "const" and i.kind == "const"):
                            break
        if (b, ("item", i)) in self.heap:
            return self.heap[(b, ("item", i))]
        if i.kind == "idx" and i.args[0] is b:
            return self.elem_of(b)
        if i.kind == "key" and i.args[0] is b:
            return T("val", b)
        if b.kind == "call" and b.args[0].kind == "builtin" and call_name(b) in ("list", "tuple") and len(b.args[1]) == 1:
            inner = b.args[1][0]
            if i.kind == "idx" and i.args[0] is inner:
                return self.elem_of(inner)
        return T("sub", b, i)

    def ex_Tuple(self, n):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value)
                if v.kind == "tuple":
                    out += list(v.args[0])
                else:
                    out.append(T("star", v))
            else:
                out.append(self.eval(e))
        return T("tuple", tuple(out))

    def ex_List(self, n):
        items = []
        t = self.alloc("list")
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.add_entry(t, "extend", self.eval(e.value))
            else:
                self.add_entry(t, "item", self.eval(e))
        return t

    def ex_Set(self, n):
        return self.alloc("set", [self.eval(e) for e in n.elts])

    def ex_Dict(self, n):
        t = self.alloc("dict")
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.add_entry(t, "extend", self.eval(v))
            else:
                self.add_entry(t, "kv", self.eval(k), self.eval(v))
        return t

    def comp(self, kind, n, elt):
        t = self.alloc(kind)
        fr = self.fr
        saved = dict(fr.env)
        nl, ng = len(self.loops), len(self.guards)
        for g in n.generators:
            it = self.eval(g.iter)
            lid = self.new_id()
            e = self.elem_of(it, len(self.loops))
            self.loops.append((lid, it, n))
            self.assign(g.target, e, n)
            for c in g.ifs:
                self.guards.extend(split_guard(self.eval(c), True))
        elt(t)
        del self.loops[nl:]
        del self.guards[ng:]
        bound = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    bound.add(x.id)
        for b in bound:
            if b in saved:
                fr.env[b] = saved[b]
            else:
                fr.env.pop(b, None)
        return t

    def ex_ListComp(self, n):
        return self.comp("list", n, lambda t: self.add_entry(t, "append", self.eval(n.elt)))

    def ex_SetComp(self, n):
        return self.comp("set", n, lambda t: self.add_entry(t, "append", self.eval(n.elt)))

    def ex_GeneratorExp(self, n):
        return self.comp("list", n, lambda t: self.add_entry(t, "append", self.eval(n.elt)))

    def ex_DictComp(self, n):
        return self.comp(
            "dict",
            n,
            lambda t: self.add_entry(t, "kv", self.eval(n.key), self.eval(n.value)),
        )

    def ex_BinOp(self, n):
        a = self.eval(n.left)
        b = self.eval(n.right)
        return mk_bin(BINOPS[type(n.op)], a, b)

    def ex_UnaryOp(self, n):
        return mk_un(UNOPS[type(n.op)], self.eval(n.operand))

    def ex_BoolOp(self, n):
        n0 = len(self.guards)
        is_and = isinstance(n.op, ast.And)
        vals = []
        for v in n.values:
            t = self.eval(v)
            if t.kind == "const":
                truth = bool(t.args[0])
                if truth != is_and:
                    vals.append(t)
                    break
                if v is not n.values[-1]:
                    continue
            k = self.known_truth(norm_cond(t)[0])
            vals.append(t)
            self.guards.extend(split_guard(t, is_and))
        del self.guards[n0:]
        if not vals:
            return const(is_and)
        if len(vals) == 1:
            return vals[0]
        kind = "and" if is_and else "or"
        flat = []
        for v in vals:
            if v.kind == kind:
                flat += list(v.args[0])
            else:
                flat.append(v)
        return T(kind, tuple(flat))

    def ex_Compare(self, n):
        ops = {
            ast.Eq: "==",
            ast.NotEq: "!=",
            ast.Lt: "<",
            ast.LtE: "<=",
            ast.Gt: ">",
            ast.GtE: ">=",
            ast.Is: "is",
            ast.IsNot: "is not",
            ast.In: "in",
            ast.NotIn: "not in",
        }
        left = self.eval(n.left)
        out = []
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            out.append(mk_cmp(ops[type(op)], left, right))
            left = right
        if len(out) == 1:
            return out[0]
        return T("and", tuple(out))

    def ex_IfExp(self, n):
        c = self.eval(n.test)
        c, pol = norm_cond(c)
        if c.kind == "const":
            return self.eval(n.body if bool(c.args[0]) == pol else n.orelse)
        k = self.known_truth(c)
        if k is not None:
            return self.eval(n.body if k == pol else n.orelse)
        n0 = len(self.guards)
        self.guards.extend(split_guard(c, pol))
        a = self.eval(n.body)
        del self.guards[n0:]
        self.guards.extend(split_guard(c, not pol))
        b = self.eval(n.orelse)
        del self.guards[n0:]
        return mk_phi(c if pol else mk_not(c), a, b)

    def ex_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.eval(v.value))
            else:
                parts.append(self.eval(v))
        return T("fstr", tuple(parts))

    def ex_FormattedValue(self, n):
        return self.eval(n.value)

    def ex_Lambda(self, n):
        node = ast.FunctionDef(
            name="<lambda>",
            args=n.args,
            body=[ast.copy_location(ast.Return(value=n.body), n.body)],
            decorator_list=[],
            returns=None,
        )
        ast.copy_location(node, n)
        fi = FunctionInfo(node, self.fr.func.module, parent=self.fr.func)
        k = self.new_id()
        self.closures[k] = (fi, self.fr)
        return T("closure", k)

    def ex_Starred(self, n):
        return T("star", self.eval(n.value))

    def ex_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v, n)
        return v

    def ex_Yield(self, n):
        v = self.eval(n.value) if n.value is not None else NONE
        self.ev("yield", n, value=v)
        return T("sent", self.new_id())

    def ex_YieldFrom(self, n):
        v = self.eval(n.value)
        self.ev("yield", n, value=v)
        return T("sent", self.new_id())

    def ex_Await(self, n):
        return self.eval(n.value)

    # -------------------------------------------------------------------- calls
    def ex_Call(self, n):
        # super().m(...)
        f = n.func
        callee = None
        target = None
        recv = None
        recv_cls = None
        if (
            isinstance(f, ast.Attribute)
            and isinstance(f.value, ast.Call)
            and isinstance(f.value.func, ast.Name)
            and f.value.func.id == "super"
        ):
            fr = self.fr
            while fr is not None and fr.cls is None:
                fr = fr.parent
            me = None
            if fr is not None and fr.func.params:
                me = fr.env.get(fr.func.params[0])
            if me is not None and fr is not None:
                recv = me
                mycls = self.type_of(me)
                if me.kind == "class":
                    mycls = self.p._class_index.get(me.args[0])
                if isinstance(mycls, ClassInfo):
                    target = self.p.method(mycls, f.attr, after=fr.cls)
                    recv_cls = mycls
                callee = T("attr", T("super", fr.cls.qual, me), f.attr)
            else:
                callee = T("attr", T("super", "?", NONE), f.attr)
        elif isinstance(f, ast.Attribute):
            b = self.eval(f.value)
            if b.kind in ("mod", "ext"):
                callee = self.getattr(b, f.attr, f)
            elif b.kind == "class":
                callee = self.getattr(b, f.attr, f)
                c = self.p._class_index.get(b.args[0])
                if callee.kind == "func" and c is not None:
                    m = self.p.method(c, f.attr)
                    if m is not None and m.is_classmethod:
                        recv, recv_cls, target = b, c, m
                        callee = attr(b, f.attr)
            else:
                hv = self.heap.get((b, f.attr))
                if hv is not None and hv.kind in ("closure", "func", "class"):
                    callee = hv
                elif hv is not None and hv.kind in ("attr", "phi"):
                    callee = hv
                    if hv.kind == "attr":
                        recv = hv.args[0]
                        ty = self.type_of(recv)
                        if isinstance(ty, ClassInfo):
                            recv_cls = ty
                            target = self.p.method(ty, hv.args[1])
                else:
                    recv = b
                    callee = attr(b, f.attr)
                    ty = self.type_of(b)
                    if isinstance(ty, ClassInfo):
                        recv_cls = ty
                        target = self.p.method(ty, f.attr)
        else:
            callee = self.eval(f)
            if callee.kind == "attr":
                recv = callee.args[0]
                ty = self.type_of(recv)
                if isinstance(ty, ClassInfo):
                    recv_cls = ty
                    target = self.p.method(ty, callee.args[1])
        pos, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                if v.kind == "tuple":
                    pos += list(v.args[0])
                elif v.kind == "new" and v.args[0] != "dict" and self._flat_items(v) is not None:
                    pos += self._flat_items(v)
                else:
                    pos.append(T("star", v))
            else:
                pos.append(self.eval(a))
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                fk = self._flat_kv(v)
                if fk is not None:
                    kw.update(fk)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = self.eval(k.value)
        return self.do_call(n, callee, recv, target, recv_cls, pos, kw)

    def _flat_items(self, v):
        es = self.simple_entries(v)
        if es is None:
            return None
        b = self.alloc_birth[v.args[1]]
        out = []
        for e in es:
            if e.kind not in ("item", "append") or e.guards[b[0] :] or len(e.loops) != b[1]:
                return None
            out.append(e.items[0])
        return out

    def _flat_kv(self, v):
        if v.kind != "new" or v.args[0] != "dict":
            return None
        es = self.simple_entries(v)
        if es is None:
            return None
        b = self.alloc_birth[v.args[1]]
        out = {}
        for e in es:
            if e.kind != "kv" or e.guards[b[0] :] or len(e.loops) != b[1]:
                return None
            if e.items[0].kind != "const" or not isinstance(e.items[0].args[0], str):
                return None
            out[e.items[0].args[0]] = e.items[1]
        return out

    def do_call(self, n, callee, recv, target, recv_cls, pos, kw):
        p = self.p
        # partial application and closures
        if callee.kind == "closure":
            fi, fr = self.closures[callee.args[0]]
            if self.stack.count(fi) == 0 and len(self.stack) < self.max_depth and not fi.is_generator:
                bound = self.bind(fi, pos, kw, False)
                if bound is not None:
                    self.ev(
                        "call",
                        n,
                        term=T("call", T("func", fi.qual), tuple(pos), tuple(sorted(kw.items()))),
                        target=fi,
                        inlined=True,
                    )
                    return self.inline(fi, bound, n, None, parent=fr)
            return self._opaque(n, callee, None, None, pos, kw)
        if callee.kind == "phi" and callee.args[1].kind in ("closure", "func", "attr", "class") and callee.args[2].kind in ("closure", "func", "attr", "class"):
            c = callee.args[0]
            n0 = len(self.guards)
            outs = []
            for alt, polarity in ((callee.args[1], True), (callee.args[2], False)):
                self.guards.extend(split_guard(c, polarity))
                r2, t2, c2 = None, None, None
                if alt.kind == "attr":
                    r2 = alt.args[0]
                    ty = self.type_of(r2)
                    if isinstance(ty, ClassInfo):
                        c2, t2 = ty, p.method(ty, alt.args[1])
                outs.append(self.do_call(n, alt, r2, t2, c2, pos, kw))
                del self.guards[n0:]
            return mk_phi(c, outs[0], outs[1])
        if callee.kind == "func":
            try:
                target = p.func(callee.args[0])
            except AnalysisBroken:
                target = None
            if target is not None and target.qual != callee.args[0]:
                pass
        if callee.kind == "builtin":
            r = self.builtin(n, callee.args[0], pos, kw)
            if r is not None:
                return r
        if callee.kind == "ext":
            r = self.ext_call(n, callee.args[0], pos, kw)
            if r is not None:
                return r
        if callee.kind == "class":
            c = p._class_index.get(callee.args[0])
            if c is not None:
                return self.construct(n, c, pos, kw)
        if callee.kind == "attr" and target is None:
            r = self.method_call(n, callee, recv, pos, kw)
            if r is not None:
                return r
        if target is not None:
            is_method = target.cls is not None and not target.is_static
            unbound = callee.kind == "func" and is_method
            if is_method and not unbound:
                args = [recv] + pos
            else:
                args = pos
            bound = self.bind(target, args, kw, True)
            if bound is not None:
                if self.want_inline(target, recv, recv_cls):
                    self.ev(
                        "call",
                        n,
                        term=self.call_term(callee, target, bound, is_method and not unbound),
                        target=target,
                        inlined=True,
                        base=recv,
                    )
                    return self.inline(target, bound, n, recv_cls)
                t = self.call_term(callee, target, bound, is_method and not unbound)
                e = self.ev("call", n, term=t, target=target, inlined=False, base=recv)
                self.after_opaque(target, bound)
                return t
        return self._opaque(n, callee, target, recv, pos, kw)

    def _opaque(self, n, callee, target, recv, pos, kw):
        t = T("call", callee, tuple(pos), tuple(sorted(kw.items())))
        self.ev("call", n, term=t, target=target, inlined=False, base=recv)
        nm = call_name(t)
        if callee.kind not in ("ext", "builtin"):
            for a in list(pos) + list(kw.values()):
                if a.kind == "new":
                    self.add_entry(a, "opaque", t)
            if callee.kind == "attr":
                self.kill(modset(self.p, nm))
        return t

    def after_opaque(self, target, bound):
        for a in bound.values():
            if isinstance(a, Term) and a.kind == "new":
                self.add_entry(a, "opaque", T("func", target.qual))
        self.kill(modset(self.p, target.name))

    def kill(self, attrs):
        for k in list(self.heap):
            if k[1] in attrs and self.heap[k].kind != "new":
                self.heap[k] = T("hv", k[0], k[1], self.new_id())

    def call_term(self, callee, target, bound, is_method):
        params = target.params
        kws = []
        defaults = target.defaults()
        for k, v in bound.items():
            if is_method and params and k == params[0]:
                continue
            if not isinstance(v, Term):
                continue
            if k in defaults:
                d = defaults[k]
                if isinstance(d, ast.Constant) and v.kind == "const" and is_const(v, d.value):
                    continue
            kws.append((k, v))
        return T("call", callee, (), tuple(sorted(kws, key=lambda x: x[0])))

    def want_inline(self, f, recv, recv_cls):
        if f.qual in self.opaque or f.name in self.opaque:
            return False
        if f.is_abstract or f.is_generator or f.is_contextmanager:
            return False
        if f in self.stack or len(self.stack) >= self.max_depth:
            return False
        if recv is not None and recv.kind not in ("self", "inst", "class") and recv_cls is not None:
            # virtual dispatch on a non-self receiver
            for s in self.p.subclasses(recv_cls):
                if f.name in s.methods:
                    return False
        if f.qual in self.inline_set or f.name in self.inline_set:
            return True
        if self.known is not None and f.qual not in self.known:
            return True
        if self.inline_public:
            return True
        return f.name.startswith("_") and not f.name.startswith("__")

    def bind(self, f, pos, kw, is_project):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        pos = list(pos)
        i = 0
        for j, v in enumerate(pos):
            if v.kind == "star":
                rest = names[i:]
                if a.vararg and not rest:
                    break
                for k, nm in enumerate(rest):
                    if nm not in kw:
                        out[nm] = T("sub", v.args[0], const(k))
                i = len(names)
                break
            if i < len(names):
                out[names[i]] = v
                i += 1
            elif a.vararg:
                break
            else:
                return None
        if a.vararg:
            extra = pos[len(names) :]
            if len(extra) == 1 and extra[0].kind == "star":
                out[a.vararg.arg] = extra[0].args[0]
            else:
                out[a.vararg.arg] = T("tuple", tuple(extra))
        extra_kw = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                out[k] = v
            elif k == "**":
                if a.kwarg and not extra_kw:
                    out[a.kwarg.arg] = v
            else:
                extra_kw[k] = v
        if extra_kw:
            if not a.kwarg:
                return None
            d = self.alloc("dict")
            for k, v in extra_kw.items():
                self.add_entry(d, "kv", const(k), v)
            if "**" in kw:
                self.add_entry(d, "extend", kw["**"])
            out[a.kwarg.arg] = d
        elif a.kwarg and a.kwarg.arg not in out:
            out[a.kwarg.arg] = self.alloc("dict")
        return out

    def inline(self, f, bound, node, cls, parent=None):
        env = dict(bound)
        # defaults
        defaults = f.defaults()
        missing = []
        for nm in f.params + f.kwonly:
            if nm not in env:
                missing.append(nm)
        fr = Frame(f, f.cls, env, parent=parent)
        fr.guard_base = len(self.guards)
        fr.loop_base = len(self.loops)
        pmod = Frame(f, f.cls, {})
        for nm in missing:
            if nm in defaults:
                self.frames.append(pmod)
                env[nm] = self.eval(defaults[nm])
                self.frames.pop()
            else:
                env[nm] = T("missing", f.qual, nm)
        for nm, x in f.param_nodes().items():
            ty = self.p.ann_type(f.module, x.annotation)
            v = env.get(nm)
            if ty is not None and isinstance(v, Term) and v.kind not in ("const", "self") and self.type_of(v) is None:
                self.typehints[v] = ty
        self.frames.append(fr)
        self.stack.append(f)
        pushed = self._push_decorator_ctx(f)
        flow = self.exec_block(f.node.body)
        self._pop_ctx(pushed)
        self.stack.pop()
        self.frames.pop()
        for e in reversed(self.events):
            if e.kind == "call" and e.node is node and e.inlined:
                e.end = len(self.events)
                break
        if flow.dead == "raise" and not fr.returns:
            self.call_dead = True
            return UNDEF
        if not flow.dead:
            fr.returns.append((tuple(r[:2] for r in flow.residual), NONE, None))
        for r in flow.residual:
            if r[2] == "raise":
                self.stmt_residual.append(r)
                self.guards.append((r[0], r[1]))
        if flow.dead == "raise" and all(rt[0] and not rt[2] for rt in fr.returns):
            # falling off the end raises: the caller continues only if one of
            # the returns was taken
            alts = []
            for rel, _, _ in fr.returns:
                lits = tuple(g if p else mk_not(g) for g, p in rel)
                alts.append(lits[0] if len(lits) == 1 else T("and", lits))
            cond = alts[0] if len(alts) == 1 else T("or", tuple(alts))
            for g, p in split_guard(cond, True):
                self.stmt_residual.append((g, p, "raise"))
                self.guards.append((g, p))
        v = self.merge_returns(fr.returns)
        ty = self.p.ann_type(f.module, getattr(f.node, "returns", None))
        if ty is not None and v not in self.typehints and v.kind not in ("const",):
            if self.type_of(v) is None:
                self.typehints[v] = ty
        return v

    def merge_returns(self, rets):
        rets = [
            (tuple(g) + (((T("inloop", tuple(l[0] for l in lp)), True),) if lp else ()), v)
            for g, v, lp in rets
        ]
        return self._merge(rets)

    def _merge(self, rets):
        if not rets:
            return NONE
        if len(rets) == 1:
            return rets[0][1]
        vals = {v for _, v in rets}
        if len(vals) == 1:
            return rets[0][1]
        if not rets[0][0]:
            return rets[0][1]
        g = rets[0][0][0][0]
        t, f, ok = [], [], True
        for gs, v in rets:
            if gs and gs[0][0] is g:
                (t if gs[0][1] else f).append((gs[1:], v))
            else:
                # look for g anywhere in the prefix chain
                hit = [q for x, q in gs if x is g]
                if hit:
                    rest = tuple(x for x in gs if x[0] is not g)
                    (t if hit[0] else f).append((rest, v))
                else:
                    ok = False
                    break
        if ok and t and f:
            return mk_phi(g, self._merge(t), self._merge(f))
        gs, v = rets[0]
        cond = T("and", tuple(x if q else mk_not(x) for x, q in gs)) if len(gs) > 1 else (
            gs[0][0] if gs[0][1] else mk_not(gs[0][0])
        )
        return mk_phi(cond, v, self._merge(rets[1:]))

    def construct(self, n, c, pos, kw):
        init = self.p.method(c, "__init__")
        k = self.new_id()
        t = T("inst", c.qual, k)
        bound = {}
        if init is not None:
            b = self.bind(init, [t] + pos, kw, True)
            if b is None:
                bound = {f"#{i}": v for i, v in enumerate(pos)}
                bound.update(kw)
            else:
                bound = {q: v for q, v in b.items() if q != init.params[0]}
        else:
            bound = {f"#{i}": v for i, v in enumerate(pos)}
            bound.update(kw)
        self.insts[k] = bound
        for a in bound.values():
            if isinstance(a, Term) and a.kind == "new":
                self.add_entry(a, "escape", T("class", c.qual))
        self.ev(
            "call",
            n,
            term=T("call", T("class", c.qual), (), tuple(sorted((q, v) for q, v in bound.items() if isinstance(v, Term)))),
            target=init,
            inlined=False,
            value=t,
            base=t,
        )
        return t

    def builtin(self, n, name, pos, kw):
        if name == "isinstance" and len(pos) == 2:
            self.ev("call", n, term=T("call", T("builtin", name), tuple(pos), ()))
            return T("call", T("builtin", name), tuple(pos), ())
        if name == "getattr" and len(pos) >= 2 and pos[1].kind == "const":
            if len(pos) == 2:
                return self.getattr(pos[0], pos[1].args[0], n)
        if name == "setattr" and len(pos) == 3:
            if pos[1].kind == "const":
                self.ev("setattr", n, base=pos[0], name=pos[1].args[0], value=pos[2])
                self.heap[(pos[0], pos[1].args[0])] = pos[2]
            else:
                self.ev("setattr", n, base=pos[0], name=None, index=pos[1], value=pos[2])
                self.heap[(pos[0], ("dyn", pos[1]))] = pos[2]
            return NONE
        if name == "getattr" and len(pos) == 2:
            k = (pos[0], ("dyn", pos[1]))
            if k in self.heap:
                return self.heap[k]
        if name in ("list", "tuple", "set", "dict", "frozenset", "sorted", "iter"):
            t = T("call", T("builtin", name), tuple(pos), tuple(sorted(kw.items())))
            if not pos and not kw:
                if name == "tuple":
                    return T("tuple", ())
                return self.alloc(name)
            if name == "dict" and not pos:
                d = self.alloc("dict")
                for k, v in kw.items():
                    self.add_entry(d, "kv", const(k), v)
                return d
            if name in ("list", "set") and len(pos) == 1 and not kw:
                a = self.alloc(name)
                self.add_entry(a, "extend", pos[0])
                return a
            if name == "tuple" and len(pos) == 1 and pos[0].kind == "new":
                items = self._flat_items(pos[0]) if pos[0].args[0] != "dict" else None
                if items is not None:
                    return T("tuple", tuple(items))
            if name == "tuple" and len(pos) == 1 and pos[0].kind == "tuple":
                return pos[0]
            return t
        if name == "len" and len(pos) == 1 and pos[0].kind == "tuple" and not any(x.kind == "star" for x in pos[0].args[0]):
            return const(len(pos[0].args[0]))
        if name == "next" and len(pos) >= 1 and pos[0].kind == "new":
            es = self.simple_entries(pos[0])
        if name == "next" and len(pos) == 1 and pos[0].kind == "call" and call_name(pos[0]) == "iter":
            return T("first", pos[0].args[1][0])
        t = T("call", T("builtin", name), tuple(pos), tuple(sorted(kw.items())))
        self.ev("call", n, term=t)
        if name in self.fr.env:
            return None
        return t

    def ext_call(self, n, name, pos, kw):
        short = name.split(".")[-1]
        if name in ("typing.cast",) or short == "cast":
            if len(pos) == 2:
                return pos[1]
        if name.startswith("torch."):
            f = name[6:]
            if f in ("matmul", "bmm", "mm") and len(pos) == 2 and not kw:
                return mk_bin("@", pos[0], pos[1])
            if f in METHOD_EQUIV:
                args, k2 = list(pos), dict(kw)
                recv = None
                if args:
                    recv = args.pop(0)
                elif "input" in k2:
                    recv = k2.pop("input")
                if recv is not None and recv.kind != "star":
                    return self.do_call(n, attr(recv, f), recv, None, None, args, k2)
            if f in TORCH_SIGS:
                pos, kw = self._canon_args(TORCH_SIGS[f], pos, kw)
                t = T("call", T("ext", name), tuple(pos), tuple(sorted(kw.items())))
                self.ev("call", n, term=t)
                return self.created(t, f)
        if name in ("collections.OrderedDict", "collections.defaultdict"):
            if name.endswith("OrderedDict") and len(pos) == 1:
                d = self.alloc("dict")
                self.add_entry(d, "extend", pos[0])
                return d
            return self.alloc("dict")
        t = T("call", T("ext", name), tuple(pos), tuple(sorted(kw.items())))
        self.ev("call", n, term=t)
        if name in ("itertools.chain",):
            return t
        return self.created(t, name.split(".")[-1]) if name.startswith("torch.") else t

    def created(self, t, name):
        """the second of two creations that look the same is another object"""
        if name not in CREATED:
            return t
        k = self.made[t] = self.made.get(t, 0) + 1
        return T("fresh", t, k) if k > 1 else t

    def write_through(self, view, new):
        """an in-place change of a view changes what it is a view of"""
        for _ in range(6):
            if view.kind == "fresh":
                return
            if view.kind == "sub" and view.args[1].kind == "tuple" and any(
                    x.kind == "slice" or is_const(x) and x.args[0] is Ellipsis for x in view.args[1].args[0]):
                b = view.args[0]
                nb = T("upd", b, view.args[1], new)
            elif view.kind == "call" and call_name(view) == "diagonal" and view.args[0].kind == "attr":
                b = view.args[0].args[0]
                nb = T("upd", b, T("diag", view.args[1], view.args[2]), new)
            else:
                return
            self.replace(b, nb)
            view, new = b, nb

    def _canon_args(self, sig, pos, kw):
        pos, kw = list(pos), dict(kw)
        if len(pos) <= len(sig) and not any(x.kind == "star" for x in pos):
            for s, v in zip(sig, pos):
                if s in kw:
                    return pos, kw
            for s, v in zip(sig, pos):
                kw[s] = v
            pos = []
        return pos, kw

    def method_call(self, n, callee, recv, pos, kw):
        """Calls on receivers of no project type (tensors, lists, dicts...)."""
        name = callee.args[1]
        if recv is None:
            recv = callee.args[0]
        root = recv
        if root.kind == "new" or (root.kind == "phi" and all(x.kind == "new" for x in root.args[1:])):
            t = T("call", callee, tuple(pos), tuple(sorted(kw.items())))
            if name in ("append", "add") and len(pos) == 1:
                self.ev("mutcall", n, base=root, name=name, value=pos[0], term=t)
                self.add_entry(root, "append", pos[0])
                return NONE
            if name in ("extend", "update") and len(pos) == 1:
                self.ev("mutcall", n, base=root, name=name, value=pos[0], term=t)
                self.add_entry(root, "extend", pos[0])
                return NONE
            if name in ("insert", "pop", "remove", "clear", "sort", "reverse", "setdefault", "popitem", "discard"):
                self.ev("mutcall", n, base=root, name=name, value=pos[0] if pos else NONE, term=t)
                self.add_entry(root, name, *pos)
                return t
            if name == "copy":
                a = self.alloc(root.args[0] if root.kind == "new" else "list")
                self.add_entry(a, "extend", root)
                return a
        if name in ("matmul", "bmm", "mm") and len(pos) == 1 and not kw:
            return mk_bin("@", recv, pos[0])
        if name in ("neg",) and not pos:
            return mk_un("-", recv)
        if name == "logical_not" and not pos:
            return mk_un("~", recv)
        if name == "logical_and" and len(pos) == 1:
            return mk_bin("&", recv, pos[0])
        if name == "logical_or" and len(pos) == 1:
            return mk_bin("|", recv, pos[0])
        if name in ("add", "mul", "sub", "div") and len(pos) == 1 and not kw:
            if not (recv.kind in ("attr", "self", "param") and isinstance(self.type_of(recv), ClassInfo)):
                if not isinstance(self.type_of(recv), tuple):
                    return mk_bin({"add": "+", "mul": "*", "sub": "-", "div": "/"}[name], recv, pos[0])
        if name in TORCH_SIGS:
            pos, kw = self._canon_args(TORCH_SIGS[name], pos, kw)
        t = T("call", callee, tuple(pos), tuple(sorted(kw.items())))
        self.ev("call", n, term=t, base=recv)
        for a in list(pos) + list(kw.values()):
            if a.kind == "new":
                if recv.kind not in ("new",) and name not in ("join", "format", "append", "extend", "view", "reshape", "expand", "repeat", "permute", "cat", "stack"):
                    self.add_entry(a, "opaque", t)
        if name.endswith("_") and not name.startswith("_") and not name.endswith("__"):
            new = T("inplace", name, recv, tuple(pos), tuple(sorted(kw.items())))
            self.replace(recv, new)
            self.write_through(recv, new)
            return new
        # container mutation on a non-local container
        if name in ("append", "extend", "update", "pop", "remove", "clear", "insert", "add", "setdefault", "discard"):
            self.events[-1].name = name
        self.kill(modset(self.p, name))
        return self.created(t, name)

    # -------------------------------------------------------------------- types
    def type_of(self, t, depth=0):
        if not isinstance(t, Term) or depth > 12:
            return None
        if t in self.typehints:
            return self.typehints[t]
        k = t.kind
        if k == "self":
            return self.p._class_index.get(t.args[0])
        if k == "param":
            return self.ptypes.get(t)
        if k == "inst":
            return self.p._class_index.get(t.args[0])
        if k == "new":
            return ("dict", None, None) if t.args[0] == "dict" else ("list", None)
        if k == "attr":
            bt = self.type_of(t.args[0], depth + 1)
            if isinstance(bt, ClassInfo):
                return self.p.attr_type(bt, t.args[1])
            return None
        if k == "gvar":
            m = self.p.modules.get(t.args[0])
            node = m.vars.get(t.args[1]) if m else None
            if isinstance(node, ast.Call):
                r = self.p.resolve_expr(m, node.func)
                if r is not None and r.kind == "class":
                    return r.value
            return None
        if k == "elem":
            bt = self.type_of(t.args[0], depth + 1)
            if isinstance(bt, tuple):
                if bt[0] == "list":
                    return bt[1]
                if bt[0] == "dict":
                    return bt[1]
            if isinstance(bt, ClassInfo):
                m = self.p.method(bt, "__iter__")
                if m is not None:
                    rt = self.p.ann_type(m.module, m.node.returns)
                    if isinstance(rt, tuple) and rt[0] == "list":
                        return rt[1]
            return None
        if k in ("key", "val"):
            bt = self.type_of(t.args[0], depth + 1)
            if isinstance(bt, tuple) and bt[0] == "dict":
                return bt[1] if k == "key" else bt[2]
            return None
        if k == "sub":
            bt = self.type_of(t.args[0], depth + 1)
            if isinstance(bt, tuple):
                if bt[0] == "list" and t.args[1].kind != "slice":
                    return bt[1]
                if bt[0] == "list":
                    return bt
                if bt[0] == "dict":
                    return bt[2]
                if bt[0] == "tuple" and t.args[1].kind == "const" and isinstance(t.args[1].args[0], int):
                    i = t.args[1].args[0]
                    if -len(bt[1]) <= i < len(bt[1]):
                        return bt[1][i]
            return None
        if k == "phi":
            ts = [self.type_of(x, depth + 1) for x in t.args[1:] if not is_const(x, None)]
            ts = [x for x in ts]
            if ts and all(x is ts[0] or x == ts[0] for x in ts):
                return ts[0]
            return None
        if k == "loopout":
            return self.type_of(t.args[2], depth + 1)
        if k == "call":
            c = t.args[0]
            if c.kind == "func":
                try:
                    f = self.p.func(c.args[0])
                except AnalysisBroken:
                    return None
                return self.p.ann_type(f.module, f.node.returns)
            if c.kind == "attr":
                b = c.args[0]
                bt = self.type_of(b, depth + 1)
                if b.kind == "super":
                    bt = self.type_of(b.args[1], depth + 1)
                if isinstance(bt, ClassInfo):
                    f = self.p.method(bt, c.args[1])
                    if f is not None:
                        return self.p.ann_type(f.module, f.node.returns)
                if isinstance(bt, tuple) and bt[0] == "dict":
                    if c.args[1] == "values":
                        return ("list", bt[2])
                    if c.args[1] in ("get", "pop", "setdefault"):
                        return bt[2]
                    if c.args[1] == "items":
                        return ("list", ("tuple", (bt[1], bt[2])))
            if c.kind == "builtin" and c.args[0] in ("list", "tuple", "sorted") and t.args[1]:
                bt = self.type_of(t.args[1][0], depth + 1)
                if isinstance(bt, tuple) and bt[0] == "dict":
                    return ("list", bt[1])
                return bt
            if c.kind == "builtin" and c.args[0] == "next" and t.args[1]:
                bt = self.type_of(t.args[1][0], depth + 1)
                if isinstance(bt, tuple) and bt[0] == "list":
                    return bt[1]
        return None

    # ----------------------------------------------------------- canonical form
    def canon(self, t, depth=0):
        """Expand allocations so that equal values compare equal."""
        memo = {}

        def f(x):
            if x.kind == "new":
                n = x.args[1]
                key = ("new", n)
                if key in memo:
                    return memo[key]
                memo[key] = T("rec", 0)
                r = self._canon_alloc(x)
                memo[key] = r
                return r
            if x.kind == "fresh":
                return x.args[0]
            if x.kind == "inst":
                b = self.insts.get(x.args[1], {})
                key = ("inst", x.args[1])
                if key in memo:
                    return memo[key]
                memo[key] = T("rec", 0)
                r = T(
                    "make",
                    x.args[0],
                    tuple(sorted((q, go(v)) for q, v in b.items() if isinstance(v, Term))),
                )
                memo[key] = r
                return r
            return x

        m2 = {}

        def go(x):
            return rebuild(x, f, m2)

        self._go = go
        return go(t)

    def _canon_alloc(self, x):
        kind, n = x.args
        es = self.allocs[n]
        bg, bl = self.alloc_birth[n]
        go = self._go
        out = []
        for e in es:
            if e.kind in ("opaque", "escape"):
                continue
            gs = tuple((go(g), p) for g, p in e.guards[bg:])
            lps = tuple(go(l[1]) if isinstance(l[1], Term) else l[1] for l in e.loops[bl:])
            items = tuple(go(i) for i in e.items)
            if e.kind == "item" or e.kind == "append":
                ek = "item"
            else:
                ek = e.kind
            if ek == "extend" and not gs and not lps and items[0].kind == "coll" and items[0].args[0] != "dict":
                out += list(items[0].args[1])
                continue
            if ek == "extend" and items[0].kind == "tuple":
                out += [T("entry", "item", (i,), _g(gs), lps) for i in items[0].args[0]]
                continue
            out.append(T("entry", ek, items, _g(gs), lps))
        return T("coll", kind, tuple(out))


def _g(gs):
    return tuple(g if p else mk_not(g) for g, p in gs)


def _has_jump(body):
    """continue of this loop"""
    for st in body:
        if isinstance(st, ast.Continue):
            return True
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for fld in ("body", "orelse", "finalbody"):
            if _has_jump(getattr(st, fld, None) or []):
                return True
        for h in getattr(st, "handlers", []):
            if _has_jump(h.body):
                return True
    return False


def _has_break(stmts):
    for s in stmts:
        todo = [s]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Break):
                return True
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)) and n is not s:
                continue
            if isinstance(n, (ast.For, ast.While)) and n is s:
                continue
            todo.extend(ast.iter_child_nodes(n))
    return False


CREATED = {"zeros", "ones", "empty", "full", "eye", "zeros_like", "ones_like", "empty_like", "full_like", "new_zeros", "new_ones", "new_empty",
           "new_full", "clone"}


def strip(t):
    while t.kind in ("upd", "inplace"):
        t = t.args[0] if t.kind == "upd" else t.args[1]
    return t


def modset(project, name):
    """Attribute names that a call to something called `name` may assign
    (by-name transitive closure over the project's functions)."""
    ms = getattr(project, "_modsets", None)
    if ms is None:
        ms = project._modsets = _build_modsets(project)
    return ms.get(name, frozenset())


def _build_modsets(project):
    direct, calls = {}, {}
    for f in project.all_functions():
        d = direct.setdefault(f.name, set())
        c = calls.setdefault(f.name, set())
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                d.add(n.attr)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    c.add(n.func.attr)
                elif isinstance(n.func, ast.Name):
                    c.add(n.func.id)
    changed = True
    while changed:
        changed = False
        for k in direct:
            new = set(direct[k])
            for c in calls[k]:
                if c in direct:
                    new |= direct[c]
            if len(new) > len(direct[k]):
                direct[k] = new
                changed = True
    return {k: frozenset(v) for k, v in direct.items()}
