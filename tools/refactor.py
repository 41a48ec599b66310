#!/usr/bin/env python3
"""tools/refactor.py [TRANSFORM,...] [CHECK ...]: applies behaviour-preserving rewrites to every function of the analysed packages (in
memory) and reports checks that raise an alarm, break or decide less (development aid). --write DIR writes the rewritten tree instead."""
import ast
import builtins
import copy
import importlib
import os
import sys
from multiprocessing import Pool

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from run import load_known  # noqa: E402
from sa.project import Project  # noqa: E402
from sa.rules import Analysis, Report  # noqa: E402

ROOT = os.environ.get("REPO", "/repo")
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def own(node):
    """nodes of a function without those of nested functions and classes"""
    stack = list(ast.iter_child_nodes(node)) if isinstance(node, (*FN, ast.Lambda, ast.ClassDef)) else [node]
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (*FN, ast.ClassDef, ast.Lambda)):
            stack += list(ast.iter_child_nodes(n))


def params(f):
    a = f.args
    return [x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]] + [x.arg for x in (a.vararg, a.kwarg) if x]


def names(nodes, ctx):
    return {n.id for m in nodes for n in ast.walk(m) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def local_names(f):
    out = set()
    for n in own(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(al.asname or al.name).split(".")[0] for al in n.names}
    for n in own(f):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out -= set(n.names)
    return out - set(params(f))


def has(f, *kinds):
    return any(isinstance(n, kinds) for n in ast.walk(f) if n is not f)


def blocks(node):
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(node, fld, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            yield fld, b
    for h in getattr(node, "handlers", []):
        yield "body", h.body


class Functions(ast.NodeTransformer):
    """applies self.fn to every function, innermost first"""
    def __init__(self):
        self.cls, self.k = None, 0

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n
        self.new = []
        self.generic_visit(n)
        n.body += self.pending(n)
        self.cls = old
        return n

    def pending(self, n):
        return []

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        return self.fn(n) or n


class Rename(Functions):
    """locals get other names"""
    def fn(self, f):
        if has(f, *FN, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef):
            return
        ren = local_names(f) - {"_"} - {(al.asname or al.name).split('.')[0] for n in own(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for al in n.names}
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "eval") for n in ast.walk(f)):
            return
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in ren:
                n.id += "_r"
            elif isinstance(n, ast.ExceptHandler) and n.name in ren:
                n.name += "_r"


class Temp(Functions):
    """returned values and arguments of calls that are calls go through temporaries"""
    def fn(self, f):
        self.go(f)

    def go(self, node):
        for fld, b in blocks(node):
            out = []
            for st in b:
                if not isinstance(st, (*FN, ast.ClassDef)):
                    self.go(st)
                if isinstance(st, ast.Return) and st.value is not None and not isinstance(st.value, (ast.Name, ast.Constant)):
                    self.k += 1
                    nm = f"result_{self.k}"
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], st.value))
                    st.value = ast.Name(nm, ast.Load())
                elif isinstance(st, (ast.Assign, ast.Expr)) and isinstance(st.value, ast.Call) and st.value.args \
                        and isinstance(st.value.args[0], ast.Call) and not isinstance(st.value.func, ast.Call) \
                        and self.plain(st.value.func) and not any(isinstance(x, ast.Starred) for x in st.value.args):
                    self.k += 1
                    nm = f"value_{self.k}"
                    out.append(ast.Assign([ast.Name(nm, ast.Store())], st.value.args[0]))
                    st.value.args[0] = ast.Name(nm, ast.Load())
                out.append(st)
            b[:] = out

    def plain(self, f):
        while isinstance(f, ast.Attribute):
            f = f.value
        return isinstance(f, ast.Name)


class Flip(Functions):
    """if c: A else: B  ->  if not c: B else: A (also conditional expressions)"""
    def fn(self, f):
        for n in own(f):
            if isinstance(n, (ast.If, ast.IfExp)) and n.orelse and not (isinstance(n.orelse, list) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                n.body, n.orelse = n.orelse, n.body
                n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)


class Nest(Functions):
    """if c: return/raise ...; rest  ->  if c: ... else: rest"""
    def fn(self, f):
        self.go(f)

    def go(self, node):
        for fld, b in blocks(node):
            for st in list(b):
                if not isinstance(st, (*FN, ast.ClassDef)):
                    self.go(st)
            for i, st in enumerate(b):
                if isinstance(st, ast.If) and not st.orelse and isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) and b[i + 1:]:
                    st.orelse = b[i + 1:]
                    del b[i + 1:]
                    break


class IfExpStmt(Functions):
    """x = a if c else b  ->  if c: x = a else: x = b (also returns)"""
    def fn(self, f):
        self.go(f)

    def go(self, node):
        for fld, b in blocks(node):
            for i, st in enumerate(b):
                if isinstance(st, (*FN, ast.ClassDef)):
                    continue
                self.go(st)
                if isinstance(st, (ast.Assign, ast.Return)) and isinstance(st.value, ast.IfExp) and (isinstance(st, ast.Return) or isinstance(st.targets[0], (ast.Name, ast.Attribute))):
                    x, y = copy.deepcopy(st), copy.deepcopy(st)
                    x.value, y.value = st.value.body, st.value.orelse
                    b[i] = ast.If(st.value.test, [x], [y])


class Comp(Functions):
    """x = [e for v in it if c] -> loop with append (single generator, own statement, no clash)"""
    def fn(self, f):
        if has(f, ast.Global, ast.Nonlocal):
            return
        self.f, self.used = f, names([f], (ast.Load, ast.Store)) | set(params(f))
        self.go(f)

    def go(self, node):
        for fld, b in blocks(node):
            out = []
            for st in b:
                if not isinstance(st, (*FN, ast.ClassDef)):
                    self.go(st)
                v = getattr(st, "value", None)
                if isinstance(st, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1 \
                        and not v.generators[0].is_async and (isinstance(st, ast.Return) or isinstance(st.targets[0], (ast.Name, ast.Attribute))) \
                        and not has(v, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp):
                    g = v.generators[0]
                    self.k += 1
                    ren = {n: f"{n}_c{self.k}" for n in names([g.target], ast.Store)}
                    first = copy.deepcopy(g.iter)
                    for part in [v.elt, g.target, *g.ifs]:
                        for n in ast.walk(part):
                            if isinstance(n, ast.Name) and n.id in ren:
                                n.id = ren[n.id]
                    acc = f"items_{self.k}"
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load()), [v.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    out.append(ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())))
                    out.append(ast.For(g.target, first, body, []))
                    st.value = ast.Name(acc, ast.Load())
                out.append(st)
            b[:] = out


class Enumerate(Functions):
    """for i, x in enumerate(xs): -> counter incremented at the end (no continue)"""
    def fn(self, f):
        self.go(f)

    def go(self, node):
        for fld, b in blocks(node):
            out = []
            for st in b:
                if not isinstance(st, (*FN, ast.ClassDef)):
                    self.go(st)
                if isinstance(st, ast.For) and isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "enumerate" \
                        and len(st.iter.args) == 1 and not st.iter.keywords and isinstance(st.target, ast.Tuple) and isinstance(st.target.elts[0], ast.Name) \
                        and not any(isinstance(n, (ast.Continue, ast.Yield)) for n in ast.walk(st)) and st.target.elts[0].id != "_" and not st.orelse:
                    i = st.target.elts[0].id
                    self.k += 1
                    c = f"count_{self.k}"
                    out.append(ast.Assign([ast.Name(c, ast.Store())], ast.Constant(0)))
                    st.body.insert(0, ast.Assign([ast.Name(i, ast.Store())], ast.Name(c, ast.Load())))
                    st.body.append(ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1)))
                    st.target, st.iter = st.target.elts[1], st.iter.args[0]
                out.append(st)
            b[:] = out


class Extract(Functions):
    """the body of every loop and branch (without jumps) becomes a private function of the module or method of the class"""
    MIN = 2

    def __init__(self):
        super().__init__()
        self.made = []
        self.depth = 0

    def visit_Module(self, n):
        self.generic_visit(n)
        n.body += self.made
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        outer = self.depth == 1
        self.generic_visit(n)
        self.depth -= 1
        if outer:
            self.fn(n)
        return n

    def fn(self, f):
        if has(f, *FN, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef) or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") for n in ast.walk(f)):
            return
        if any(n.id.startswith("__") for n in ast.walk(f) if isinstance(n, ast.Name)) or any(n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(f) if isinstance(n, ast.Attribute)):
            return
        self.f = f
        self.locals = local_names(f) | set(params(f))
        self.go(f, top=True)

    def go(self, node, top=False):
        for fld, b in blocks(node):
            for st in b:
                if not isinstance(st, (*FN, ast.ClassDef)):
                    self.go(st)
            if not top and isinstance(node, (ast.For, ast.If, ast.With)) and len(b) >= self.MIN:
                new = self.extract(b)
                if new is not None:
                    b[:] = new

    def extract(self, b):
        if any(isinstance(n, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Delete, ast.NamedExpr, ast.Try, ast.Import, ast.ImportFrom, ast.AnnAssign)) for st in b for n in ast.walk(st)):
            return None
        stores = {n.id for st in b for n in own(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} & self.locals
        # names certainly assigned by the block
        sure = set()
        for st in b:
            if isinstance(st, ast.Assign):
                sure |= names(st.targets, ast.Store)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                sure.add(st.target.id)
        if stores - sure:
            return None
        loads = (names(b, ast.Load) | {st.target.id for st in b for st in ast.walk(st) if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name)}) & self.locals
        # arguments: read before written
        args, seen = [], set()
        for st in b:
            used = (names([st], ast.Load) | ({st.target.id} if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) else set())) & self.locals
            for n in sorted(used - seen):
                if n not in args:
                    args.append(n)
            if isinstance(st, ast.Assign):
                seen |= names(st.targets, ast.Store)
        outs = sorted(stores)
        self.k += 1
        nm = f"_part_{self.f.name.strip('_')}_{self.k}"
        body = copy.deepcopy(b)
        if outs:
            val = ast.Name(outs[0], ast.Load()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load())
            body.append(ast.Return(val))
        meth = self.cls is not None and "self" in params(self.f)[:1]
        ps = [a for a in args if not (meth and a == "self")]
        fn = ast.FunctionDef(name=nm, args=ast.arguments([], [ast.arg(p) for p in (["self"] if meth else []) + ps], None, [], [], None, []), body=body, decorator_list=[], type_params=[])
        if meth:
            self.methods.setdefault(id(self.cls), []).append(fn)
        else:
            self.made.append(fn)
        func = ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()) if meth else ast.Name(nm, ast.Load())
        call = ast.Call(func, [ast.Name(p, ast.Load()) for p in ps], [])
        if not outs:
            return [ast.Expr(call)]
        tgt = ast.Name(outs[0], ast.Store()) if len(outs) == 1 else ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())
        return [ast.Assign([tgt], call)]

    methods = {}

    def pending(self, n):
        return self.methods.pop(id(n), [])


class ExtractHead(Extract):
    """the longest run of simple statements at the start of every function body becomes a helper"""
    def go(self, node, top=False):
        b = node.body
        i = 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        j = i
        while j < len(b) and isinstance(b[j], (ast.Assign, ast.Expr, ast.Assert)):
            j += 1
        if j - i >= 2 and not (self.f.name == "__init__" or any(isinstance(d, ast.Name) and d.id in ("property",) for d in self.f.decorator_list)):
            new = self.extract(b[i:j])
            if new is not None:
                b[i:j] = new


class ExtractExpr(Extract):
    """every returned expression becomes a helper"""
    def go(self, node, top=False):
        for fld, b in blocks(node):
            for i, st in enumerate(b):
                if isinstance(st, (*FN, ast.ClassDef)):
                    continue
                self.go(st)
                if isinstance(st, ast.Return) and isinstance(st.value, (ast.Call, ast.BinOp)) and not has(st.value, ast.Lambda, ast.NamedExpr, ast.Yield):
                    tmp = ast.Assign([ast.Name("out_", ast.Store())], st.value)
                    old = self.locals
                    self.locals = old | {"out_"}
                    new = self.extract([tmp])
                    self.locals = old
                    if new is not None:
                        b[i] = ast.Return(new[0].value)


class Noop(Functions):
    """statements that do nothing at the start of every function and loop"""
    def fn(self, f):
        for n in [*own(f), f]:
            if isinstance(n, (ast.For, ast.While, *FN, ast.If, ast.With)):
                i = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
                n.body.insert(i, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(0)) if not isinstance(n, ast.If) else ast.Pass())


class Swap(Functions):
    """adjacent assignments of plain names from effect-free expressions change places"""
    def fn(self, f):
        self.go(f)

    def go(self, node):
        for fld, b in blocks(node):
            for st in b:
                if not isinstance(st, (*FN, ast.ClassDef)):
                    self.go(st)
            i = 0
            while i + 1 < len(b):
                x, y = b[i], b[i + 1]
                if self.pure(x) and self.pure(y) and not (self.w(x) & (self.w(y) | names([y], ast.Load))) and not (self.w(y) & names([x], ast.Load)):
                    b[i], b[i + 1] = y, x
                    i += 2
                else:
                    i += 1

    def pure(self, st):
        return isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets) and not has(st, ast.Call, ast.Await, ast.Yield, ast.NamedExpr)

    def w(self, st):
        return names(st.targets, ast.Store)


class SetSwap(Swap):
    """adjacent attribute stores self.a = <name/constant> change places"""
    def pure(self, st):
        return isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Attribute) and isinstance(st.targets[0].value, ast.Name) \
            and isinstance(st.value, (ast.Name, ast.Constant, ast.List, ast.Dict)) and not has(st.value, ast.Call)

    def w(self, st):
        return {st.targets[0].attr}


class WithNest(Functions):
    """with a, b: -> nested"""
    def fn(self, f):
        for n in list(own(f)):
            if isinstance(n, ast.With) and len(n.items) > 1:
                n.body = [ast.With(n.items[1:], n.body)]
                n.items = n.items[:1]


class Compare(Functions):
    """a < b -> b > a, not (x is None) style rewrites of comparisons; `x is not None` -> `not (x is None)`"""
    def fn(self, f):
        class C(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1:
                    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]))
                    if m and not has(n, ast.Call):
                        return ast.Compare(n.comparators[0], [m()], [n.left])
                    if isinstance(n.ops[0], ast.IsNot):
                        return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
                return n
        C().visit(f)


class Items(Functions):
    """for k, v in d.items(): -> for k in d: v = d[k] (dictionaries held in names and attributes)"""
    def fn(self, f):
        for n in own(f):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and not n.iter.args \
                    and isinstance(n.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in n.target.elts):
                d = n.iter.func.value
                if not isinstance(d, (ast.Name, ast.Attribute)):
                    continue
                k, v = n.target.elts
                if k.id == "_" or k.id == v.id:
                    continue
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(d), ast.Name(k.id, ast.Load()), ast.Load())))
                n.iter, n.target = d, k


class DeMorgan(Functions):
    """a and b -> not (not a or not b) in tests"""
    def fn(self, f):
        for n in own(f):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)) and isinstance(n.test, ast.BoolOp):
                op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
                n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))


class SplitAnd(Functions):
    """if a and b: X (no else) -> if a: if b: X"""
    def fn(self, f):
        for n in list(own(f)):
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                vs = n.test.values
                n.body = [ast.If(vs[-1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), n.body, [])]
                n.test = vs[0]


class SelfLocal(Functions):
    """attributes of self read more than once by a method without stores or calls go through a local"""
    def fn(self, f):
        if params(f)[:1] != ["self"] or has(f, *FN, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.Try, ast.Yield):
            return
        if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(f)):
            return
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" for n in ast.walk(f)) or any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" for n in ast.walk(f)):
            return
        first = f.body[1:] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else f.body
        if not first or not isinstance(first[0], (ast.Assign, ast.Return, ast.Expr)):
            return
        reads = [n.attr for n in ast.walk(first[0]) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"]
        if not reads:
            return
        at = reads[0]
        nm = f"own_{at.strip('_')}"

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                return ast.Name(nm, ast.Load()) if n.attr == at and isinstance(n.value, ast.Name) and n.value.id == "self" else n
        for st in f.body:
            R().visit(st)
        k = len(f.body) - len(first)
        f.body.insert(k, ast.Assign([ast.Name(nm, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), at, ast.Load())))


class Kwargs(Functions):
    """positional arguments of calls to self-methods and module functions of the same file become keywords"""
    def visit_Module(self, n):
        self.sigs = {}
        for x in n.body:
            if isinstance(x, FN) and not x.args.vararg and not x.args.posonlyargs and not any("script" in ast.unparse(d) for d in x.decorator_list):
                self.sigs[x.name] = [a.arg for a in x.args.args]
        self.generic_visit(n)
        return n

    def fn(self, f):
        loc = local_names(f) | set(params(f))
        for n in own(f):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in self.sigs and n.func.id not in loc \
                    and not any(isinstance(x, ast.Starred) for x in n.args) and len(n.args) > 1:
                s = self.sigs[n.func.id]
                if len(n.args) <= len(s):
                    n.keywords = [ast.keyword(p, x) for p, x in zip(s[1:], n.args[1:])] + n.keywords
                    n.args = n.args[:1]


ALL = {c.__name__: c for c in (Noop, Rename, Temp, Flip, Nest, IfExpStmt, Comp, Enumerate, Extract, ExtractHead, ExtractExpr, Swap, SetSwap, WithNest, Compare, Items, DeMorgan, SplitAnd, SelfLocal, Kwargs)}
PKGS = ("theseus/", "torchlie/torchlie/", "torchkin/torchkin/")


def overlay(name, only=None):
    out = {}
    p = Project(ROOT)
    for m in p.modules.values():
        if not m.relpath.startswith(PKGS) or "/tests/" in m.relpath or (only and not any(o in m.relpath for o in only)):
            continue
        t = copy.deepcopy(m.tree)
        x = ALL[name]()
        t = x.visit(t)
        ast.fix_missing_locations(t)
        src = ast.unparse(t) + "\n# end\n"
        if src != ast.unparse(m.tree) + "\n# end\n":
            compile(src, m.relpath, "exec")
            out[m.relpath] = src
    return out


def one(job):
    name, prop, over = job
    try:
        p = Project(ROOT, overlay=over)
        a = Analysis(p, load_known())
        a.tier = "quick"
        r = Report(prop)
        err = None
        try:
            importlib.import_module("checks." + prop).check(a, r)
        except Exception as e:
            import traceback
            err = f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}"[:500]
        known = ("derivative of the logarithm", "SE3 translation near zero")
        return name, prop, [o for o in r.violations if not any(k in o[1] for k in known)], len(r.undecided), [u for u in r.undecided][:3], err
    except Exception as e:
        return name, prop, [], 0, [], f"{type(e).__name__}: {e}"[:300]


def main():
    args = sys.argv[1:]
    if args[:1] == ["--write"]:
        for rel, src in overlay(args[2], args[3:]).items():
            open(os.path.join(args[1], rel), "w").write(src)
        return
    ts = args[0].split(",") if args and args[0] != "all" else list(ALL)
    props = [x for x in args[1:] if x.startswith("C")] or sorted(f[:-3] for f in os.listdir(os.path.join(os.path.dirname(__file__), "../checks")) if f.startswith("C") and f.endswith(".py"))
    only = [x for x in args[1:] if not x.startswith("C")]
    os.environ["VERIF_JOBS"] = "1"
    jobs = []
    for t in ts:
        o = overlay(t, only)
        print(t, len(o), "files", flush=True)
        jobs += [(t, c, o) for c in props]
    with Pool(8, maxtasksperchild=4) as pool:
        for name, prop, vs, n, und, err in pool.imap_unordered(one, jobs):
            if err:
                print(f"{name} {prop} ERR {err}", flush=True)
            if vs:
                print(f"{name} {prop} {len(vs)} ALARMS", flush=True)
                for v in vs[:8]:
                    print("    ", " | ".join(str(x) for x in v)[:260], flush=True)
            if n:
                print(f"{name} {prop} {n} undecided: {[' / '.join(map(str, u))[:150] for u in und[:2]]}", flush=True)


if __name__ == "__main__":
    main()
