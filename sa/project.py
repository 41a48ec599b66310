"""Program model: parses the library sources of /repo and resolves names.

Everything here works on the syntax trees of the current working tree; nothing
of the analysed code is ever imported or executed.
"""
import ast
import os

PACKAGES = [
    ("theseus", "theseus"),
    ("torchlie", "torchlie/torchlie"),
    ("torchkin", "torchkin/torchkin"),
]


class AnalysisBroken(Exception):
    """An anchor the rule needs has vanished: no verdict is possible."""


class Ref:
    """What a global name denotes."""

    __slots__ = ("kind", "value")

    def __init__(self, kind, value):
        self.kind = kind  # func | class | mod | ext | var
        self.value = value

    def __repr__(self):
        return f"Ref({self.kind},{self.value})"


class FunctionInfo:
    def __init__(self, node, module, cls=None, parent=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        if cls is not None:
            self.qual = f"{module.name}.{cls.name}.{self.name}"
        elif parent is not None:
            self.qual = f"{parent.qual}.<locals>.{self.name}"
        else:
            self.qual = f"{module.name}.{self.name}"
        self.decorators = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.is_static = "staticmethod" in self.decorators
        self.is_classmethod = "classmethod" in self.decorators
        self.is_property = any(
            d == "property" or d.endswith("cached_property") for d in self.decorators
        )
        self.is_setter = any(d.endswith(".setter") for d in self.decorators)
        self.is_abstract = any("abstractmethod" in d for d in self.decorators)
        self.is_contextmanager = any("contextmanager" in d for d in self.decorators)
        self.is_generator = _has_yield(node)

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def param_nodes(self):
        a = self.node.args
        return {x.arg: x for x in a.posonlyargs + a.args + a.kwonlyargs}

    def defaults(self):
        a = self.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        for name, d in zip(reversed(pos), reversed(a.defaults)):
            out[name] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[x.arg] = d
        return out

    @property
    def loc(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<fn {self.qual}>"


def _has_yield(node):
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    def __init__(self, node, module, outer=None):
        self.node = node
        self.module = module
        self.name = node.name if outer is None else f"{outer.name}.{node.name}"
        self.qual = f"{module.name}.{self.name}"
        self.methods = {}
        self.setters = {}
        self.class_vars = {}
        self.class_anns = {}
        self.inner = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FunctionInfo(st, module, cls=self)
                if fi.is_setter:
                    self.setters[st.name] = fi
                else:
                    self.methods[st.name] = fi
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.class_vars[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.class_anns[st.target.id] = st.annotation
                if st.value is not None:
                    self.class_vars[st.target.id] = st.value
            elif isinstance(st, ast.ClassDef):
                self.inner[st.name] = ClassInfo(st, module, outer=self)
        self._bases = None
        self._mro = None
        self._attr_types = None

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    def __repr__(self):
        return f"<class {self.qual}>"


class Module:
    _cache = {}

    def __init__(self, project, name, path, relpath, source=None):
        self.project = project
        self.name = name
        self.path = path
        self.relpath = relpath
        if source is None:
            with open(path, "r", encoding="utf-8") as f:
                source = f.read()
        self.source = source
        key = (path, source)
        if key not in Module._cache:
            Module._cache[key] = ast.parse(source, filename=path)
        self.tree = Module._cache[key]
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.functions = {}
        self.classes = {}
        self.vars = {}
        self.imports = {}
        self.star_imports = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[st.name] = FunctionInfo(st, self)
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = ClassInfo(st, self)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.vars[t.id] = st.value
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.vars[e.id] = ast.Subscript(
                                    value=st.value,
                                    slice=ast.Constant(value=i),
                                    ctx=ast.Load(),
                                )
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.vars[st.target.id] = st.value
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = ("mod", a.name, None)
                    else:
                        top = a.name.split(".")[0]
                        self.imports[top] = ("mod", top, None)
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(st)
                for a in st.names:
                    if a.name == "*":
                        self.star_imports.append(base)
                    else:
                        self.imports[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, (ast.If, ast.Try)):
                self._collect(st.body)
                for h in getattr(st, "handlers", []):
                    saved = dict(self.imports)
                    self._collect(h.body)
                    self.imports.update(saved)
                self._collect(st.orelse)

    def _abs(self, st):
        if st.level == 0:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        drop = st.level - 1
        if drop:
            parts = parts[:-drop]
        if st.module:
            parts = parts + st.module.split(".")
        return ".".join(parts)


class Project:
    def __init__(self, root="/repo", overlay=None):
        self.root = root
        overlay = overlay or {}
        self.modules = {}
        self.parse_errors = []
        for pkg, rel in PACKAGES:
            base = os.path.join(root, rel)
            if not os.path.isdir(base):
                continue
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d not in ("__pycache__", "tests"))
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    path = os.path.join(dp, f)
                    sub = os.path.relpath(path, base)[:-3].replace(os.sep, ".")
                    if sub == "__init__":
                        name = pkg
                    elif sub.endswith(".__init__"):
                        name = f"{pkg}.{sub[:-9]}"
                    else:
                        name = f"{pkg}.{sub}"
                    try:
                        rel_path = os.path.relpath(path, root)
                        self.modules[name] = Module(
                            self, name, path, rel_path, overlay.get(rel_path)
                        )
                    except SyntaxError as e:
                        self.parse_errors.append((path, str(e)))
        if self.parse_errors:
            raise AnalysisBroken(f"cannot parse: {self.parse_errors}")
        self._class_index = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self._index_class(c)
        self._subs = None

    def _index_class(self, c):
        self._class_index[c.qual] = c
        for i in c.inner.values():
            self._index_class(i)

    # ---- lookup -----------------------------------------------------------
    def cls(self, qual):
        """Class by full name or by unique short name."""
        if qual in self._class_index:
            return self._class_index[qual]
        short = [c for c in self._class_index.values() if c.name == qual]
        if len(short) == 1:
            return short[0]
        raise AnalysisBroken(f"anchor vanished: class {qual}")

    def has_cls(self, qual):
        try:
            self.cls(qual)
            return True
        except AnalysisBroken:
            return False

    def func(self, qual):
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            if len(rest) == 1 and rest[0] in m.functions:
                return m.functions[rest[0]]
            cq = ".".join(parts[:-1])
            if cq in self._class_index:
                r = self.method(self._class_index[cq], rest[-1])
                if r is not None:
                    return r
        raise AnalysisBroken(f"anchor vanished: function {qual}")

    def all_classes(self):
        return list(self._class_index.values())

    def all_functions(self, nested=False):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
                if nested:
                    yield from self._nested(f)
            for c in [c for c in self._class_index.values() if c.module is m]:
                for f in list(c.methods.values()) + list(c.setters.values()):
                    yield f
                    if nested:
                        yield from self._nested(f)

    def _nested(self, f):
        todo = list(f.node.body)
        while todo:
            n = todo.pop(0)
            if isinstance(n, ast.FunctionDef):
                g = FunctionInfo(n, f.module, parent=f)
                yield g
                yield from self._nested(g)
                continue
            if isinstance(n, ast.ClassDef):
                continue
            todo.extend(ast.iter_child_nodes(n))

    # ---- name resolution ----------------------------------------------------
    def resolve_in_module(self, module, name, _seen=None):
        _seen = _seen or set()
        if (module.name, name) in _seen:
            return None
        _seen.add((module.name, name))
        if name in module.functions:
            return Ref("func", module.functions[name])
        if name in module.classes:
            return Ref("class", module.classes[name])
        if name in module.vars:
            return Ref("var", (module, name))
        if name in module.imports:
            kind, base, member = module.imports[name]
            if kind == "mod":
                if base in self.modules:
                    return Ref("mod", self.modules[base])
                return Ref("ext", base)
            return self.resolve_member(base, member, _seen)
        for base in module.star_imports:
            if base in self.modules:
                r = self.resolve_in_module(self.modules[base], name, _seen)
                if r is not None:
                    return r
        sub = f"{module.name}.{name}"
        if module.is_pkg and sub in self.modules:
            return Ref("mod", self.modules[sub])
        return None

    def resolve_member(self, base, member, _seen=None):
        if base in self.modules:
            r = self.resolve_in_module(self.modules[base], member, _seen)
            if r is not None:
                return r
            if f"{base}.{member}" in self.modules:
                return Ref("mod", self.modules[f"{base}.{member}"])
            return Ref("ext", f"{base}.{member}")
        if f"{base}.{member}" in self.modules:
            return Ref("mod", self.modules[f"{base}.{member}"])
        return Ref("ext", f"{base}.{member}")

    def resolve_expr(self, module, node):
        """Resolve a dotted expression to a Ref, or None."""
        if isinstance(node, ast.Name):
            return self.resolve_in_module(module, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(module, node.value)
            if base is None:
                return None
            if base.kind == "mod":
                return self.resolve_member(base.value.name, node.attr)
            if base.kind == "ext":
                return Ref("ext", f"{base.value}.{node.attr}")
            if base.kind == "class" and node.attr in base.value.inner:
                return Ref("class", base.value.inner[node.attr])
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                return self.resolve_expr(
                    module, ast.parse(node.value, mode="eval").body
                )
            except SyntaxError:
                return None
        return None

    # ---- classes --------------------------------------------------------------
    def bases(self, c):
        if c._bases is None:
            out = []
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                if r is not None and r.kind == "class":
                    out.append(r.value)
            c._bases = out
        return c._bases

    def ext_bases(self, c):
        out = []
        for k in self.mro(c):
            for b in k.node.bases:
                r = self.resolve_expr(k.module, b)
                if r is not None and r.kind == "ext":
                    out.append(r.value)
        return out

    def mro(self, c):
        if c._mro is None:
            seqs = [list(self.mro(b)) for b in self.bases(c)] + [list(self.bases(c))]
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    cand = s[0]
                    if not any(cand in t[1:] for t in seqs):
                        break
                else:
                    cand = seqs[0][0]
                out.append(cand)
                for s in seqs:
                    if cand in s:
                        s.remove(cand)
            c._mro = out
        return c._mro

    def is_subclass(self, c, base):
        if isinstance(base, str):
            return any(k.name == base or k.qual == base for k in self.mro(c))
        return base in self.mro(c)

    def method(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None and after in mro:
            mro = mro[mro.index(after) + 1 :]
        for k in mro:
            if name in k.methods:
                return k.methods[name]
        return None

    def setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
            if name in k.methods:
                return None
        return None

    def class_var(self, c, name):
        for k in self.mro(c):
            if name in k.class_vars:
                return k, k.class_vars[name]
        return None

    def subclasses(self, c, strict=True):
        out = []
        for k in self._class_index.values():
            if c in self.mro(k) and (not strict or k is not c):
                out.append(k)
        return sorted(out, key=lambda k: k.qual)

    def is_abstract(self, c):
        seen = {}
        for k in reversed(self.mro(c)):
            for n, f in k.methods.items():
                seen[n] = f.is_abstract
        return any(seen.values())

    # ---- light types ------------------------------------------------------------
    # a type is ClassInfo | ('list', T) | ('dict', K, V) | ('tuple', [T]) | None
    def ann_type(self, module, node):
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            r = self.resolve_expr(module, node)
            if r is not None and r.kind == "class":
                return r.value
            if r is not None and r.kind == "var":
                m, n = r.value
                return self.ann_type(m, m.vars[n])
            if r is not None and r.kind == "ext":
                return ("ext", r.value)
            if r is None and isinstance(node, ast.Name):
                if node.id in ("int", "float", "str", "bool"):
                    return ("ext", node.id)
            return None
        if isinstance(node, ast.Subscript):
            head = ast.unparse(node.value).split(".")[-1]
            args = (
                node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            )
            if head == "Optional":
                return self.ann_type(module, args[0])
            if head == "Type":
                return None
            if head in (
                "List",
                "Sequence",
                "Iterable",
                "Generator",
                "Iterator",
                "Set",
                "list",
                "Collection",
            ):
                return ("list", self.ann_type(module, args[0]))
            if head == "Tuple":
                if len(args) == 2 and ast.unparse(args[1]) == "...":
                    return ("list", self.ann_type(module, args[0]))
                return ("tuple", tuple(self.ann_type(module, a) for a in args))
            if head in ("Dict", "OrderedDict", "defaultdict", "dict", "Mapping"):
                if len(args) == 2:
                    return (
                        "dict",
                        self.ann_type(module, args[0]),
                        self.ann_type(module, args[1]),
                    )
            if head == "Union":
                ts = [self.ann_type(module, a) for a in args]
                ts = [
                    t
                    for t, a in zip(ts, args)
                    if not (isinstance(a, ast.Constant) and a.value is None)
                ]
                if len(set(map(repr, ts))) == 1:
                    return ts[0]
                return None
        return None

    def attr_type(self, c, attr):
        for k in self.mro(c):
            t = self._attr_types_of(k).get(attr)
            if t is not None:
                return t
            m = k.methods.get(attr)
            if m is not None and m.is_property:
                return self.ann_type(m.module, m.node.returns)
        return None

    def _attr_types_of(self, c):
        if c._attr_types is None:
            out = {}
            for n, a in c.class_anns.items():
                t = self.ann_type(c.module, a)
                if t is not None:
                    out[n] = t
            c._attr_types = out
            for f in c.methods.values():
                if not f.params:
                    continue
                me = f.params[0]
                panns = {
                    n: self.ann_type(c.module, x.annotation)
                    for n, x in f.param_nodes().items()
                }
                for st in ast.walk(f.node):
                    if isinstance(st, ast.AnnAssign):
                        t = st.target
                        if (
                            isinstance(t, ast.Attribute)
                            and isinstance(t.value, ast.Name)
                            and t.value.id == me
                        ):
                            ty = self.ann_type(c.module, st.annotation)
                            if ty is not None:
                                out[t.attr] = ty
                    elif isinstance(st, ast.Assign):
                        for t in st.targets:
                            if (
                                isinstance(t, ast.Attribute)
                                and isinstance(t.value, ast.Name)
                                and t.value.id == me
                                and t.attr not in out
                            ):
                                v = st.value
                                ty = None
                                if isinstance(v, ast.Name):
                                    ty = panns.get(v.id)
                                elif isinstance(v, ast.Call):
                                    r = self.resolve_expr(c.module, v.func)
                                    if r is not None and r.kind == "class":
                                        ty = r.value
                                    elif r is not None and r.kind == "func":
                                        ty = self.ann_type(
                                            r.value.module, r.value.node.returns
                                        )
                                if ty is not None:
                                    out[t.attr] = ty
        return c._attr_types
