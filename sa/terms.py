"""Hash-consed value terms used by the abstract evaluator."""


class Term:
    __slots__ = ("kind", "args", "_h", "uid")
    _table = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __lt__(self, other):
        return self.uid < other.uid


def T(kind, *args):
    key = (kind,) + tuple(
        ("#", type(a).__name__, a) if isinstance(a, (bool, int, float)) else a
        for a in args
    )
    t = Term._table.get(key)
    if t is None:
        t = Term.__new__(Term)
        t.kind = kind
        t.args = args
        t._h = hash(key)
        t.uid = Term._n
        Term._n += 1
        Term._table[key] = t
    return t


def const(v):
    return T("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = T("undef")


def is_const(t, v=...):
    if t is None or t.kind != "const":
        return False
    if v is ...:
        return True
    return type(t.args[0]) is type(v) and t.args[0] == v


def children(t):
    for a in t.args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _tuple_children(a)


def _tuple_children(tp):
    for a in tp:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            yield from _tuple_children(a)


def subterms(t):
    seen = set()
    todo = [t] if t is not None else []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo.extend(children(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def has(t, sub):
    return any(x is sub for x in subterms(t))


def rebuild(t, f, memo=None):
    """Bottom-up rewriting: f(term) -> term."""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]

    def go(a):
        if isinstance(a, Term):
            return rebuild(a, f, memo)
        if isinstance(a, tuple):
            return tuple(go(x) for x in a)
        return a

    new = f(T(t.kind, *[go(a) for a in t.args]))
    memo[t] = new
    return new


def call_name(t):
    """Last component of the callee of a call term ('' if none)."""
    if t.kind != "call":
        return ""
    c = t.args[0]
    if c.kind == "attr":
        return c.args[1]
    if c.kind in ("func", "ext", "class"):
        return c.args[0].split(".")[-1]
    if c.kind == "builtin":
        return c.args[0]
    if c.kind == "gvar":
        return c.args[1]
    return ""


def call_recv(t):
    c = t.args[0]
    return c.args[0] if c.kind == "attr" else None


def call_pos(t):
    return () if t.kind == "make" else t.args[1]


def call_kw(t):
    return dict(t.args[1] if t.kind == "make" else t.args[2])


def call_all_args(t):
    return list(t.args[1]) + [v for _, v in t.args[2]]


def get_arg(t, pos, name=None):
    kw = call_kw(t)
    if name is not None and name in kw:
        return kw[name]
    if t.kind == "make":
        return None
    if pos is not None and pos < len(t.args[1]):
        return t.args[1][pos]
    return None


def is_call(t, *names):
    return t is not None and t.kind == "call" and (not names or call_name(t) in names)


def attr(b, n):
    return T("attr", b, n)


def path(t):
    """'self.a.b' style access path, or None."""
    if t.kind == "self":
        return "self"
    if t.kind == "param":
        return t.args[1]
    if t.kind == "attr":
        b = path(t.args[0])
        return None if b is None else f"{b}.{t.args[1]}"
    return None


def show(t, depth=12):
    if not isinstance(t, Term):
        return repr(t)
    if depth <= 0:
        return "…"
    k, a = t.kind, t.args
    s = lambda x: show(x, depth - 1)  # noqa: E731
    if k == "const":
        return repr(a[0])
    if k == "self":
        return "self"
    if k == "param":
        return a[1]
    if k == "attr":
        return f"{s(a[0])}.{a[1]}"
    if k in ("func", "class", "ext", "builtin", "mod"):
        return a[0].split(".")[-1] if k != "ext" else a[0]
    if k == "call":
        args = [s(x) for x in a[1]] + [f"{n}={s(v)}" for n, v in a[2]]
        return f"{s(a[0])}({', '.join(args)})"
    if k == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "un":
        return f"({a[0]} {s(a[1])})"
    if k == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if k == "sub":
        return f"{s(a[0])}[{s(a[1])}]"
    if k in ("tuple", "list", "set"):
        return f"{k}({', '.join(s(x) for x in a[0])})"
    if k == "phi":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if k == "elem":
        return f"each({s(a[0])})"
    if k == "slice":
        return ":".join("" if is_const(x, None) else s(x) for x in a)
    parts = []
    for x in a:
        if isinstance(x, Term):
            parts.append(s(x))
        elif isinstance(x, tuple):
            parts.append(
                "(" + ", ".join(s(y) if isinstance(y, Term) else repr(y) if not isinstance(y, tuple) else "/".join(s(z) for z in y) for y in x) + ")"
            )
        else:
            parts.append(repr(x))
    return f"{k}<{', '.join(parts)}>"
