"""Query layer over the evaluator: views of functions, guard algebra, reports."""
import itertools

import multiprocessing
import os
from .evaluator import Evaluator, mk_not, norm_cond, split_guard, strip
from .project import AnalysisBroken, ClassInfo
from .terms import (
    FALSE,
    NONE,
    T,
    TRUE,
    Term,
    attr,
    call_all_args,
    call_kw,
    call_name,
    call_pos,
    call_recv,
    children,
    const,
    contains,
    get_arg,
    has,
    is_call,
    is_const,
    path,
    rebuild,
    show,
    subterms,
)

# --------------------------------------------------------------- guard algebra


def eval3(t, env):
    """Three-valued evaluation of a boolean term under a partial assignment of
    its atoms (None = unknown)."""
    k = t.kind
    if k == "const":
        return bool(t.args[0])
    if k == "un" and t.args[0] == "not":
        v = eval3(t.args[1], env)
        return None if v is None else not v
    if k in ("and", "or"):
        vs = [eval3(x, env) for x in t.args[0]]
        if k == "and":
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if any(v is True for v in vs):
            return True
        return False if all(v is False for v in vs) else None
    if k == "implies":
        vs = [eval3(x, env) for x in t.args[0]]
        c = eval3(t.args[1], env)
        if c is True or any(v is False for v in vs):
            return True
        if c is False and all(v is True for v in vs):
            return False
        return None
    if k in ("loopdone", "forall"):
        return True
    if k == "phi":
        c = eval3(t.args[0], env)
        if c is True:
            return eval3(t.args[1], env)
        if c is False:
            return eval3(t.args[2], env)
        a, b = eval3(t.args[1], env), eval3(t.args[2], env)
        return a if a == b else None
    t2, pol = norm_cond(t)
    if t2 in env:
        return env[t2] if pol else not env[t2]
    return None


def atoms_of(t, out):
    k = t.kind
    if k == "const" or k in ("loopdone", "forall"):
        return
    if k == "un" and t.args[0] == "not":
        atoms_of(t.args[1], out)
    elif k in ("and", "or"):
        for x in t.args[0]:
            atoms_of(x, out)
    elif k == "implies":
        for x in t.args[0]:
            atoms_of(x, out)
        atoms_of(t.args[1], out)
    elif k == "phi":
        for x in t.args:
            atoms_of(x, out)
    else:
        t2, _ = norm_cond(t)
        if t2 not in out:
            out.append(t2)


def conj3(gs, env):
    res = True
    for g, p in gs:
        v = eval3(g, env)
        if v is None:
            res = None
        elif v != p:
            return False
    return res


def covers(target, alternatives, fixed=(), limit=16):
    """True if whenever all guards of `target` hold, at least one of the guard
    conjunctions in `alternatives` holds (case analysis over atoms)."""
    env0 = {}
    pend = []
    for g, p in list(target) + list(fixed):
        for t, q in split_guard(g, p):
            if t.kind in ("and", "or", "implies", "phi", "const"):
                pend.append((t, q))
            elif env0.get(t, q) != q:
                return True  # contradictory target
            else:
                env0[t] = q
    atoms = []
    for gs in list(alternatives) + [pend]:
        for g, _ in gs:
            atoms_of(g, atoms)
    atoms = [a for a in atoms if a not in env0]

    def rec(env, i):
        if conj3(pend, env) is False:
            return True
        vals = [conj3(gs, env) for gs in alternatives]
        if any(v is True for v in vals):
            return True
        if all(v is False for v in vals):
            return False
        if i >= len(atoms) or i >= limit:
            return False
        a = atoms[i]
        for v in (True, False):
            e2 = dict(env)
            e2[a] = v
            if not rec(e2, i + 1):
                return False
        return True

    return rec(env0, 0)


def sat(gs, extra=()):
    """False if the guard conjunction is propositionally contradictory."""
    return not covers(list(gs) + list(extra), [])


def exclusive(g1, g2):
    return not sat(list(g1) + list(g2))


def cases(t, gs=()):
    """Split phi alternatives: yields (guards, value)."""
    if t.kind == "phi":
        c, a, b = t.args
        yield from cases(a, tuple(gs) + tuple(split_guard(c, True)))
        yield from cases(b, tuple(gs) + tuple(split_guard(c, False)))
    else:
        if sat(gs):
            yield tuple(gs), t


def values(t):
    return [v for _, v in cases(t)]


def assume(t, known):
    """Simplify `t` given the truth of condition terms (dict atom->bool)."""

    def f(x):
        if x.kind == "phi":
            v = eval3(x.args[0], known)
            if v is True:
                return x.args[1]
            if v is False:
                return x.args[2]
        return x

    return rebuild(t, f)


def assume_guards(t, gs):
    known = {}
    for g, p in gs:
        for a, q in split_guard(g, p):
            known[a] = q
    return assume(t, known)


# ------------------------------------------------------------------ predicates


def p_param(t, name):
    return t.kind == "param" and t.args[1] == name


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def mentions_attr(t, name):
    return contains(t, lambda x: x.kind == "attr" and x.args[1] == name)


def mentions_param(t, name):
    return contains(t, lambda x: p_param(x, name))


def mentions_call(t, *names):
    return contains(t, lambda x: is_call(x, *names))


def paths_in(t):
    return {path(x) for x in subterms(t) if path(x)}


def strip_wrap(t, names=("list", "tuple", "iter", "reversed_")):
    while t.kind == "call" and t.args[0].kind == "builtin" and t.args[0].args[0] in names and len(t.args[1]) == 1:
        t = t.args[1][0]
    return t


# ----------------------------------------------------------------------- views


class View:
    """Guarded effects of one function, analysed as a method of `cls`."""

    def __init__(self, ev, func, cls):
        self.e = ev
        self.func = func
        self.cls = cls
        self.events = ev.events
        self.result = ev.result

    @property
    def loc(self):
        return self.func.loc if isinstance(self.func.loc, str) else str(self.func.loc)

    def c(self, t):
        return NONE if t is None else self.e.canon(t)

    def sel(self, kind=None, pred=None):
        for e in self.events:
            if kind and e.kind != kind:
                continue
            if pred and not pred(e):
                continue
            yield e

    def calls(self, *names, recv=None, top=None):
        out = []
        for e in self.events:
            if e.kind == "call" and e.term is not None and call_name(e.term) in names:
                if recv is not None and not (call_recv(e.term) is not None and recv(call_recv(e.term))):
                    continue
                out.append(e)
            elif e.kind == "mutcall" and e.name in names:
                if recv is not None and not recv(e.base):
                    continue
                out.append(e)
        return out

    def sets(self, name=None, base=None):
        out = []
        for e in self.events:
            if e.kind == "setattr" and (name is None or e.name == name):
                if base is None or base(e.base):
                    out.append(e)
        return out

    def setitems(self, base=None):
        return [e for e in self.events if e.kind == "setitem" and (base is None or base(e.base))]

    def dels(self, base=None):
        return [e for e in self.events if e.kind == "del" and (base is None or base(e.base))]

    def kinds(self, *k):
        return [e for e in self.events if e.kind in k]

    def returns(self):
        """Return events of the analysed function itself (not of inlined callees)."""
        return [e for e in self.events if e.kind == "return" and len(e.stack) == 1]

    def raises(self):
        return [e for e in self.events if e.kind == "raise"]

    # guards under which control falls off / returns normally
    def exits(self):
        out = [(e.guards, e.seq, e) for e in self.returns()]
        fr = self.e.frame0
        # fallthrough is the last entry if it has no return event
        n = len([e for e in self.returns()])
        if len(fr.returns) > n:
            out.append((tuple(fr.returns[-1][0]), len(self.events), None))
        return out

    def always(self, evs, when=()):
        """Every normal exit compatible with `when` is preceded by one of evs
        (events inside loops over possibly empty collections count as
        happening when the loop runs)."""
        for gs, seq, _ in self.exits():
            tgt = list(gs) + list(when)
            if not sat(tgt):
                continue
            alts = [e.guards for e in evs if e.seq < seq]
            if not covers(tgt, alts):
                return False
        return True

    def precedes(self, a, b):
        """Event a happens before b on every path to b."""
        return a.seq < b.seq and covers(b.guards, [a.guards])

    def any_precedes(self, evs, b):
        return covers(b.guards, [a.guards for a in evs if a.seq < b.seq])

    def in_ctx(self, e, pred):
        return any(pred(c) for c in e.ctxs)


class Analysis:
    """Project + memoised views + coverage accounting."""

    def __init__(self, project, known=None):
        self.p = project
        self.known = known
        self._views = {}
        self.functions = set()
        self.nevents = 0

    def view(self, cls, name=None, **kw):
        """view('Objective', 'error') or view('pkg.mod.func')."""
        args = kw.pop("args", None)
        ik = kw.pop("inline_key", None)
        key = (cls if isinstance(cls, str) else cls.qual, name, ik, tuple(sorted((k, str(v)) for k, v in kw.items() if not ik)), str(args))
        if key in self._views:
            return self._views[key]
        if name is None:
            f = self.p.func(cls)
            c = f.cls
        else:
            c = self.p.cls(cls) if isinstance(cls, str) else cls
            f = self.p.method(c, name)
            if f is None:
                raise AnalysisBroken(f"{c.qual} has no method {name}")
        v = self.view_of(f, c, args=args, **kw)
        self._views[key] = v
        return v

    def view_of(self, f, c=None, args=None, **kw):
        if self.known is not None:
            kw.setdefault("known", self.known)
        ev = Evaluator(self.p, **kw).run(f, c, args)
        self.functions.add(f.qual)
        for e in ev.events:
            for s in e.stack:
                self.functions.add(s.qual)
        self.nevents += len(ev.events)
        return View(ev, f, c)


# ---------------------------------------------------------------------- report


_JOBS = []


def _numbered(n):
    return _part(_JOBS[n])


def _part(job):
    a, (fn, args) = job
    r = Report("part")
    a.interpreted = set()
    broken = None
    try:
        r.part(fn, a, r, *args)
    except AnalysisBroken as e:
        broken = str(e)
    return r.obl, r.undecided, set(a.interpreted), broken


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []  # (rule, construct, ok, loc, msg)
        self.undecided = []

    def check(self, ok, rule, construct, loc="", msg=""):
        if hasattr(loc, "loc"):
            loc = loc.loc
        self.obl.append((rule, construct, bool(ok), str(loc), msg))
        return bool(ok)

    def ok(self, rule, construct, loc=""):
        return self.check(True, rule, construct, loc)

    def bad(self, rule, construct, loc="", msg=""):
        return self.check(False, rule, construct, loc, msg)

    def skip(self, rule, construct, why):
        self.undecided.append((rule, construct, why))

    def part(self, fn, *args):
        """run one part of a check; code outside what the analysis can represent
        leaves that part undecided instead of ending the whole check"""
        try:
            return fn(*args)
        except AnalysisBroken:
            raise
        except Exception as e:
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            self.skip("analysis", fn.__name__, f"{type(e).__name__}: {e} (line {tb.tb_lineno})"[:160])

    def parallel(self, a, jobs):
        """run independent parts (function, arguments) in worker processes; the parts
        that interpret a given function are kept in a.touched when it is set"""
        only = getattr(a, "only_parts", None)
        if only is not None:
            jobs = [j for n, j in enumerate(jobs) if n in only]
        workers = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
        if workers == 1 or multiprocessing.current_process().daemon or len(jobs) < 2:
            results = [_part((a, j)) for j in jobs]
        else:
            _JOBS[:] = [(a, j) for j in jobs]
            with multiprocessing.get_context("fork").Pool(workers) as pool:
                results = pool.map(_numbered, range(len(jobs)), chunksize=1)
            _JOBS[:] = []
        a.part_functions = [x[2] for x in results]
        for obl, und, fns, broken in results:
            if broken:
                raise AnalysisBroken(broken)
            self.obl += obl
            self.undecided += und
            a.functions |= fns

    def floor(self, rule, n):
        """Fail (analysis broken) when fewer instances than confirmed by hand
        were found."""
        k = sum(1 for o in self.obl if o[0] == rule)
        if k < n:
            raise AnalysisBroken(f"rule {rule}: {k} instances analysed, expected at least {n}")

    @property
    def violations(self):
        return [o for o in self.obl if not o[2]]


# ------------------------------------------------------------- term shortcuts


def is_self(t):
    return t.kind == "self"


def self_attr(name):
    def pred(t):
        t = strip(t)
        return t.kind == "attr" and t.args[1] == name and t.args[0].kind == "self"

    return pred


def iter_source(t):
    """Collection a loop/element ranges over, without order/copy wrappers."""
    while True:
        t = strip_wrap(t)
        if t.kind == "coll" and len(t.args[1]) == 1 and t.args[1][0].kind == "entry" and t.args[1][0].args[0] == "extend":
            t = t.args[1][0].args[1][0]
            continue
        return t


def elem_of(t, coll):
    return t.kind == "elem" and iter_source(t.args[0]) is coll


def guards_mention(e, pred):
    return any(contains(g, pred) for g, _ in e.guards)


def implies_guard(e, pred, pol=True, extra=()):
    """Event e only happens when the condition `pred(atom)` has value `pol`."""
    atoms = []
    for g, _ in e.guards:
        atoms_of(g, atoms)
    for a in atoms:
        if pred(a) and not sat(list(e.guards) + [(a, not pol)]):
            return True
    return False


def guard_atoms(e):
    atoms = []
    for g, _ in e.guards:
        atoms_of(g, atoms)
    return atoms


def is_none_test(t, pred):
    return t.kind == "cmp" and t.args[0] == "is" and any(is_const(x, None) for x in t.args[1:]) and any(
        pred(x) for x in t.args[1:]
    )


def cmp_of(t, op, p1, p2):
    """Commutative for ==/is; ordered for < and in."""
    if t.kind != "cmp" or t.args[0] != op:
        return False
    a, b = t.args[1], t.args[2]
    if p1(a) and p2(b):
        return True
    return op in ("==", "is") and p1(b) and p2(a)


def val(x):
    return lambda t: t is x


ANY = lambda t: True  # noqa: E731


def default_of(f, name):
    import ast

    args = f.node.args
    pos = args.posonlyargs + args.args
    for p, d in zip(pos[len(pos) - len(args.defaults):], args.defaults):
        if p.arg == name:
            return d.value if isinstance(d, ast.Constant) else d
    for p, d in zip(args.kwonlyargs, args.kw_defaults):
        if p.arg == name and d is not None:
            return d.value if isinstance(d, ast.Constant) else d
    return "required"


class Entry:
    """One element of a canonical collection: (kind, items, guards, loops)."""

    def __init__(self, t):
        self.kind, self.items, gs, self.loops = t.args
        self.guards = []
        for g in gs:
            self.guards.extend(split_guard(g, True))

    @property
    def key(self):
        return self.items[0]

    @property
    def value(self):
        return self.items[-1]


def entries(t):
    """Entries of a canonical collection (None when not a collection)."""
    if t.kind != "coll":
        return None
    return [Entry(x) for x in t.args[1] if x.kind == "entry"]


# ------------------------------------------------------ integer layout algebra


def poly(t):
    """Polynomial normal form {monomial: coefficient}; monomials are sorted
    tuples of atom terms, anything that is not +,-,* or an int is an atom."""
    if t is None:
        return {(): 0}
    if t.kind == "const" and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
        return {(): t.args[0]} if t.args[0] else {}
    if t.kind == "un" and t.args[0] in ("-", "+"):
        p = poly(t.args[1])
        return {m: -c for m, c in p.items()} if t.args[0] == "-" else p
    if t.kind == "bin" and t.args[0] in ("+", "-", "*"):
        a, b = poly(t.args[1]), poly(t.args[2])
        out = {}
        if t.args[0] == "*":
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = tuple(sorted(m1 + m2, key=repr))
                    out[m] = out.get(m, 0) + c1 * c2
        else:
            s = 1 if t.args[0] == "+" else -1
            out = dict(a)
            for m, c in b.items():
                out[m] = out.get(m, 0) + s * c
        return {m: c for m, c in out.items() if c}
    return {(t,): 1}


def psub(a, b):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) - c
    return {m: c for m, c in out.items() if c}


def peq(a, b):
    """Equal as integer expressions."""
    return not psub(poly(a), poly(b))


def stripe(v, lo, hi):
    """Is lo:hi one of consecutive disjoint stripes?  Returns (kind, width poly)
    with kind 'run' (running offset), 'grid' (index*width), 'fixed' (constant
    offset), 'bad' or None."""
    lo = const(0) if lo is None or is_const(lo, None) else lo
    if hi is None or is_const(hi, None):
        return None, None
    w = psub(poly(hi), poly(lo))
    if lo.kind == "loopvar":
        info = v.e.loopinfo.get(lo)
        if info is None:
            return None, w
        init, new, _ = info
        step = psub(poly(new), poly(lo))
        if not is_const(init, 0) or step != w:
            return "bad", w
        return "run", w
    if lo.kind == "const":
        return "fixed", w
    pl = poly(lo)
    lvs = [x for m in pl for x in m if x.kind in ("idx", "loopvar")]
    if len(pl) == 1 and len(lvs) == 1:
        m, c = next(iter(pl.items()))
        rest = list(m)
        rest.remove(lvs[0])
        return ("grid" if {tuple(rest): c} == w else "bad"), w
    if any(x.kind in ("loopvar",) for m in pl for x in m):
        return "bad", w
    return None, w


def slices_of(t):
    """[(base, [index terms])] for subscripts in t."""
    out = []
    for x in subterms(t):
        if x.kind == "sub":
            i = x.args[1]
            out.append((x.args[0], list(i.args[0]) if i.kind == "tuple" else [i]))
    return out


def full_slice(t):
    return t.kind == "slice" and all(is_const(x, None) for x in t.args)


def flatten_seq(t):
    """Ordered content of a sequence term built from +, literals, copies and
    comprehensions: list of ('item', value, guards) / ('over', (sources), value,
    guards) / ('rest', collection, None, ())."""
    t = strip_wrap(t)
    if t.kind == "bin" and t.args[0] == "+":
        return flatten_seq(t.args[1]) + flatten_seq(t.args[2])
    if t.kind in ("tuple", "list"):
        out = []
        for x in t.args[0]:
            if x.kind == "star":
                out += flatten_seq(x.args[0])
            else:
                out.append(("item", x, ()))
        return out
    if is_call(t, "chain"):
        out = []
        for x in call_pos(t):
            out += flatten_seq(x)
        return out
    es = entries(t)
    if es is not None:
        out = []
        for e in es:
            if e.kind == "extend" and not e.loops:
                out += flatten_seq(e.value)
            elif e.loops:
                out.append(("over", tuple(iter_source(x) for x in e.loops), e.value, tuple(e.guards)))
            else:
                out.append(("item", e.value, tuple(e.guards)))
        return out
    return [("rest", iter_source(t), None, ())]


def forwards_all(t):
    """Call forwards the caller's *args and **kwargs."""
    vals = list(call_pos(t)) + list(call_kw(t).values())
    flat = [y for x in vals for y in subterms(x)]
    names = {y.args[1] for y in flat if y.kind == "param"}
    return any(n.startswith("*") and not n.startswith("**") for n in names) and any(n.startswith("**") for n in names)


def nested_views(a, cls, pred):
    """views of the functions defined inside the methods of a class whose body satisfies pred(ast node)"""
    import ast
    from .project import FunctionInfo

    out = []
    for f in cls.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f.node and pred(n):
                out.append(a.view_of(FunctionInfo(n, f.module, None, f)))
    return out
