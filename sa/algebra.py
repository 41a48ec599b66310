"""Normal form of scalar expressions: generalised Laurent polynomials over atoms
with rational exponents (all atoms taken positive). Decides equality of, and
differentiates, closed forms taken from the source, without evaluating them."""
from fractions import Fraction
from .terms import T
from .rules import call_kw, call_name, call_pos, call_recv, get_arg, is_call, is_const

ONE = {(): 1}
LIMIT = 60000


class NotAlgebraic(Exception):
    pass


def num(x):
    if type(x) is int:
        return {(): x} if x else {}
    x = Fraction(x).limit_denominator(10**12)
    return {(): small(x)} if x else {}


def small(x):
    """whole numbers as ints (equal to, and hashed like, the fraction)"""
    return x.numerator if type(x) is Fraction and x.denominator == 1 else x


def atom(key, e=1):
    return {((key, e if type(e) is int else small(Fraction(e))),): 1}


def add(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        n = out.get(m, 0) + (c if s == 1 else s * c)
        if n:
            out[m] = n if type(n) is int else small(n)
        else:
            out.pop(m, None)
    return out


_ORD = {}


def rank_of(x):
    k = x[0]
    n = _ORD.get(k)
    if n is None:
        n = _ORD[k] = len(_ORD)
    return n


def order(m):
    """sorting key of a monomial"""
    return [(rank_of(x), x[1]) for x in m]


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        n = d.get(k, 0) + e
        if n:
            d[k] = n if type(n) is int else small(n)
        else:
            del d[k]
    return tuple(sorted(d.items(), key=rank_of))


def mul(p, q):
    out = {}
    if len(p) * len(q) > LIMIT:
        raise NotAlgebraic("too large")
    for a, c in p.items():
        for b, d in q.items():
            m = mmul(a, b)
            n = out.get(m, 0) + c * d
            if n:
                out[m] = n if type(n) is int else small(n)
            else:
                out.pop(m, None)
    return out


class Frozen(tuple):
    """frozen form: hash and text computed once"""

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = h = tuple.__hash__(self)
            return h

    def __eq__(self, other):
        return self is other or tuple.__eq__(self, other)

    def __ne__(self, other):
        return not self == other


FROZEN = {}


def text(x):
    """canonical text of a key, monomial or number"""
    if isinstance(x, tuple):
        if type(x) is Frozen:
            try:
                return x._t
            except AttributeError:
                pass
        t = "(" + ",".join(map(text, x)) + ")"
        if type(x) is Frozen:
            x._t = t
        return t
    if isinstance(x, (str, bytes)):
        return repr(x)
    return str(x)


def freeze(p):
    f = Frozen(sorted(((m, small(c)) for m, c in p.items()), key=lambda x: order(x[0])))
    return FROZEN.setdefault(f, f)


def content(p):
    """(monomial-and-coefficient factor, rest) with a canonical rest"""
    ms = list(p)
    keys = set(k for m in ms for k, _ in m)
    low = []
    for k in keys:
        e = min(dict(m).get(k, 0) for m in ms)
        if e:
            low.append((k, e))
    low = tuple(sorted(low, key=rank_of))
    inv = tuple((k, -e) for k, e in low)
    rest = {mmul(m, inv): c for m, c in p.items()}
    lead = rest[min(rest, key=order)]
    rest = {m: small(Fraction(c) / lead) for m, c in rest.items()}
    return lead, low, rest


def power(p, e):
    e = Fraction(e)
    if not p:
        if e > 0:
            return {}
        raise NotAlgebraic("division by zero")
    if e.denominator == 1 and e >= 0 and e <= 6:
        out = ONE
        for _ in range(int(e)):
            out = mul(out, p)
        return out
    if len(p) == 1:
        (m, c), = p.items()
        return mul(cpow(c, e), {tuple((k, small(x * e)) for k, x in m): 1})
    lead, low, rest = content(p)
    if lead < 0 and e.denominator != 1:
        # the sum as a whole may still be positive
        lead, rest = -lead, {m: -c for m, c in rest.items()}
    out = mul(cpow(lead, e), {tuple((k, small(x * e)) for k, x in low): 1})
    return mul(out, atom(("sum", freeze(rest)), e))


def cpow(c, e):
    if e.denominator == 1:
        return {(): small(Fraction(c) ** int(e))}
    c = Fraction(c)
    if c < 0:
        raise NotAlgebraic("root of a negative number")
    a, b = c.numerator ** abs(e.numerator), c.denominator ** abs(e.numerator)
    ra, rb = round(a ** (1 / e.denominator)), round(b ** (1 / e.denominator))
    if ra ** e.denominator == a and rb ** e.denominator == b:
        v = Fraction(ra, rb)
        return {(): small(v if e > 0 else 1 / v)}
    return atom(("num", c), e) if c != 1 else ONE


def trig(p):
    """sin^2 + cos^2 = 1: even powers of every cosine replaced"""
    for _ in range(40):
        hit = None
        for m in p:
            for k, e in m:
                if k[0] == "cos" and len(k) == 2 and e >= 2 and Fraction(e).denominator == 1:
                    hit = k
                    break
            if hit:
                break
        if hit is None:
            return p
        sq = add(ONE, {((("sin", hit[1]), Fraction(2)),): Fraction(1)}, -1)
        out = {}
        for m, c in p.items():
            d = dict(m)
            e = d.get(hit, 0)
            if e >= 2:
                d[hit] = e - 2
                if not d[hit]:
                    del d[hit]
                out = add(out, mul({tuple(sorted(d.items(), key=rank_of)): c}, sq))
            else:
                out = add(out, {m: c})
        p = out
    return p


def is_zero(p):
    """p == 0 after multiplying out the sums in denominators"""
    for _ in range(40):
        p = trig(p)
        if not p:
            return True
        low = {}
        for m in p:
            for k, e in m:
                if k[0] == "sum":
                    low.setdefault(k, []).append(e)
        todo = None
        for k, es in low.items():
            full = [dict(m).get(k, Fraction(0)) for m in p]
            lo = min(full)
            if any((e - lo).denominator != 1 for e in full):
                # powers that differ by a fraction are independent
                parts = {}
                for m, c in p.items():
                    parts.setdefault((dict(m).get(k, Fraction(0)) - lo) % 1, {})[m] = c
                return all(is_zero(q) for q in parts.values())
            if lo or any(e - lo for e in full):
                todo = (k, lo)
                break
        if todo is None:
            return False
        k, lo = todo
        out = {}
        base = dict(k[1])
        for m, c in p.items():
            d = dict(m)
            e = d.pop(k, Fraction(0)) - lo
            rest = {tuple(sorted(d.items(), key=rank_of)): c}
            for _ in range(int(e)):
                rest = mul(rest, base)
            out = add(out, rest)
        p = out
    return not p


def equal(p, q):
    return is_zero(add(p, q, -1))


def diff(p, key):
    """derivative with respect to the atom with this key"""
    out = {}
    for m, c in p.items():
        for i, (k, e) in enumerate(m):
            dk = datom(k, key)
            if not dk:
                continue
            rest = mmul(m[:i] + m[i + 1:], ((k, e - 1),) if e != 1 else ())
            out = add(out, mul({rest: c * e}, dk))
    return out


def datom(k, key):
    if k == key:
        return ONE
    if k[0] == "sum":
        return diff(dict(k[1]), key)
    if k[0] == "exp":
        return mul(atom(k), diff(dict(k[1]), key))
    if k[0] == "log":
        return mul(power(dict(k[1]), -1), diff(dict(k[1]), key))
    if k[0] in ("sin", "cos") and len(k) == 2 and isinstance(k[1], tuple):
        d = diff(dict(k[1]), key)
        if not d:
            return {}
        return mul(d, atom(("cos", k[1])) if k[0] == "sin" else mul(num(-1), atom(("sin", k[1]))))
    if k[0] == "atan2" and len(k) == 3 and isinstance(k[1], tuple):
        y, x = dict(k[1]), dict(k[2])
        dy, dx = diff(y, key), diff(x, key)
        if not dy and not dx:
            return {}
        n = power(add(mul(x, x), mul(y, y)), -1)
        return mul(n, add(mul(x, dy), mul(y, dx), -1))
    return {}


TINY = Fraction(1, 10**6)


def alg(t, leaf=None, transparent=()):
    """normal form of a term; leaf(term) may give the normal form of a sub-term,
    names in transparent are calls that only reshape their receiver. Guards
    against division by zero (tiny constants) are dropped."""
    def go(t):
        if leaf is not None:
            x = leaf(t)
            if x is not None:
                return x
        k = t.kind
        if k == "const":
            v = t.args[0]
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise NotAlgebraic(repr(v))
            if v != v or v in (float("inf"), float("-inf")):
                raise NotAlgebraic(repr(v))
            f = Fraction(v).limit_denominator(10**12)
            return {} if abs(f) < TINY else num(f)
        if k == "bin":
            o = t.args[0]
            if o == "+":
                return add(go(t.args[1]), go(t.args[2]))
            if o == "-":
                return add(go(t.args[1]), go(t.args[2]), -1)
            if o == "*":
                return mul(go(t.args[1]), go(t.args[2]))
            if o == "/":
                return mul(go(t.args[1]), power(go(t.args[2]), -1))
            if o == "**" and is_const(t.args[2]):
                return power(go(t.args[1]), expo(t.args[2]))
        if k == "un" and t.args[0] == "-":
            return mul(num(-1), go(t.args[1]))
        if k == "un" and t.args[0] == "+":
            return go(t.args[1])
        if k == "call":
            r = call_recv(t)
            ps = list(call_pos(t)) + list(call_kw(t).values())
            if r is not None and r.kind == "module" or r is None and ps:
                r, ps = (ps[0], ps[1:]) if ps else (None, [])
            n = call_name(t)
            if r is not None:
                if n in transparent or n in ("clone", "contiguous"):
                    return go(r)
                if n == "sqrt":
                    return power(go(r), Fraction(1, 2))
                if n == "rsqrt":
                    return power(go(r), Fraction(-1, 2))
                if n == "square":
                    return power(go(r), 2)
                if n == "reciprocal":
                    return power(go(r), -1)
                if n in ("pow", "float_power") and len(ps) == 1 and is_const(ps[0]):
                    return power(go(r), expo(ps[0]))
                if n in ("neg", "negative"):
                    return mul(num(-1), go(r))
                if n == "exp":
                    return expof(go(r))
                if n == "expm1":
                    return add(expof(go(r)), ONE, -1)
                if n == "log":
                    return atom(("log", freeze(go(r))))
                if n == "log1p":
                    return atom(("log", freeze(add(ONE, go(r)))))
                if n in ("ones_like",):
                    return ONE
                if n in ("zeros_like",):
                    return {}
                if len(ps) == 1:
                    if n in ("add",):
                        return add(go(r), go(ps[0]))
                    if n in ("sub", "subtract"):
                        return add(go(r), go(ps[0]), -1)
                    if n in ("mul", "multiply"):
                        return mul(go(r), go(ps[0]))
                    if n in ("div", "divide", "true_divide"):
                        return mul(go(r), power(go(ps[0]), -1))
        return atom(("t", t.uid))
    return go(t)


def expof(p):
    return atom(("exp", freeze(p))) if p else ONE


def expo(t):
    v = t.args[0]
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise NotAlgebraic("exponent")
    return Fraction(v).limit_denominator(1000)


def branches(t, cond=()):
    """resolve element-wise selections: list of (conditions, term) with
    max/min/clamp/abs decided by the comparisons known in the branch"""
    from .rules import rebuild, subterms
    w = next((x for x in subterms(t) if is_call(x, "where") and not any(x is c for c, _ in cond)), None)
    if w is not None:
        c = get_arg(w, 0, "condition")
        if call_recv(w) is not None and call_recv(w).kind != "module":
            a_, b_ = None, None
            # x.where(cond, other)
            a_, b_ = call_recv(w), get_arg(w, 1, "other")
        else:
            a_, b_ = get_arg(w, 1, "input"), get_arg(w, 2, "other")
        if a_ is None or b_ is None:
            return [(cond, t)]
        out = []
        for pol, val in ((True, a_), (False, b_)):
            if (c, not pol) in cond:
                continue
            t2 = rebuild(t, lambda x: val if x is w else x)
            out += branches(t2, cond if (c, pol) in cond else (*cond, (c, pol)))
        return out
    return [(cond, t)]


def decide_max(t, cond):
    """max/min of two operands ordered by the branch conditions"""
    from .rules import rebuild

    def less(a, b):
        for c, p in cond:
            if c.kind == "cmp" and c.args[0] in ("<", "<="):
                if c.args[1] is a and c.args[2] is b and p:
                    return True
                if c.args[1] is b and c.args[2] is a and not p:
                    return True
            if c.kind == "cmp" and c.args[0] in (">", ">="):
                if c.args[1] is b and c.args[2] is a and p:
                    return True
                if c.args[1] is a and c.args[2] is b and not p:
                    return True
        return False

    def f(x):
        if x.kind == "call" and call_name(x) in ("max", "maximum", "min", "minimum", "clamp"):
            r = call_recv(x)
            ps = list(call_pos(x)) + list(call_kw(x).values())
            if r is not None and r.kind == "module":
                r, ps = ps[0], ps[1:]
            hi = call_name(x) in ("max", "maximum")
            if call_name(x) == "clamp":
                kw = call_kw(x)
                if len(kw) != 1 or call_pos(x):
                    return x
                hi = "min" in kw
                ps = list(kw.values())
            if r is not None and len(ps) == 1:
                o = ps[0]
                if less(r, o):
                    return o if hi else r
                if less(o, r):
                    return r if hi else o
        return x
    return rebuild(t, f)


__all__ = ["expof", "NotAlgebraic", "alg", "add", "mul", "power", "equal", "is_zero", "diff", "num", "atom", "branches", "decide_max", "ONE", "T"]
