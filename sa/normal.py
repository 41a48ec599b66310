"""Normal forms used by the abstract interpreter (sa.interp) on top of sa.algebra:
relations between atoms (angles, unit vectors), substitution, derivations and the
sign of an expression in the region of the input space an analysis is about
(a region is named by the values of the base atoms at one of its points)."""
import math
from fractions import Fraction
from . import algebra as al
from .algebra import NotAlgebraic, add, atom, freeze, mul, num

ZERO, ONE = {}, num(1)
DERIVED = ("sin", "cos", "exp", "log", "atan2", "atan", "asin", "acos", "tan", "sum", "num", "floor", "abs", "tanh", "sinh", "cosh")


def const_of(p):
    """value of a constant form, or None"""
    if not p:
        return Fraction(0)
    if len(p) == 1 and () in p:
        return p[()]
    return None


def unit_rules(p):
    """third component of a unit vector squared = 1 - the others squared"""
    for _ in range(60):
        hit = None
        for m in p:
            for k, e in m:
                if k[0] == "unit" and k[-1] == 2 and e >= 2 and Fraction(e).denominator == 1:
                    hit = k
                    break
            if hit:
                break
        if hit is None:
            return p
        a, b = atom((*hit[:-1], 0)), atom((*hit[:-1], 1))
        sq = add(add(ONE, mul(a, a), -1), mul(b, b), -1)
        pows = {0: ONE}
        for i in range(1, 20):
            pows[i] = None
        out = {}
        for m, c in p.items():
            d = dict(m)
            e = d.get(hit, 0)
            if e >= 2 and Fraction(e).denominator == 1:
                h, e = int(e) // 2, int(e) % 2
                del d[hit]
                if e:
                    d[hit] = e
                q = {tuple(sorted(d.items(), key=al.rank_of)): c}
                for i in range(1, h + 1):
                    if pows[i] is None:
                        pows[i] = mul(pows[i - 1], sq)
                out = add(out, mul(q, pows[h]))
            else:
                out = add(out, {m: c})
        p = out
    return p


def reduce(p):
    if any(k[0] == "unit" for m in p for k, _ in m):
        p = unit_rules(p)
    return al.trig(p)


def is_zero(p):
    p = reduce(p)
    for _ in range(8):
        if not p:
            return True
        has = any(k[0] == "sum" for m in p for k, _ in m)
        if not has:
            return not reduce(p)
        # clear one sum, reduce again
        ks = {}
        for m in p:
            for k, e in m:
                if k[0] == "sum":
                    ks.setdefault(k, None)
        k = next(iter(ks))
        full = [dict(m).get(k, Fraction(0)) for m in p]
        lo = min(full)
        if any((e - lo).denominator != 1 for e in full):
            parts = {}
            for m, c in p.items():
                parts.setdefault((dict(m).get(k, Fraction(0)) - lo) % 1, {})[m] = c
            return all(is_zero(q) for q in parts.values())
        base = dict(k[1])
        out, pows = {}, {0: ONE}
        for m, c in p.items():
            d = dict(m)
            e = int(d.pop(k, Fraction(0)) - lo)
            for i in range(1, e + 1):
                if i not in pows:
                    pows[i] = reduce(mul(pows[i - 1], base))
            out = add(out, mul({tuple(sorted(d.items(), key=al.rank_of)): c}, pows[e]))
        p = reduce(out)
    return al.is_zero(p)


def value(p, w):
    """value at the point w (base atom key -> number)"""
    s = 0.0
    for m, c in p.items():
        v = float(c)
        for k, e in m:
            x = value_atom(k, w)
            if e == 1:
                v *= x
            else:
                try:
                    v *= x ** (int(e) if e.denominator == 1 else float(e))
                except (ZeroDivisionError, OverflowError):
                    v = math.inf
                if isinstance(v, complex):
                    raise NotAlgebraic("root of a negative number")
        s += v
    return s


EPS = 2.3e-16


def error(p, w):
    """bound (first order) of the rounding error of value(p, w)"""
    total = 0.0
    for m, c in p.items():
        v, rel = abs(float(c)), EPS * (len(m) + len(p) + 1)
        for k, e in m:
            x = value_atom(k, w)
            if x == 0:
                v = 0.0 if e > 0 else math.inf
                break
            try:
                v *= abs(x) ** float(e)
            except OverflowError:
                return math.inf
            rel += abs(float(e)) * error_atom(k, w) / abs(x)
        total += v * rel if v else 0.0
    return total


def error_atom(k, w):
    n = k[0]
    if n not in ("let", "stop", "chol", "inv", "sum", "sin", "cos", "exp", "log", "atan", "asin", "acos", "tan", "tanh", "sinh", "cosh", "abs", "atan2"):
        return 0.0
    key = ("error", k)
    if key in w:
        return w[key]
    x = value_atom(k, w)
    if n == "let":
        out = error(LETS[k], w)
    elif n in ("chol", "inv"):
        out = 1e-13 * max(1.0, abs(x))
    elif n == "atan2":
        y, z = (value(dict(q), w) for q in k[1:3])
        out = (abs(y) * error(dict(k[2]), w) + abs(z) * error(dict(k[1]), w)) / max(y * y + z * z, 1e-300) + EPS * abs(x)
    else:
        a = dict(k[1])
        d = error(a, w)
        if n in ("exp", "sinh", "cosh", "log", "asin", "acos", "tan"):
            z = value(a, w)
            d *= {"exp": abs(x), "sinh": math.cosh(z) if n == "sinh" else 0, "cosh": abs(math.sinh(z)) if n == "cosh" else 0,
                  "log": 1 / max(abs(z), 1e-300) if n == "log" else 0, "tan": 1 + x * x,
                  "asin": 1 / math.sqrt(max(1 - z * z, 1e-16)) if n in ("asin", "acos") else 0,
                  "acos": 1 / math.sqrt(max(1 - z * z, 1e-16)) if n in ("asin", "acos") else 0}[n]
        out = d + EPS * abs(x)
    w[key] = out
    return out


LETS = {}
CHOL = {}
INV = {}


def cholesky(m):
    n = len(m)
    out = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = m[i][j] - sum(out[i][k] * out[j][k] for k in range(j))
            if i == j:
                if s <= 0:
                    raise NotAlgebraic("matrix is not positive definite")
                out[i][i] = math.sqrt(s)
            else:
                out[i][j] = s / out[j][j]
    return out


def invert(m):
    """numeric inverse"""
    n = len(m)
    a = [list(r) + [float(i == j) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        k = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[k][c]) < 1e-300:
            raise NotAlgebraic("singular matrix")
        a[c], a[k] = a[k], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c]:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def inverse_of(rows):
    """entries of the inverse of a matrix of forms, as names"""
    m = tuple(freeze(x) for r in rows for x in r)
    k = INV.get(m)
    if k is None:
        k = INV[m] = len(INV)
        INV[k] = [list(r) for r in rows]
    n = len(rows)
    return [[atom(("inv", k, i, j)) for j in range(n)] for i in range(n)]


def cut(p, lim):
    """large form as a name for itself"""
    if len(p) <= lim:
        return p
    f = freeze(p)
    k = LETS.get(f)
    if k is None:
        k = LETS[f] = ("let", len(LETS))
        LETS[k] = p
    return atom(k)


def value_atom(k, w):
    if k in w:
        return w[k]
    n = k[0]
    if n == "inf":
        return 1e30
    if n == "stop":
        return value(dict(k[1]), w)
    if n == "let":
        v = w[k] = value(LETS[k], w)
        return v
    if n == "chol":
        key = ("cholesky", k[1])
        if key not in w:
            w[key] = cholesky([[value(x, w) for x in row] for row in CHOL[k[1]]])
        return w[key][k[2]][k[3]]
    if n == "inv":
        key = ("inverse", k[1])
        if key not in w:
            w[key] = invert([[value(x, w) for x in row] for row in INV[k[1]]])
        return w[key][k[2]][k[3]]
    if n == "sum":
        return value(dict(k[1]), w)
    if n == "num":
        return float(k[1])
    if n in ("sin", "cos", "exp", "log", "atan", "asin", "acos", "tan", "tanh", "sinh", "cosh") and len(k) == 2:
        return getattr(math, n)(value(dict(k[1]), w))
    if n == "floor" and len(k) == 2:
        return math.floor(value(dict(k[1]), w))
    if n == "abs" and len(k) == 2:
        return abs(value(dict(k[1]), w))
    if n == "atan2":
        return math.atan2(value(dict(k[1]), w), value(dict(k[2]), w))
    raise NotAlgebraic(f"no value for {k}")


def sin_cos(p, depth=0):
    """(sin, cos) of a form: sums and integer multiples expanded"""
    p = reduce(p)
    c = const_of(p)
    if c is not None and c == 0:
        return ZERO, ONE
    terms = sorted(p.items(), key=lambda x: al.order(x[0]))
    if len(terms) > 4:
        return atom(("sin", freeze(p))), atom(("cos", freeze(p)))
    out = (ZERO, ONE)
    for m, c in terms:
        neg = c < 0
        c = abs(c)
        n = int(c) if c.denominator == 1 and 1 <= c <= 8 and m else 1
        base = {m: al.small(Fraction(c) / n)}
        s, k = atom(("sin", freeze(base))), atom(("cos", freeze(base)))
        rs, rk = ZERO, ONE
        for _ in range(n):
            rs, rk = add(mul(rs, k), mul(rk, s)), add(mul(rk, k), mul(rs, s), -1)
        if neg:
            rs = mul(num(-1), rs)
        out = add(mul(out[0], rk), mul(out[1], rs)), add(mul(out[1], rk), mul(out[0], rs), -1)
    return reduce(out[0]), reduce(out[1])


def angles(*ps):
    out = []

    def go(p):
        for m in p:
            for k, _ in m:
                if k[0] in ("sin", "cos") and len(k) == 2 and k[1] not in out:
                    out.append(k[1])
                if k[0] in ("sum", "sin", "cos") and len(k) == 2:
                    go(dict(k[1]))
    for p in ps:
        go(p)
    return out


def near_zero(v):
    return abs(v) <= 1e-24


class Region:
    """part of the input space around one point"""

    def __init__(self, w=None):
        self.w = {} if w is None else w
        self.decided = []
        self.strict = False     # constants (differences that cancel) count as well
        self.watch = None       # told of every operation applied where its value or derivative is infinite

    def singular(self, what, p, bad):
        """tells watch when bad(value of p) holds"""
        if self.watch is not None and (self.strict or const_of(p) is None) and bad(self.value(p)):
            self.watch(what, p)

    def value(self, p):
        c = const_of(p)
        if c is not None:
            return float(c)
        return value(p, self.w)

    def sign(self, p):
        v = self.value(p)
        return (v > 0) - (v < 0)

    # ---------------------------------------------------------- functions
    def power(self, p, e):
        e = Fraction(e)
        if self.watch is not None and e < 1 and e != 0:
            self.singular("division by a quantity that is zero" if e < 0 else "root of a quantity that is zero", reduce(p), near_zero)
        if not p:
            if e > 0:
                return {}
            raise NotAlgebraic("division by zero")
        if e.denominator == 1 and 0 <= e <= 6:
            return al.power(p, e)
        p = reduce(p)
        if not p:
            if e > 0:
                return {}
            raise NotAlgebraic("division by zero")
        if e.denominator == 2:
            sq = perfect(p)
            if sq is not None:
                return self.power(self.abs(sq), 2 * e)
        try:
            out = al.power(p, e)
        except NotAlgebraic:
            if len(p) > 1 or self.value(p) <= 0:
                raise
            # a negative multiple of a negative atom
            return atom(("sum", freeze(p)), e)
        if e.denominator == 2:
            try:
                if self.value(out) < 0:
                    out = mul(num(-1), out)
            except NotAlgebraic:
                # an odd power of a negative atom: take the sum as one atom
                out = atom(("sum", freeze(p)), e)
        return out

    def abs(self, p):
        c = const_of(p)
        if c is not None:
            return num(abs(c))
        v = self.value(p)
        self.decided.append((">=", p, v))
        return p if v >= 0 else mul(num(-1), p)

    def between(self, p, v):
        """record the unit cell of a value turned into an integer"""
        lo = math.floor(v)
        self.decided.append((">=", add(p, num(lo), -1), v - lo))
        self.decided.append(("<", add(p, num(lo + 1), -1), v - lo - 1))

    def fn(self, name, p):
        p = reduce(p)
        c = const_of(p)
        if self.watch is not None and name in ("acos", "asin", "log"):
            self.singular(f"{name} at the end of its domain", p, near_zero if name == "log" else lambda v: abs(v) >= 1 - 1e-15)
        if name == "sin":
            return sin_cos(p)[0]
        if name == "cos":
            return sin_cos(p)[1]
        if name == "tan":
            s, k = sin_cos(p)
            return mul(s, self.power(k, -1))
        if name == "abs":
            return self.abs(p)
        if name == "sign":
            v = self.value(p)
            self.decided.append((">" if v > 0 else "<" if v < 0 else "==", p, v))
            return num((v > 0) - (v < 0))
        if name in ("floor", "ceil", "trunc"):
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": int}[name]
            if c is not None:
                return num(f(c))
            v = self.value(p)
            self.between(p, v)
            return num(f(v))
        if name == "exp":
            return al.expof(p)
        if name == "log" and c == 1:
            return {}
        if name == "sqrt":
            return self.power(p, Fraction(1, 2))
        if name in ("acos", "asin"):
            for a in angles(p):
                s, k = sin_cos(dict(a))
                t = value(dict(a), self.w)
                if name == "acos" and is_zero(add(p, k, -1)) and 0 <= t <= math.pi:
                    return dict(a)
                if name == "asin" and is_zero(add(p, s, -1)) and abs(t) <= math.pi / 2:
                    return dict(a)
        return atom((name, freeze(p)))

    def atan2(self, y, x):
        y, x = reduce(y), reduce(x)
        cy, cx = const_of(y), const_of(x)
        if self.watch is not None and near_zero(self.value(x)):
            self.singular("atan2 of two zeros", y, near_zero)
        if cy == 0 and (cx if cx is not None else self.value(x)) > 0:
            return {}
        v = None
        for a in angles(y, x):
            for n in (1, 2):
                ang = mul(num(n), dict(a))
                s, k = sin_cos(ang)
                if is_zero(add(mul(y, k), mul(x, s), -1)):
                    v = math.atan2(self.value(y), self.value(x))
                    t = self.value(ang)
                    d = (v - t) / math.pi
                    if abs(d - round(d)) < 1e-6:
                        if round(d) == 0:
                            return ang
                        return add(ang, num(Fraction(round(d)) * PI))
        return atom(("atan2", freeze(y), freeze(x)))

    def rebuild(self, p, env):
        """substitute forms for base atoms, through every function"""
        out = {}
        memo = self.__dict__.setdefault("_rb", {}).setdefault(id(env), {})
        for m, c in p.items():
            q = {(): c}
            for k, e in m:
                x = memo.get(k)
                if x is None:
                    x = memo[k] = self.rebuild_atom(k, env)
                q = mul(q, self.power(x, e) if x != atom(k) else atom(k, e))
            out = add(out, q)
        return reduce(out)

    def rebuild_atom(self, k, env):
        if k in env:
            return env[k]
        n = k[0]
        if n == "sum":
            return self.rebuild(dict(k[1]), env)
        if n == "let":
            return self.rebuild(LETS[k], env)
        if n in ("sin", "cos", "exp", "log", "atan", "asin", "acos", "tan", "tanh", "sinh", "cosh") and len(k) == 2 and isinstance(k[1], tuple):
            return self.fn(n, self.rebuild(dict(k[1]), env))
        if n == "atan2" and len(k) == 3:
            return self.atan2(self.rebuild(dict(k[1]), env), self.rebuild(dict(k[2]), env))
        return atom(k)


PI = Fraction(math.pi).limit_denominator(10**12)


def perfect(p):
    """q with q*q == p for p a monomial, or a two-variable square, else None"""
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(e.denominator == 1 and int(e) % 2 == 0 for _, e in m):
            r = al.cpow(c, Fraction(1, 2))
            if const_of(r) is not None:
                return mul(r, {tuple((k, al.small(Fraction(e) / 2)) for k, e in m): 1})
    return None


def derive(p, base):
    """derivation given on the base atoms: base(key) -> form (or None: constant)"""
    memo = {}

    def datom(k):
        if k in memo:
            return memo[k]
        memo[k] = r = _datom(k)
        return r

    def _datom(k):
        b = base(k)
        if b is not None:
            return b
        n = k[0]
        if n == "sum":
            return go(dict(k[1]))
        if n == "let":
            return cut(go(LETS[k]), 30)
        if n in ("num", "floor", "sign", "stop", "inf"):
            return {}
        if n == "inv":
            m = INV[k[1]]
            r, out = range(len(m)), {}
            for p in r:
                for q in r:
                    d = go(m[p][q])
                    if d:
                        out = add(out, mul(mul(atom(("inv", k[1], k[2], p)), d), atom(("inv", k[1], q, k[3]))), -1)
            return cut(out, 30)
        if n in ("sin", "cos", "exp", "log", "atan", "asin", "acos", "tan", "tanh", "sinh", "cosh", "abs") and len(k) == 2 and isinstance(k[1], tuple):
            a = dict(k[1])
            d = go(a)
            if not d:
                return {}
            if n == "sin":
                return mul(d, atom(("cos", k[1])))
            if n == "cos":
                return mul(num(-1), mul(d, atom(("sin", k[1]))))
            if n == "exp":
                return mul(d, atom(k))
            if n == "log":
                return mul(d, al.power(a, -1))
            if n == "tan":
                return mul(d, add(ONE, atom(k, 2)))
            if n == "atan":
                return mul(d, al.power(add(ONE, mul(a, a)), -1))
            if n in ("asin", "acos"):
                r = al.power(add(ONE, mul(a, a), -1), Fraction(-1, 2))
                return mul(d, r if n == "asin" else mul(num(-1), r))
            if n == "tanh":
                return mul(d, add(ONE, atom(k, 2), -1))
            if n == "sinh":
                return mul(d, atom(("cosh", k[1])))
            if n == "cosh":
                return mul(d, atom(("sinh", k[1])))
            raise NotAlgebraic(n)
        if n == "atan2" and len(k) == 3:
            y, x = dict(k[1]), dict(k[2])
            dy, dx = go(y), go(x)
            if not dy and not dx:
                return {}
            q = al.power(add(mul(x, x), mul(y, y)), -1)
            return mul(q, add(mul(x, dy), mul(y, dx), -1))
        return {}

    def go(p):
        out = {}
        for m, c in p.items():
            for i, (k, e) in enumerate(m):
                dk = datom(k)
                if not dk:
                    continue
                rest = al.mmul(m[:i] + m[i + 1:], ((k, e - 1),) if e != 1 else ())
                out = add(out, mul({rest: c * e}, dk))
        return out
    return go(p)
