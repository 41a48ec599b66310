"""Spaces of the library's variables for the abstract interpreter: entries of a generic
element, the directional derivatives of the entries along the tangent directions (a
perturbation on the right), and points of the space in general position."""
import math
from .algebra import NotAlgebraic, add, atom, mul, num
from .interp import Cls, Obj
from . import tensor as tn
from . import normal as nf

HAT3 = [[(), ((2, -1),), ((1, 1),)], [((2, 1),), (), ((0, -1),)], [((1, -1),), ((0, 1),), ()]]


def hat3(k):
    """rows of the hat matrix of the k-th unit vector"""
    return [[next((c for i, c in e if i == k), 0) for e in row] for row in HAT3]


class Space:
    def __init__(self, kind, n=0):
        self.kind = kind
        self.n = n
        self.dof = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6, "vec": n}[kind]
        self.shape = {"SO2": (2,), "SE2": (4,), "SO3": (3, 3), "SE3": (3, 4), "vec": (n,)}[kind]

    def symbols(self, name, batch, dtype):
        return tn.symbols(name, (batch, *self.shape), dtype)

    def derivation(self, name, b, k):
        """derivative of the entries of element b of `name` along direction k"""
        def at(*i):
            return atom((name, b, *i))
        d = {}
        if self.kind == "vec":
            d[(name, b, k)] = num(1)
        elif self.kind == "SO2":
            d[(name, b, 0)], d[(name, b, 1)] = mul(num(-1), at(1)), at(0)
        elif self.kind == "SE2":
            c, s = at(2), at(3)
            if k == 0:
                d[(name, b, 0)], d[(name, b, 1)] = c, s
            elif k == 1:
                d[(name, b, 0)], d[(name, b, 1)] = mul(num(-1), s), c
            else:
                d[(name, b, 2)], d[(name, b, 3)] = mul(num(-1), s), c
        else:
            rot = k if self.kind == "SO3" else k - 3
            if rot >= 0:
                h = hat3(rot)
                for i in range(3):
                    for j in range(3):
                        f = {}
                        for m in range(3):
                            if h[m][j]:
                                f = add(f, mul(num(h[m][j]), at(i, m)))
                        d[(name, b, i, j)] = f
            else:
                for i in range(3):
                    d[(name, b, i, 3)] = at(i, k)

        def base(key):
            if key in d:
                return d[key]
            return None
        return base

    def velocity(self, rows, drows, b):
        """conditions: list of (derivative entry, [coefficient per tangent component]);
        the derivative of every entry as a linear map of the body velocity"""
        out = []

        def at(*i):
            return rows[(b, *i)]

        def dat(*i):
            return drows[(b, *i)]
        Z = {}
        if self.kind == "vec":
            for i in range(self.n):
                out.append((dat(i), [num(1) if j == i else Z for j in range(self.n)]))
        elif self.kind == "SO2":
            out.append((dat(0), [mul(num(-1), at(1))]))
            out.append((dat(1), [at(0)]))
        elif self.kind == "SE2":
            c, s = at(2), at(3)
            out.append((dat(0), [c, mul(num(-1), s), Z]))
            out.append((dat(1), [s, c, Z]))
            out.append((dat(2), [Z, Z, mul(num(-1), s)]))
            out.append((dat(3), [Z, Z, c]))
        else:
            off = 0 if self.kind == "SO3" else 3
            for i in range(3):
                for j in range(3):
                    co = [Z] * self.dof
                    for k in range(3):
                        h = hat3(k)
                        f = {}
                        for m in range(3):
                            if h[m][j]:
                                f = add(f, mul(num(h[m][j]), at(i, m)))
                        co[off + k] = f
                    out.append((dat(i, j), co))
                if off:
                    out.append((dat(i, 3), [at(i, 0), at(i, 1), at(i, 2), Z, Z, Z]))
        return out

    def point(self, name, b, seed, angle=None, scale=1.0):
        """values of the entries at one point (rotation by `angle`)"""
        r = Rnd(seed)
        w = {}
        if self.kind == "vec":
            v = [r() for _ in range(self.n)]
            for i in range(self.n):
                w[(name, b, i)] = v[i] * scale
            return w
        a = angle if angle is not None else 0.9 + 0.3 * r()
        if self.kind in ("SO2", "SE2"):
            o = 0
            if self.kind == "SE2":
                w[(name, b, 0)], w[(name, b, 1)] = r() * 2, r() * 2
                o = 2
            w[(name, b, o)], w[(name, b, o + 1)] = math.cos(a), math.sin(a)
            return w
        n = r.unit()
        R = rodrigues(n, a)
        for i in range(3):
            for j in range(3):
                w[(name, b, i, j)] = R[i][j]
            if self.kind == "SE3":
                w[(name, b, i, 3)] = r() * 2
        return w

    def tangent_point(self, name, b, seed, angle):
        """tangent vector whose rotation part has the given angle"""
        r = Rnd(seed)
        w = {}
        if self.kind == "vec":
            return self.point(name, b, seed)
        lin = {"SO2": 0, "SE2": 2, "SO3": 0, "SE3": 3}[self.kind]
        for i in range(lin):
            w[(name, b, i)] = r() * 2
        if self.kind in ("SO2", "SE2"):
            w[(name, b, lin)] = angle
        else:
            n = r.unit()
            for i in range(3):
                w[(name, b, lin + i)] = n[i] * angle
        return w


def rodrigues(n, a):
    c, s = math.cos(a), math.sin(a)
    K = [[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]]
    return [[c * (i == j) + (1 - c) * n[i] * n[j] + s * K[i][j] for j in range(3)] for i in range(3)]


class Rnd:
    """fixed sequence of numbers in general position"""

    def __init__(self, seed):
        self.s = (seed * 2654435761 + 12345) & 0x7fffffff

    def __call__(self):
        self.s = (self.s * 1103515245 + 12345) & 0x7fffffff
        v = (self.s >> 8) % 10007 / 10007
        return (0.35 + 0.6 * v) * (1 if self.s >> 20 & 1 else -1)

    def unit(self):
        v = [self(), self(), self()]
        n = math.sqrt(sum(x * x for x in v))
        return [x / n for x in v]


def space_of(p, c):
    """space of a variable class"""
    for k in p.mro(c):
        if k.name in ("SO2", "SE2", "SO3", "SE3"):
            return Space(k.name)
        if k.name == "Point2":
            return Space("vec", 2)
        if k.name == "Point3":
            return Space("vec", 3)
    return None


def variable(it, cls_name, ten, name="v", **kw):
    """object of a variable class holding the tensor (built by its constructor)"""
    c = cls_of(it, cls_name)
    if cls_name in ("SO2", "SE2", "SO3", "SE3"):
        kw = {"disable_checks": True, **kw}
    return it.call(Cls(c), [], {"tensor": ten, "name": name, **kw})


def cls_of(it, name):
    return next(c for c in it.p.all_classes() if c.name == name)


def magnitude(p, w):
    """value and size of the summands"""
    s = m = 0.0
    for mono, c in p.items():
        v = float(c)
        for k, e in mono:
            x = nf.value_atom(k, w)
            try:
                v *= x ** (int(e) if e.denominator == 1 else float(e))
            except (ZeroDivisionError, OverflowError):
                return math.nan, math.inf
            if isinstance(v, complex):
                return math.nan, math.inf
        s += v
        m += abs(v)
    return s, m


def close(p, w, tol=1e-7):
    """the form vanishes at the point"""
    p = nf.reduce(p) if len(p) < 200 else p
    s, m = magnitude(p, w)
    if math.isnan(s):
        return False, s
    if abs(s) <= tol * max(1.0, m):
        return True, s
    e = nf.error(p, w)
    return math.isfinite(e) and abs(s) <= tol * max(1.0, m) + 8 * e, s


__all__ = ["Space", "space_of", "variable", "cls_of", "close", "magnitude", "Rnd", "Obj"]


ANGLES = (1e-8, 1e-5, 1e-3, 7e-3, 2e-2, 0.07, 0.15, 0.5, 1.2, 2.4, math.pi - 0.05, math.pi - 1e-2, math.pi - 1e-5)


def holds(it, decided, w):
    """the comparisons decided during a run come out the same at w"""
    for o, d, v in decided:
        try:
            x = nf.value(d, w)
        except NotAlgebraic:
            return False
        if abs(x) < 1e-12 and abs(v) < 1e-12:
            continue        # a quantity that vanishes, up to rounding
        if not {"<": x < 0, "<=": x <= 0, ">": x > 0, ">=": x >= 0, "==": x == 0, "!=": x != 0}[o] == \
                {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[o]:
            return False
    return True


def borders(it, decided, at, angle):
    """interval of the angle around `angle` in which the decisions do not change
    (up to two percent); at(angle) is the point"""
    def ok(a):
        return holds(it, decided, at(a))
    lo = hi = angle
    while lo > 1e-9 and ok(lo / 2):
        lo /= 2
    a, b = lo / 2, lo
    for _ in range(6):
        m = (a + b) / 2
        a, b = (a, m) if ok(m) else (m, b)
    lo = b
    for _ in range(64):
        n = min(hi * 1.5, (hi + math.pi) / 2)
        if not ok(n) or math.pi - n < 1e-9:
            break
        hi = n
    a, b = hi, min(hi * 1.5, (hi + math.pi) / 2)
    for _ in range(6):
        m = (a + b) / 2
        a, b = (m, b) if ok(m) else (a, m)
    return lo, a
