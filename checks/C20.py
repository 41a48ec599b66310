"""Invalid group data. Constructors, normalization, vee and the group operations are followed on valid elements (symbolic) and on
concrete elements that violate one constraint of the group at a time, in one batch element, by more than the tolerance: refused when
strict, made valid when not, taken as it is only where checks were disabled."""
import math
from sa import cases as C
from sa import geom as g
from sa import normal as nf
from sa import tensor as tn
from sa.geom import cls_of
from sa.interp import Cls, Mod, Raised
from sa.jac import Wrong, attempt, ten_of
from sa.state import accepted, refused, same_entries
from checks.C40 import method_loc

ASSUMPTIONS = ["torch.svd returns a singular value decomposition"]
GROUPS = ("SO2", "SE2", "SO3", "SE3")
DTYPES = ("float64", "float32")


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(c) for c in zip(*A)]


def det(A):
    return (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0])
            + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))


def eigen(S):
    """Jacobi rotations of a symmetric matrix"""
    n = len(S)
    S = [r[:] for r in S]
    V = [[float(i == j) for j in range(n)] for i in range(n)]
    for _ in range(60):
        for p in range(n):
            for q in range(p + 1, n):
                if abs(S[p][q]) < 1e-300:
                    continue
                th = (S[q][q] - S[p][p]) / (2 * S[p][q])
                t = math.copysign(1, th) / (abs(th) + math.sqrt(th * th + 1))
                c = 1 / math.sqrt(t * t + 1)
                s = t * c
                R = [[float(i == j) for j in range(n)] for i in range(n)]
                R[p][p], R[q][q], R[p][q], R[q][p] = c, c, s, -s
                S = mm(tr(R), mm(S, R))
                V = mm(V, R)
    return [S[i][i] for i in range(n)], V


def svd3(M):
    w, V = eigen(mm(tr(M), M))
    order = sorted(range(3), key=lambda i: -w[i])
    V = [[V[i][j] for j in order] for i in range(3)]
    MV = mm(M, V)
    cols, s = [], []
    for j in range(3):
        c = [MV[i][j] for i in range(3)]
        n = math.sqrt(sum(x * x for x in c))
        s.append(n)
        cols.append([x / n for x in c] if n > 1e-9 else None)
    for j in range(3):
        if cols[j] is None:
            for e in range(3):
                c = [float(i == e) for i in range(3)]
                for o in cols:
                    if o is not None:
                        d = sum(a * b for a, b in zip(c, o))
                        c = [a - d * b for a, b in zip(c, o)]
                n = math.sqrt(sum(x * x for x in c))
                if n > 1e-3:
                    cols[j] = [x / n for x in c]
                    break
    return tr(cols), s, V


def numbers(t, w=None):
    d = ten_of(t).arr().data
    return {i: float(v) if isinstance(v, (bool, int, float)) else nf.value(tn.poly(v), w or {}) for i, v in d.items()}


def const(it, rows, dtype):
    return it.torch_fn("tensor", [rows], {"dtype": it.ext("torch." + dtype)})


def svd_hook(it, t, *args, **kw):
    d = numbers(t, it.region.w if hasattr(it.region, "w") else None)
    lead = t.shape[:-2]
    if len(lead) != 1:
        return NotImplemented
    U, S, V = [], [], []
    for b in range(lead[0]):
        u, s, v = svd3([[d[b, i, j] for j in range(3)] for i in range(3)])
        U.append(u), S.append(s), V.append(v)
    dt = t.dtype
    return const(it, U, dt), const(it, S, dt), const(it, V, dt)


class Room:
    """constructors with everything they print or warn about"""

    def __init__(self, a, dtype="float64"):
        self.warned = []

        def warn(it, *args, **kw):
            self.warned.append(str(args[0]) if args else "")
        self.s = C.Setup(a, dtype=dtype, hooks={"warnings.warn": warn, "torch.svd": svd_hook, "torch.linalg.svd": svd_hook})
        self.it, self.dtype = self.s.it, dtype
        ns = self.it.define(CLIENT, "theseus.geometry.manifold")
        self.client = {k: v for k, v in ns.items()}

    def ten(self, rows):
        return const(self.it, rows, self.dtype)

    def build(self, kind, t, **kw):
        return self.it.call(Cls(cls_of(self.it, kind)), [], {"tensor": t, **kw})

    def within(self, how, kind, t, **kw):
        return self.it.call(self.client["within"], [how, Cls(cls_of(self.it, kind)), t], kw)


CLIENT = '''
from theseus.geometry.lie_group_check import (no_lie_group_check, enable_lie_group_check, set_lie_group_check_enabled,
                                              silence_internal_warnings)
import torchlie.functional.check_contexts as cc


def make(cls, t, kw):
    return cls(tensor=t, **kw)


def within(how, cls, t, **kw):
    if how == "disabled":
        with no_lie_group_check():
            return cls(tensor=t, **kw)
    if how == "disabled silently":
        with no_lie_group_check(silent=True):
            return cls(tensor=t, **kw)
    if how == "disabled by mode":
        with set_lie_group_check_enabled(False, silent=True):
            return cls(tensor=t, **kw)
    if how == "enabled inside disabled":
        with no_lie_group_check(silent=True):
            with enable_lie_group_check():
                return cls(tensor=t, **kw)
    if how == "enabled by mode inside disabled":
        with no_lie_group_check(silent=True):
            with set_lie_group_check_enabled(True):
                return cls(tensor=t, **kw)
    if how == "after disabled":
        with no_lie_group_check(silent=True):
            pass
        return cls(tensor=t, **kw)
    if how == "silenced":
        with silence_internal_warnings():
            return cls(tensor=t, **kw)
    if how == "disabled and silenced":
        with no_lie_group_check(silent=True):
            with silence_internal_warnings():
                return cls(tensor=t, **kw)
    raise AssertionError(how)


def call_within(how, fn, *args):
    if how == "enabled":
        return fn(*args)
    with no_lie_group_check(silent=True):
        return fn(*args)


def torchlie_within(fn, *args):
    with cc.enable_checks():
        return fn(*args)
'''


def rot2(t):
    return [math.cos(t), math.sin(t)]


def rot3(seed):
    n = [0.4 + 0.3 * seed, -0.7, 0.2 * seed + 0.5]
    d = math.sqrt(sum(x * x for x in n))
    return [list(r) for r in g.rodrigues([x / d for x in n], 0.9 + 0.2 * seed)]


def element(kind, seed, R=None, q=None):
    """rows of one element; q / R replace its rotation part"""
    if kind == "SO2":
        return q or rot2(0.7 + seed)
    if kind == "SE2":
        return [3.5 - seed, -20.0, *(q or rot2(0.7 + seed))]
    M = R or rot3(seed)
    if kind == "SO3":
        return M
    return [[*M[i], (7.0, -300.0, 0.2)[i]] for i in range(3)]


def broken(kind, size, seed=1):
    """(name, rotation part) violating one constraint by about `size`"""
    if kind in ("SO2", "SE2"):
        c, s = rot2(0.7 + seed)
        return [("too long", [c * (1 + size), s * (1 + size)]), ("too short", [c * (1 - size), s * (1 - size)])]
    R = rot3(seed)
    k = 1 + size
    scale = [[x * k for x in r] for r in R]
    shrink = [[x / k for x in r] for r in R]
    stretch = mm(R, [[k, 0, 0], [0, 1 / k, 0], [0, 0, 1]])
    shear = mm(R, [[1, size, 0], [0, 1, 0], [0, 0, 1]])
    shear2 = mm(R, [[1, 0, 0], [0, 1, 0], [-size, 0, 1]])
    return [("too large", scale), ("too small", shrink), ("stretched, determinant one", stretch), ("sheared, determinant one", shear), ("sheared in the last row", shear2)]


def reflections(kind):
    if kind in ("SO2", "SE2"):
        return []
    R = rot3(1)
    return [("reflected", mm(R, [[1, 0, 0], [0, 1, 0], [0, 0, -1]])), ("reflected twice and once", mm(R, [[-1, 0, 0], [0, -1, 0], [0, 0, -1]]))]


def rows_with(kind, bad, at, batch=2):
    return [element(kind, b + 2, bad, bad) if b == at else element(kind, b + 2) for b in range(batch)]


def invalid(kind):
    """(name, rows, position)"""
    out = []
    for size in (0.3, 0.02):
        for n, m in broken(kind, size):
            for at in (0, 1):
                out.append((f"{n} by {size}, element {at}", rows_with(kind, m, at), at))
    for n, m in reflections(kind):
        for at in (0, 1):
            out.append((f"{n}, element {at}", rows_with(kind, m, at), at))
    if kind in ("SO2", "SE2"):
        out.append(("zero, element 1", rows_with(kind, [0.0, 0.0], 1), 1))
    return out


def rotation_part(kind, d, b):
    if kind == "SO2":
        return [d[b, 0], d[b, 1]]
    if kind == "SE2":
        return [d[b, 2], d[b, 3]]
    return [[d[b, i, j] for j in range(3)] for i in range(3)]


def valid(kind, d, batch, tol):
    for b in range(batch):
        m = rotation_part(kind, d, b)
        if kind in ("SO2", "SE2"):
            if abs(math.hypot(*m) - 1) > tol:
                return f"element {b} has norm {math.hypot(*m):.4g}"
        else:
            P = mm(m, tr(m))
            if any(abs(P[i][j] - (i == j)) > tol for i in range(3) for j in range(3)):
                return f"element {b} is not orthogonal"
            if abs(det(m) - 1) > tol:
                return f"element {b} has determinant {det(m):.4g}"
    return None


def flat(rows):
    return [x for r in rows for x in (flat(r) if isinstance(r, list) else [r])]


def unchanged(w, v, t, what):
    same_entries(what, ten_of(v), t.arr().data)


def construct(a, r, kind, dtype):
    loc = method_loc(a, kind, "__init__")
    tol = 1e-5

    def ok(case):
        def run():
            w = Room(a, dtype)
            t = w.ten([element(kind, 2), element(kind, 3)])
            kw = {"strict_checks": True} if case == "strict" else {}
            v = accepted("a valid element", lambda: w.build(kind, t, **kw))
            unchanged(w, v, t, "a valid element")
            if w.warned:
                raise Wrong(f"a valid element is reported: {w.warned[0][:60]}")
        return run
    for case in ("strict", "lenient"):
        attempt(r, "valid data is taken as it is", f"{kind}/{dtype}/{case}", loc, ok(case))
    for name, rows, at in invalid(kind):
        def strict():
            w = Room(a, dtype)
            refused(w, f"an element that is {name}", lambda: w.build(kind, w.ten(rows), strict_checks=True))

        def lenient():
            w = Room(a, dtype)
            t = w.ten(rows)
            before = dict(t.arr().data)
            v = accepted(f"an element that is {name}, not strict", lambda: w.build(kind, t))
            d = numbers(ten_of(v))
            bad = valid(kind, d, 2, tol)
            if bad:
                raise Wrong(f"an element that is {name} is not made valid: {bad}")
            if not w.warned:
                raise Wrong(f"an element that is {name} is normalized without a warning")
            same_entries("the caller's tensor", t, before)
            for b in range(2):
                if kind in ("SE2", "SE3"):
                    for i in ([(b, 0), (b, 1)] if kind == "SE2" else [(b, j, 3) for j in range(3)]):
                        if abs(d[i] - numbers(t)[i]) > 1e-4 * (1 + abs(d[i])):
                            raise Wrong(f"normalization changes the translation {i}")
                if b != at:
                    x, y = rotation_part(kind, d, b), rotation_part(kind, numbers(t), b)
                    if max(abs(p - q) for p, q in zip(flat(x) if isinstance(x[0], list) else x, flat(y) if isinstance(y[0], list) else y)) > 1e-4:
                        raise Wrong(f"normalization changes the valid element {b}")
        attempt(r, "strict checks refuse", f"{kind}/{dtype}/{name}", loc, strict)
        attempt(r, "invalid data is made valid", f"{kind}/{dtype}/{name}", loc, lenient)

    # inside the tolerance nothing is reported
    tiny = 1e-9 if dtype == "float64" else 1e-6
    for name, m in broken(kind, tiny):
        def near():
            w = Room(a, dtype)
            t = w.ten(rows_with(kind, m, 1))
            v = accepted(f"an element {name} by rounding", lambda: w.build(kind, t, strict_checks=True))
            unchanged(w, v, t, "an element within rounding")
        attempt(r, "valid data is taken as it is", f"{kind}/{dtype}/rounding {name}", loc, near)


def switches(a, r, kind):
    loc = method_loc(a, kind, "__init__")
    name, rows, at = invalid(kind)[1]
    for how, taken, warns in (("disabled", True, True), ("disabled silently", True, False), ("disabled by mode", True, False), ("enabled inside disabled", False, None),
                              ("enabled by mode inside disabled", False, None), ("after disabled", False, None), ("silenced", False, None), ("disabled and silenced", True, None)):
        def run():
            w = Room(a)
            t = w.ten(rows)
            if taken:
                v = accepted(f"invalid data with checks {how}", lambda: w.within(how, kind, t))
                unchanged(w, v, t, f"invalid data with checks {how}")
                if warns is not None and bool(w.warned) != warns:
                    raise Wrong(f"with checks {how}, {'no warning' if warns else 'a warning'} is given")
                v = accepted(f"invalid data with checks {how}, strict", lambda: w.within(how, kind, t, strict_checks=True))
                unchanged(w, v, t, f"invalid data with checks {how}, strict")
            else:
                refused(w, f"invalid data {how}", lambda: w.within(how, kind, t, strict_checks=True))
                v = accepted(f"invalid data {how}, not strict", lambda: w.within(how, kind, t))
                bad = valid(kind, numbers(ten_of(v)), 2, 1e-6)
                if bad:
                    raise Wrong(f"invalid data {how} is not made valid: {bad}")
                if how == "silenced" and w.warned:
                    raise Wrong("internal warnings are not silenced")
        attempt(r, "checks can be switched off and on", f"{kind}/{how}", loc, run)

    def own():
        w = Room(a)
        t = w.ten(rows)
        v = accepted("invalid data with disable_checks", lambda: w.build(kind, t, disable_checks=True))
        unchanged(w, v, t, "invalid data with disable_checks")
        if w.warned:
            raise Wrong("disable_checks warns")
        v = accepted("invalid data with disable_checks and strict_checks", lambda: w.build(kind, t, disable_checks=True, strict_checks=True))
        refused(w, "invalid data after disable_checks", lambda: w.build(kind, t, strict_checks=True))
    attempt(r, "checks can be switched off and on", f"{kind}/disable_checks", loc, own)


def wrong_shapes(kind):
    e = element(kind, 2)
    if kind in ("SO2", "SE2"):
        return [("without a batch", e), ("with one entry more", [e + [0.0]]), ("with one entry less", [e[:-1]]), ("with another dimension", [[e]])]
    out = [("without a batch", e), ("with a column less", [[row[:-1] for row in e]]), ("with a row less", [e[:-1]]), ("with a row more", [e + [e[0]]]), ("with another dimension", [[e]])]
    out.append(("with a column more", [[row + [0.0] for row in e]]))
    return out


def shapes(a, r, kind):
    loc = method_loc(a, kind, "__init__")
    for name, rows in wrong_shapes(kind):
        for strict in (True, False):
            def run():
                w = Room(a)
                refused(w, f"a tensor {name}", lambda: w.build(kind, w.ten(rows), strict_checks=strict))
            attempt(r, "wrong shapes are refused", f"{kind}/{name}{'/strict' if strict else ''}", loc, run)

        def norm():
            w = Room(a)
            refused(w, f"normalizing a tensor {name}", lambda: w.s.do(Cls(cls_of(w.it, kind)), "normalize", w.ten(rows)))
        attempt(r, "wrong shapes are refused", f"{kind}.normalize/{name}", method_loc(a, kind, "normalize"), norm)

        def update():
            w = Room(a)
            v = w.build(kind, w.ten([element(kind, 2), element(kind, 3)]))
            old = ten_of(v)
            refused(w, f"updating with a tensor {name}", lambda: w.s.do(v, "update", w.ten(rows)))
            if ten_of(v) is not old:
                raise Wrong(f"a refused tensor {name} is stored")
        attempt(r, "wrong shapes are refused", f"{kind}.update/{name}", method_loc(a, "Variable", "update"), update)
    other = {"SO2": "theta", "SE2": "x_y_theta", "SO3": "quaternion", "SE3": "x_y_z_quaternion"}[kind]
    width = {"SO2": 1, "SE2": 3, "SO3": 4, "SE3": 7}[kind]

    def both():
        w = Room(a)
        refused(w, f"both tensor and {other}", lambda: w.build(kind, w.ten([element(kind, 2)]), **{other: w.ten([[1.0] * width])}))
    attempt(r, "wrong shapes are refused", f"{kind}/tensor and {other}", loc, both)
    for d in (-1, 1):
        if width + d == 0:
            continue

        def param():
            w = Room(a)
            refused(w, f"{other} with {width + d} columns", lambda: w.it.call(Cls(cls_of(w.it, kind)), [], {other: w.ten([[0.5] * (width + d)] * 2)}),
                    kinds=("ValueError", "RuntimeError"))
        attempt(r, "wrong shapes are refused", f"{kind}/{other} of {width + d}", loc, param)


def parametrised(a, r, kind, dtype):
    """elements built from their parameters satisfy the constraints"""
    loc = method_loc(a, kind, "__init__")
    other = {"SO2": "theta", "SE2": "x_y_theta", "SO3": "quaternion", "SE3": "x_y_z_quaternion"}[kind]
    rows = {"SO2": [[0.3], [-2.9]], "SE2": [[1.0, 2.0, 0.3], [5.0, -3.0, -2.9]], "SO3": [[2.0, 0.3, -0.4, 1.0], [0.1, 0.1, -0.1, 0.05]],
            "SE3": [[1.0, 2.0, 3.0, 2.0, 0.3, -0.4, 1.0], [-5.0, 2.0, 9.0, 0.1, 0.1, -0.1, 0.05]]}[kind]

    def run():
        w = Room(a, dtype)
        v = accepted(f"{other}", lambda: w.it.call(Cls(cls_of(w.it, kind)), [], {other: w.ten(rows)}))
        bad = valid(kind, numbers(ten_of(v)), 2, 1e-6)
        if bad:
            raise Wrong(f"an element built from {other} is not valid: {bad}")
        if ten_of(v).dtype != dtype:
            raise Wrong(f"an element built from {dtype} {other} is {ten_of(v).dtype}")
    attempt(r, "parameters give valid elements", f"{kind}/{other}/{dtype}", loc, run)


def hats(kind):
    if kind == "SO2":
        ok = [[0.0, -0.6], [0.6, 0.0]]
        bad = [("first diagonal", [[0.1, -0.6], [0.6, 0.0]]), ("second diagonal", [[0.0, -0.6], [0.6, 0.1]]), ("symmetric", [[0.0, 0.6], [0.6, 0.0]]),
               ("unequal", [[0.0, -0.6], [0.5, 0.0]])]
        return ok, bad, 1
    if kind == "SE2":
        ok = [[0.0, -0.6, 4.0], [0.6, 0.0, -5.0], [0.0, 0.0, 0.0]]
        bad = []
        for i, j in ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)):
            M = [row[:] for row in ok]
            M[i][j] += 0.1
            bad.append((f"entry {i}{j}", M))
        return ok, bad, 3
    W = [[0.0, -0.3, 0.2], [0.3, 0.0, -0.5], [-0.2, 0.5, 0.0]]

    def skew(i, j, x):
        M = [row[:] for row in W]
        M[i][j] += x
        return M
    ms = [(f"entry {i}{j}", skew(i, j, 0.1)) for i in range(3) for j in range(3)]
    if kind == "SO3":
        return W, ms, 3

    def pad(M, last=(0.0, 0.0, 0.0, 0.0)):
        return [[*M[i], (4.0, -5.0, 6.0)[i]] for i in range(3)] + [list(last)]
    return pad(W), [(n, pad(m)) for n, m in ms] + [(f"last row {i}", pad(W, [0.1 * (i == j) for j in range(4)])) for i in range(4)], 6


def vee(a, r, kind):
    loc = method_loc(a, kind, "vee")
    ok, bad, dof = hats(kind)

    def good():
        w = Room(a)
        t = accepted("the vee of a hat matrix", lambda: w.s.do(Cls(cls_of(w.it, kind)), "vee", w.ten([ok, ok])))
        if tuple(t.shape) != (2, dof):
            raise Wrong(f"vee has shape {tuple(t.shape)}")
    attempt(r, "matrices that are no hats are refused", f"{kind}/hat", loc, good)
    for name, m in bad:
        for at in (0, 1):
            def run():
                w = Room(a)
                refused(w, f"a hat matrix with a wrong {name}", lambda: w.s.do(Cls(cls_of(w.it, kind)), "vee", w.ten([m if b == at else ok for b in range(2)])))
            attempt(r, "matrices that are no hats are refused", f"{kind}/{name}, element {at}", loc, run)

        if kind == "SE2":
            continue     # always checked

        def off():
            w = Room(a)
            accepted("vee with checks disabled", lambda: w.it.call(w.client["call_within"], ["disabled", w.it.getattr(Cls(cls_of(w.it, kind)), "vee"), w.ten([ok, m])], {}))
        attempt(r, "checks can be switched off and on", f"{kind}.vee/{name}", loc, off)


def lie_fns(it, k):
    m = next(v for n, v in it.p.modules.items() if n.endswith("functional." + k.lower() + "_impl"))
    return it.getattr(Mod(m), "_fns")


def functional(a, r, kind):
    """the functional layer checks its operands when its checks are switched on"""
    m = next(v for n, v in a.p.modules.items() if n.endswith("functional." + kind.lower() + "_impl"))
    loc = (m, 1)
    good = [element(kind, 2), element(kind, 3)]
    pts = [[0.3, -0.2, 0.5], [1.0, 0.4, -0.3]]
    act = [[[0.1 * (i + j) for j in range(2)] for i in range(3)]] * 2
    proj = [[[0.1 * (i - 2 * j) for j in range(3 if kind == "SO3" else 4)] for i in range(3)]] * 2
    ok_hat, bad_hats, _ = hats(kind)
    ops = [(n, [], 0) for n in ("log", "adj", "inv", "jlog", "jinv")] + [(n, [pts], 0) for n in ("transform", "untransform", "jtransform", "juntransform")]
    ops += [("compose", [good], 0), ("compose", [good], 1), ("jcompose", [good], 0), ("jcompose", [good], 1), ("left_act", [act], 0), ("left_project", [proj], 0)]
    bads = [next(x for x in invalid(kind) if x[0].startswith(n)) for n in ("too large by 0.02, element 1", "sheared, determinant one by 0.02, element 0", "reflected, element 1")]

    def run_op(w, name, args, enabled):
        f = w.it.getattr(lie_fns(w.it, kind), name)
        args = [w.ten(x) for x in args]
        return w.it.call(w.client["torchlie_within"], [f, *args], {}) if enabled else w.it.call(f, args, {})
    for name, rest, pos in ops:
        def args_with(rows):
            out = [good, *rest]
            out[pos] = rows
            return out

        def okay():
            w = Room(a)
            accepted(f"{name} of valid data", lambda: run_op(w, name, args_with(good), True))
        attempt(r, "operands are checked on request", f"{kind}.{name}/{pos}/valid", loc, okay)
        for bname, rows, at in bads:
            def bad():
                w = Room(a)
                refused(w, f"{name} of data that is {bname}", lambda: run_op(w, name, args_with(rows), True))
                accepted(f"{name} of data that is {bname}, checks off", lambda: run_op(w, name, args_with(rows), False))
            attempt(r, "operands are checked on request", f"{kind}.{name}/{pos}/{bname}", loc, bad)
    for bname, mat in bad_hats:
        def nohat():
            w = Room(a)
            refused(w, f"vee of {bname}", lambda: run_op(w, "vee", [[ok_hat, mat]], True))
        attempt(r, "operands are checked on request", f"{kind}.vee/{bname}", loc, nohat)

    def hat():
        w = Room(a)
        accepted("vee of a hat matrix", lambda: run_op(w, "vee", [[ok_hat, ok_hat]], True))
    attempt(r, "operands are checked on request", f"{kind}.vee/valid", loc, hat)
    if kind == "SO3":
        for f in (1.0, 1.01, 0.99):
            def quat():
                w = Room(a)
                q = [[0.5, 0.5, -0.5, 0.5], [0.5 * f, 0.5 * f, -0.5 * f, 0.5 * f]]
                for name in ("quaternion_to_rotation", "jquaternion_to_rotation"):
                    if f == 1.0:
                        accepted(f"{name} of a unit quaternion", lambda: run_op(w, name, [q], True))
                    else:
                        refused(w, f"{name} of norm {f}", lambda: run_op(w, name, [q], True))
                        accepted(f"{name} of norm {f}, checks off", lambda: run_op(w, name, [q], False))
            attempt(r, "operands are checked on request", f"{kind}.quaternion/{f}", loc, quat)
    tangent = 3 if kind == "SO3" else 6
    for name, args in (("exp", [[[0.1] * (tangent + 1)]]), ("exp", [[[0.1] * (tangent - 1)]]), ("hat", [[[0.1] * (tangent + 1)]]), ("log", [[[[0.0] * 3] * 2]]),
                       ("inv", [[[[0.0] * 5] * 3]]), ("vee", [[[[0.0] * 3] * 4]]), ("transform", [good, [[0.1] * 4]]), ("lift", [[[0.1] * (tangent + 1)]]),
                       ("project", [[[[0.0] * 5] * 3]]), ("left_act", [good, [[[0.1] * 2] * 2] * 2]), ("left_project", [good, [[[0.1] * 5] * 3] * 2])):
        for enabled in (True, False):
            def shape():
                w = Room(a)
                refused(w, f"{name} of another shape", lambda: run_op(w, name, args, enabled))
            attempt(r, "wrong shapes are refused", f"{kind}.{name}/{len(args[-1][0])}{'/on' if enabled else ''}", loc, shape)


MANY = 24


def crowd(a, r, kind, dtype):
    """a batch is refused exactly when one of its elements is"""
    good = [element(kind, 2 + b) for b in range(MANY)]
    ladder = [m * 10.0 ** -e for e in range(1, 10 if dtype == "float64" else 7) for m in (3, 1)]
    ops = [("construction", lambda w, rows: w.build(kind, w.ten(rows), strict_checks=True), good,
            [(name, [element(kind, 5, dict(broken(kind, s))[name], dict(broken(kind, s))[name]) for s in ladder]) for name, _ in broken(kind, 0.1)], method_loc(a, kind, "__init__"))]
    ok, bad, _ = hats(kind)

    def off(m, f):
        return [[x + f * 10 * (y - x) for x, y in zip(u, v)] for u, v in zip(ok, m)]
    places = [(name, [off(m, s) for s in ladder]) for name, m in bad if abs(sum(flat(m)) - sum(flat(ok))) < 0.2][::4]
    ops.append(("vee", lambda w, rows: w.s.do(Cls(cls_of(w.it, kind)), "vee", w.ten(rows)), [ok] * MANY, places, method_loc(a, kind, "vee")))
    if kind == "SO3":
        quat = [0.5, 0.5, -0.5, 0.5]
        ops.append(("quaternion", lambda w, rows: w.it.call(w.client["torchlie_within"], [w.it.getattr(lie_fns(w.it, kind), "quaternion_to_rotation"), w.ten(rows)], {}), [quat] * MANY,
                    [("norm", [[x * (1 + s) for x in quat] for s in ladder])], method_loc(a, kind, "__init__")))
    for what, op, well, offenders, loc in ops:
        for name, ms in offenders:
            def run():
                def refuses(rows):
                    w = Room(a, dtype)
                    try:
                        op(w, rows)
                    except Raised as ex:
                        if ex.name != "ValueError":
                            raise
                        return True
                    return False
                alone = [refuses([m]) for m in ms]
                if not alone[0] or alone[-1]:
                    return      # no tolerance in this range: other rules look at the ends
                last = max(i for i, x in enumerate(alone) if x)
                for at in (0, MANY - 1):
                    if not refuses([ms[last] if b == at else x for b, x in enumerate(well)]):
                        raise Wrong(f"{what} of an element that is refused ({name} by {ladder[last]:.0e}) is accepted as element {at} among {MANY} valid ones")
                if last + 1 < len(ms) and refuses([ms[last + 1]] * MANY):
                    raise Wrong(f"{what} of an element that is accepted ({name} by {ladder[last + 1]:.0e}) is refused in a batch of {MANY} of them")
            attempt(r, "every element of a batch is judged by itself", f"{kind}.{what}/{dtype}/{name}", loc, run)


def check(a, r):
    r.assumptions = ASSUMPTIONS
    jobs = []
    for k in GROUPS:
        jobs += [(construct, (k, d)) for d in DTYPES] + [(switches, (k,)), (shapes, (k,))] + [(parametrised, (k, d)) for d in DTYPES]
        jobs.append((vee, (k,)))
        jobs += [(crowd, (k, d)) for d in DTYPES]
        if k in ("SO3", "SE3"):
            jobs.append((functional, (k,)))
    r.parallel(a, jobs)
