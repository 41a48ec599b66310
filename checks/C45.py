"""Signed distance fields. The distance and its gradient computed for a query point are extracted from the
source as algebraic normal forms over the symbolic field, origin, cell size and point (abstract
interpretation, comparisons and cell indices decided per region of the plane) and compared, cell by cell,
with the bilinear interpolant of the four corner values of that cell and its gradient; outside the grid
the boundary value and a zero gradient are required."""
from sa import cases as C
from sa import geom as g
from sa import jac
from sa import tensor as tn
from sa.algebra import add, atom, mul, num, power
from sa.interp import Cls
from sa.jac import Wrong, attempt
from checks.C40 import method_loc

ASSUMPTIONS = ["real arithmetic; rounding is not modelled", "one query per cell and side represents its region"]
ROWS, COLS = 3, 4
ORIGIN, CELL = (-0.7, 0.4), 0.5


def build(a, bs, bp, points, dtype="float64", construct="init"):
    s = C.Setup(a, dtype)
    for b in range(bs):
        s.w.update({("o", b, 0): ORIGIN[0] + 0.01 * b, ("o", b, 1): ORIGIN[1] - 0.01 * b, ("c", b, 0): CELL + 0.001 * b})
        rr = g.Rnd(11 + b)
        s.w.update({("f", b, i, j): rr() for i in range(ROWS) for j in range(COLS)})
    o, c, f = (tn.symbols(n, sh, dtype) for n, sh in (("o", (bs, 2)), ("c", (bs, 1)), ("f", (bs, ROWS, COLS))))
    it = s.it
    V = Cls(g.cls_of(it, "Variable"))
    if construct == "tensors":
        sdf = s.new("SignedDistanceField2D", o, c, f)
    else:
        args = [g.variable(it, "Point2", o, "o"), it.call(V, [c], {"name": "c"}), it.call(V, [f], {"name": "f"})]
        if construct == "update":
            other = [tn.symbols(n + "0", t.shape, dtype) for n, t in (("o", o), ("c", c))]
            sdf = s.new("SignedDistanceField2D", g.variable(it, "Point2", other[0], "o0"), it.call(V, [other[1]], {}),
                        it.call(V, [tn.symbols("f0", (bs, 2, 2), dtype)], {}))
            s.do(sdf, "update_data", args[0], args[2], args[1])
        else:
            sdf = s.new("SignedDistanceField2D", *args)
    n = len(points)
    p = tn.symbols("p", (bp, 2, n), dtype)
    for b in range(bp):
        for k, (x, y) in enumerate(points):
            s.w[("p", b, 0, k)] = ORIGIN[0] + x * CELL
            s.w[("p", b, 1, k)] = ORIGIN[1] + y * CELL
    return s, sdf, p


def expected(b, bs, k, w):
    """(distance, d/dx, d/dy) of query k of batch element b, or None outside"""
    fb = b if bs > 1 else 0
    a = {n: atom((n, fb, *i)) for n, i in ()}
    a = atom(("c", fb, 0))
    col = mul(add(atom(("p", b, 0, k)), atom(("o", fb, 0)), -1), power(a, -1))
    row = mul(add(atom(("p", b, 1, k)), atom(("o", fb, 1)), -1), power(a, -1))
    from sa import normal as nf
    cv, rv = nf.value(col, w), nf.value(row, w)
    if not (0 <= cv <= COLS - 1 and 0 <= rv <= ROWS - 1):
        return None
    c0, r0 = min(int(cv), COLS - 2), min(int(rv), ROWS - 2)

    def F(r, c):
        return atom(("f", fb, r0 + r, c0 + c))
    u, v = add(col, num(c0), -1), add(row, num(r0), -1)
    u1, v1 = add(num(1), u, -1), add(num(1), v, -1)
    d = add(add(mul(mul(v1, u1), F(0, 0)), mul(mul(v, u1), F(1, 0))), add(mul(mul(v1, u), F(0, 1)), mul(mul(v, u), F(1, 1))))
    dx = add(mul(v1, add(F(0, 1), F(0, 0), -1)), mul(v, add(F(1, 1), F(1, 0), -1)))
    dy = add(mul(u1, add(F(1, 0), F(0, 0), -1)), mul(u, add(F(1, 1), F(0, 1), -1)))
    inv = power(a, -1)
    return d, mul(dx, inv), mul(dy, inv)


def query(a, r, name, bs, bp, points, construct, gradient=True):
    def run():
        s, sdf, p = build(a, bs, bp, points, construct=construct)
        d, J = s.do(sdf, "signed_distance", p)
        B = max(bs, bp)
        if tuple(d.shape) != (B, len(points)) or tuple(J.shape) != (B, len(points), 2):
            raise Wrong(f"distance of shape {tuple(d.shape)} and gradient of shape {tuple(J.shape)} for {len(points)} points of batch {B}")
        e, j = jac.entries(d), jac.entries(J)
        bv = s.it.getattr(sdf, "sdf_boundary_value") if hasattr_(s.it, sdf, "sdf_boundary_value") else 0.0
        for b in range(B):
            for k, (x, y) in enumerate(points):
                w = dict(s.w)
                if bp == 1 and b:
                    continue
                exp = expected(b, bs, k, w)
                got = (e[b, k], j[b, k, 0], j[b, k, 1])
                if exp is None:
                    exp = (num(bv), {}, {})
                for what, u, v in list(zip(("distance", "gradient along x", "gradient along y"), got, exp))[:3 if gradient else 1]:
                    bad = jac.vanish([(0, add(tn.poly(u), v, -1))], [w])
                    if bad:
                        raise Wrong(f"{what} at column {x:g}, row {y:g} of the grid (batch element {b}) is off by {bad[1]:.3g}")
    attempt(r, "interpolation", name, method_loc(a, "SignedDistanceField2D", "signed_distance"), run)


MAPS = {
    "corner": ["#...", "....", "...."], "column": [".#..", ".#..", ".#.."], "blocks": ["##..", "##..", "...#"],
    "hole": ["###.", "#.#.", "###."], "all but one": ["####", "###.", "####"], "tall": ["..", ".#", "..", "..", "##"], "large": ["......", ".####.", ".####.", ".####.", "......"],
    "nothing": ["....", "....", "...."], "nothing, tall": ["..", "..", "..", "..", ".."],
}


def distances(rows, norm=None):
    """distance of every cell which is not 0 to the nearest 0, as scipy's distance_transform_edt"""
    norm = norm or (lambda x, y: (x * x + y * y) ** 0.5)
    zero = [(i, j) for i, row in enumerate(rows) for j, v in enumerate(row) if not v]
    if not zero:
        raise jac.Unknown("no background")
    return [[0.0 if not v else min(norm(i - p, j - q) for p, q in zero) for j, v in enumerate(row)] for i, row in enumerate(rows)]


NORMS = {"distance_transform_edt": None, "distance_transform_cdt": lambda x, y: max(abs(x), abs(y))}


def transform(name):
    return lambda it, t, *a, **kw: transformed(t, NORMS[name], a, kw)


def transformed(t, norm, a, kw):
    if a or kw:
        raise jac.Unknown("options of the distance transform")
    e = jac.entries(t)
    from sa import normal as nf
    rows = [[nf.value(tn.poly(e[i, j]), {}) for j in range(t.shape[1])] for i in range(t.shape[0])]
    return tn.of_rows([[num(x) for x in row] for row in distances(rows, norm)], "float64")


def occupancy(a, r, names, threshold, cells, how):
    def run():
        s = C.Setup(a, "float64", hooks={"scipy.ndimage." + n: transform(n) for n in NORMS})
        maps = [MAPS[n] for n in names]
        t = 0.75 if threshold is None else threshold
        full, free = t + 0.125, t - 0.125
        # one cell exactly at the threshold: it is not above
        data = [[[num(full if ch == "#" else free) for ch in row] for row in m] for m in maps]
        for m, d in zip(maps, data):
            i, j = next((i, j) for i, row in enumerate(m) for j, ch in enumerate(row) if ch == ".")
            d[i][j] = num(t)
        bs, rows, cols = len(maps), len(maps[0]), len(maps[0][0])
        occ = tn.of_rows(data, "float64")
        o = tn.symbols("o", (bs, 2), "float64")
        s.w.update({("o", b, k): 0.1 + k for b in range(bs) for k in range(2)})
        c = tn.of_rows([[num(x)] for x in cells], "float64")
        if how == "variable":
            V = Cls(g.cls_of(s.it, "Variable"))
            occ, c = s.it.call(V, [occ], {"name": "occ"}), s.it.call(V, [c], {"name": "cell"})
        kw = {} if threshold is None else {"occupancy_threshold": threshold}
        sdf = s.new("SignedDistanceField2D", o, c, occupancy_map=occ, **kw)
        got = s.it.getattr(s.it.getattr(sdf, "sdf_data"), "tensor")
        if tuple(got.shape) != (bs, rows, cols):
            raise Wrong(f"the field of {bs} maps of {rows} rows and {cols} columns has shape {tuple(got.shape)}")
        e = jac.entries(got)
        for b, m in enumerate(maps):
            size = cells[b if len(cells) > 1 else 0]
            occd = [[ch == "#" for ch in row] for row in m]
            if any(x for row in occd for x in row):
                out, inn = distances([[not x for x in row] for row in occd]), distances(occd)
                want = [[(p - q) * size for p, q in zip(x, y)] for x, y in zip(out, inn)]
            else:
                want = [[2 * size * max(rows, cols)] * cols for _ in range(rows)]
            for i in range(rows):
                for j in range(cols):
                    bad = jac.vanish([(0, add(tn.poly(e[b, i, j]), num(want[i][j]), -1))], [s.w])
                    if bad:
                        raise Wrong(f"the field of map {b} ({names[b]}) at row {i}, column {j} is off by {bad[1]:.3g}")
    attempt(r, "occupancy map", f"{', '.join(names)}; {'default threshold' if threshold is None else f'threshold {threshold}'}; {len(cells)} cell sizes, {how}",
            method_loc(a, "SignedDistanceField2D", "__init__"), run)


def hasattr_(it, o, name):
    try:
        it.getattr(o, name)
        return True
    except Exception:
        return False


def check(a, r):
    inside = [(c + 0.3, q + 0.8) for c in range(COLS - 1) for q in range(ROWS - 1)] + [(1.9, 0.15)]
    jobs = [(query, (f"cells, field batch {bs}, points batch {bp}, {how}", bs, bp, inside, how))
            for bs, bp, how in ((1, 1, "init"), (2, 2, "init"), (1, 2, "init"), (2, 2, "tensors"), (1, 1, "update"))]
    outside = [(-0.2, 1.2), (COLS - 0.8, 1.2), (1.2, -0.3), (1.2, ROWS - 0.7), (-0.5, -0.5), (COLS, ROWS)]
    jobs += [(query, (f"outside, field batch {bs}", bs, 2, outside + [(0.4, 0.6)], "init")) for bs in (1, 2)]
    # the last row and column belong to the field
    edge = [(COLS - 1 - 1e-6, 0.5), (1.5, ROWS - 1 - 1e-6), (1e-6, 1.5), (0.5, 1e-6)]
    jobs += [(query, ("near the border", 1, 1, edge, "init"))]
    jobs += [(query, ("on grid lines", 1, 1, [(1, 1), (2, 0.5), (0.5, 1)], "init", False))]
    small = [n for n, m in MAPS.items() if len(m) == 3]
    jobs += [(occupancy, ([n], None, [0.5], "tensor")) for n in MAPS]
    jobs += [(occupancy, (small, None, [0.25 * (1 + i) for i in range(len(small))], how)) for how in ("tensor", "variable")]
    jobs += [(occupancy, (["corner", "nothing", "hole"], 0.25, [0.5], "tensor")), (occupancy, (["nothing", "hole"], 0.5, [0.25, 2.0], "variable"))]
    r.parallel(a, jobs)


__all__ = ["check"]
