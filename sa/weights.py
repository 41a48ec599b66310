"""Cost weights at work: one and the same linear map for the error and for every column of every jacobian, and the exact test for zero."""
from . import cases as C
from . import normal as nf
from . import tensor as tn
from .interp import Cls
from .geom import cls_of
from .comp import Unknown
from .jac import Wrong, attempt, ten_of, entries


def build(s, cls, d, b):
    if cls == "ScaleCostWeight":
        return s.new(cls, s.aux("w", (b, 1), lo=0.5))
    if cls == "DiagonalCostWeight":
        return s.new(cls, s.aux("w", (b, d), lo=0.5))
    q = s.tensor("Qc", (b, d // 2, d // 2))
    s.operands["Qc"] = (None, q, lambda k, seed: {("Qc", k, i, j): (1.5 + 0.3 * i if i == j else 0.2) for i in range(d // 2) for j in range(d // 2)})
    for k in range(b):
        s.w.update(s.operands["Qc"][2](k, 0))
    return s.new(cls, q, s.aux("dt", (b, 1), lo=0.3))


def forms(t):
    return {i: tn.poly(f) for i, f in entries(t).items()}


def differ(s, p, q):
    if p == q:
        return False
    u, v = (nf.value(x, dict(s.w)) if x else 0.0 for x in (p, q))
    return abs(u - v) > 1e-9 * (1 + abs(v))


def agree(s, got, want, what):
    if tuple(got.shape) != tuple(want.shape):
        raise Wrong(f"{what} has shape {tuple(got.shape)} instead of {tuple(want.shape)}")
    x, y = forms(got), forms(want)
    for i in y:
        if differ(s, x[i], y[i]):
            raise Wrong(f"entry {list(i)} of {what} is not weighted as the error is")


def same_map(a, r, loc):
    for cls in ("ScaleCostWeight", "DiagonalCostWeight", "GPCostWeight"):
        for d in (2, 4):
            for b in (1, 2):
                for n in (2, 1):
                    if b > n:
                        continue
                    for shapes in ((d,), (1, d), (d + 1, 2), (d, d, 1)):
                        def go():
                            s = C.Setup(a, hooks={"warnings.warn": lambda it, *x, **k: None})
                            it = s.it
                            w = build(s, cls, d, b)
                            e = s.tensor("e", (n, d))
                            J = [s.tensor(f"J{k}", (n, d, c)) for k, c in enumerate(shapes)]
                            before = [forms(t) for t in (e, *J)]
                            we = ten_of(s.do(w, "weight_error", e))
                            out = s.do(w, "weight_jacobians_and_error", list(J), e)
                            wj, we2 = out
                            wj = list(it.iterate(wj))
                            if len(wj) != len(J):
                                raise Wrong(f"{len(wj)} jacobians are returned for {len(J)}")
                            agree(s, ten_of(we2), we, "the error returned with jacobians")
                            if cls != "GPCostWeight":
                                par = it.getattr(s.vars["w"], "tensor")
                                agree(s, we, ten_of(it.binop("*", e, par)), "the weighted error")
                            for k, (x, y) in enumerate(zip(J, wj)):
                                if tuple(ten_of(y).shape) != tuple(x.shape):
                                    raise Wrong(f"jacobian {k} has shape {tuple(ten_of(y).shape)} instead of {tuple(x.shape)}")
                                for c in range(shapes[k]):
                                    col = (slice(None), slice(None), c)
                                    agree(s, ten_of(it.getitem(y, col)), ten_of(s.do(w, "weight_error", it.getitem(x, col))), f"column {c} of jacobian {k}")
                            if [forms(t) for t in (e, *J)] != before:
                                raise Wrong("the inputs are changed")
                        attempt(r, "one map for error and jacobians", f"{cls}, dimension {d}, batch {b} and {n}, jacobians of {', '.join(map(str, shapes))} columns", loc(cls, "weight_jacobians_and_error"), go)


ZERO = {"ScaleCostWeight": [([[0.0], [1.0], [-2.0], [1e-12], [-0.0]], [True, False, False, False, True]), ([[0.0]], [True]), ([[3.0]], [False]), ([[-1e-12]], [False]),
                            ([[0.0], [0.0]], [True, True])],
        "DiagonalCostWeight": [([[1.0, -1.0], [0.0, 0.0], [0.0, 2.0], [1e-12, 0.0], [-3.0, -1.0]], [False, True, False, False, False]), ([[0.0, 0.0, 0.0]], [True]),
                               ([[0.0, 0.0, 1e-12]], [False]), ([[-1.0, 1.0]], [False]), ([[0.0], [2.0]], [True, False]), ([[0.0]], [True]),
                               ([[0.0, 0.0], [0.0, 0.0]], [True, True])]}


def zero(a, r, loc):
    from .normal import const_of
    for cls, table in ZERO.items():
        for rows, want in table:
            for later in (False, True):
                def go():
                    s = C.Setup(a, hooks={"warnings.warn": lambda it, *x, **k: None})
                    it = s.it
                    t = it.call(it.ext("torch.tensor"), [rows], {"dtype": it.ext("torch.float64")})
                    first = it.call(it.ext("torch.ones"), [len(rows), len(rows[0])], {"dtype": it.ext("torch.float64")}) if later else t
                    v = it.call(Cls(cls_of(it, "Variable")), [first], {"name": "p"})
                    w = s.new(cls, v)
                    if later:
                        s.do(w, "is_zero")
                        s.do(v, "update", t)
                    z = ten_of(s.do(w, "is_zero"))
                    if tuple(z.shape) != (len(rows),):
                        raise Wrong(f"the test for zero has shape {tuple(z.shape)} for {len(rows)} batch elements")
                    got = [z.arr().data[(i,)] for i in range(len(rows))]
                    if any(not isinstance(g, bool) for g in got):
                        got = [bool(const_of(tn.poly(g))) if not isinstance(g, bool) else g for g in got]
                    if got != want:
                        raise Wrong(f"the elements of {rows} that are zero are reported as {got}")
                attempt(r, "zero exactly where the weight is zero", f"{cls} {rows}{', updated' if later else ''}", loc(cls, "is_zero"), go)
