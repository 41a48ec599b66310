"""The linear systems of small client problems, in closed form: what is assembled, multiplied, solved and differentiated,
compared with the system written down from the jacobian blocks."""
from . import cases as C
from . import jac
from . import normal as nf
from . import system as sy
from . import tensor as tn
from .algebra import add, mul, num
from .interp import Raised, Sparse, Ten
from .jac import Wrong, attempt, entries, ten_of
from .comp import Arr

DENSE, SPARSE = "DenseLinearization", "SparseLinearization"


def loc(a, cls, meth):
    from checks.C40 import method_loc
    return method_loc(a, cls, meth)


def agree(what, t, want, points, tol=1e-7):
    """tensor against nested lists of forms"""
    t = ten_of(t)
    shape = []
    x = want
    while isinstance(x, list):
        shape.append(len(x))
        x = x[0] if x else None
    if tuple(t.shape) != tuple(shape):
        raise Wrong(f"{what} has shape {tuple(t.shape)} instead of {tuple(shape)}")
    e = entries(t)

    def at(idx):
        y = want
        for i in idx:
            y = y[i]
        return y
    bad = jac.vanish(((i, add(tn.poly(v), at(i), -1)) for i, v in e.items()), points, tol)
    if bad is not None:
        raise Wrong(f"entry {bad[0]} of {what} is not the expected one (differs by {bad[1]:.2g})")


def setup(a, spec, batch=2, weights=True, dtype="float64", device="cpu"):
    s = C.Setup(a, dtype, hooks=sy.hooks())
    s.it.device_type = device
    return s, sy.Problem(s, spec, batch, weights)


def linearization(s, P, cls, **kw):
    o = P.ordering()
    return s.new(cls, P.objective, *([o] if o is not None else []), **kw)


def points(s, n=2):
    return [s.w] + [s.points(k) for k in range(1, n)]


def nested(t):
    """forms of a tensor as nested lists"""
    t = ten_of(t)
    e = entries(t)

    def go(pre):
        if len(pre) == len(t.shape):
            return tn.poly(e[tuple(pre)])
        return [go(pre + [i]) for i in range(t.shape[len(pre)])]
    return go([])


def matvec(A, v):
    return [[sy.dot(list(zip(row, vb))) for row in Ab] for Ab, vb in zip(A, v)]


def dense_of(s, l):
    """the matrix a sparse linearization stands for, read from its compressed rows"""
    it = s.it
    return sy.dense_rows(it, it.getattr(l, "A_val"), it.getattr(l, "A_row_ptr"), it.getattr(l, "A_col_ind"), it.getattr(l, "num_cols"))


def matrix(s, l, cls):
    return s.it.getattr(l, "A") if cls == DENSE else dense_of(s, l)


# ------------------------------------------------------------------ assembled systems
def assembled(a, r):
    for spec in sy.PROBLEMS:
        for cls in (DENSE, SPARSE):
            for batch, weights in ((2, True), (1, True)):
                def go(spec=spec, cls=cls, batch=batch):
                    s, P = setup(a, spec, batch, weights)
                    l = linearization(s, P, cls)
                    s.do(l, "linearize")
                    A, b = P.expected()
                    ps = points(s)
                    agree("A", matrix(s, l, cls), A, ps)
                    agree("b", s.it.getattr(l, "b"), b, ps)
                attempt(r, "assembled-system", f"{cls}[{spec[0]}, batch {batch}]", loc(a, cls, "_linearize_jacobian_impl"), go)

            def again(spec=spec, cls=cls):
                s, P = setup(a, spec)
                l = linearization(s, P, cls)
                s.do(l, "linearize")
                s.it.getattr(l, "Atb")
                v = s.tensor("v", (2, P.cols))
                s.do(l, "diagonal_scaling", v)
                P.refresh()
                s.do(l, "linearize")
                A, b = P.expected()
                AtA, Atb = sy.normal(A, b)
                ps = points(s)
                agree("A after a second linearization", matrix(s, l, cls), A, ps)
                agree("b after a second linearization", s.it.getattr(l, "b"), b, ps)
                agree("Atb after a second linearization", s.it.getattr(l, "Atb"), [[[x] for x in row] for row in Atb], ps)
                diag = [[mul(tn.poly(entries(v)[(i, k)]), M[k][k]) for k in range(P.cols)] for i, M in enumerate(AtA)]
                agree("diagonal scaling after a second linearization", s.do(l, "diagonal_scaling", v), diag, ps)
            attempt(r, "assembled-system", f"{cls}[{spec[0]}] linearized again", loc(a, cls, "_linearize_jacobian_impl"), again)


def typed(a, r):
    """products of a float32 problem are float32, whatever precision is used inside"""
    for cls in (DENSE, SPARSE):
        for device, default in (("cpu", "float32"), ("cuda", "float32"), ("cpu", "float64")):
            def go(cls=cls, device=device, default=default):
                s, P = setup(a, sy.PROBLEMS[0], dtype="float32", device=device)
                s.it.p_default = default
                l = linearization(s, P, cls)
                s.do(l, "linearize")
                A, b = P.expected()
                AtA, Atb = sy.normal(A, b)
                v = s.tensor("v", (2, P.cols))
                ps = points(s)
                x, y, z = s.it.getattr(l, "Atb"), s.do(l, "Av", v), s.do(l, "diagonal_scaling", v)
                agree("Atb", x, [[[q] for q in row] for row in Atb], ps)
                agree("Av(v)", y, matvec(A, nested(v)), ps)
                for n, t in (("Atb", x), ("Av(v)", y), ("diagonal_scaling(v)", z), ("b", s.it.getattr(l, "b"))):
                    if ten_of(t).dtype != "float32":
                        raise Wrong(f"{n} of a float32 problem has dtype {ten_of(t).dtype}")
            attempt(r, "normal-equations", f"{cls}[float32, {device}, default {default}]", loc(a, cls, "Av"), go)


def normal_equations(a, r):
    typed(a, r)
    for spec in sy.PROBLEMS:
        for cls in (DENSE, SPARSE):
            for detach in (False, True):
                def go(spec=spec, cls=cls):
                    s, P = setup(a, spec)
                    l = linearization(s, P, cls)
                    s.do(l, "linearize", _detach_hessian=detach)
                    A, b = P.expected()
                    AtA, Atb = sy.normal(A, b)
                    ps = points(s)
                    agree("Atb", s.it.getattr(l, "Atb"), [[[x] for x in row] for row in Atb], ps)
                    agree("Atb read again", s.it.getattr(l, "Atb"), [[[x] for x in row] for row in Atb], ps)
                    if cls == DENSE:
                        agree("AtA", s.it.getattr(l, "AtA"), AtA, ps)
                        agree("hessian_approx()", s.do(l, "hessian_approx"), AtA, ps)
                    v = s.tensor("v", (2, P.cols))
                    ps = points(s)
                    agree("Av(v)", s.do(l, "Av", v), matvec(A, nested(v)), ps)
                    diag = [[mul(x, M[k][k]) for k, x in enumerate(row)] for row, M in zip(nested(v), AtA)]
                    agree("diagonal_scaling(v)", s.do(l, "diagonal_scaling", v), diag, ps)
                    agree("diagonal_scaling(v) once more", s.do(l, "diagonal_scaling", v), diag, ps)
                    agree("A after the products", matrix(s, l, cls), A, ps)
                    agree("b after the products", s.it.getattr(l, "b"), b, ps)
                attempt(r, "normal-equations", f"{cls}[{spec[0]}{', detached hessian' if detach else ''}]", loc(a, cls, "Av"), go)


# ------------------------------------------------------------------ compressed formats
def formats(a, r):
    for spec in sy.PROBLEMS:
        def go(spec=spec):
            s, P = setup(a, spec)
            l = linearization(s, P, SPARSE)
            s.do(l, "linearize")
            A, b = P.expected()
            ps = points(s)
            st = s.do(l, "structure")
            for n, want in (("num_rows", P.rows), ("num_cols", P.cols)):
                if s.it.getattr(st, n) != want:
                    raise Wrong(f"the structure has {n} {s.it.getattr(st, n)} instead of {want}")
            for i in range(2):
                val = tn.index(s.it.getattr(l, "A_val"), (i,))
                for meth, want in (("csr_straight", A[i]), ("csc_transpose", [list(c) for c in zip(*A[i])])):
                    m = s.do(st, meth, val)
                    if not isinstance(m, Sparse):
                        raise Wrong(f"{meth} does not return a sparse matrix")
                    agree(meth, m.dense, want, ps)
                    if m.dense.dtype != "float64":
                        raise Wrong(f"{meth} of a float64 problem has dtype {m.dense.dtype}")
            mock = s.do(st, "mock_csc_transpose")
            t = mock.dense
            if tuple(t.shape) != (P.cols, P.rows):
                raise Wrong(f"the mock matrix has shape {tuple(t.shape)}")
            for i, row in enumerate(A[0]):
                for j, x in enumerate(row):
                    if x and not tn.poly(entries(t)[(j, i)]):
                        raise Wrong(f"the mock matrix has no entry at {(j, i)}, where A transposed has one")
        attempt(r, "compressed-structure", f"SparseStructure[{spec[0]}]", loc(a, SPARSE, "structure"), go)


PATTERNS = [
    ("wide", 2, 4, [[0, 3], [1]]),
    ("tall", 4, 2, [[0], [1, 0], [], [1]]),
    ("empty first row", 3, 3, [[], [2, 0], [1]]),
    ("square", 2, 2, [[0, 1], [1]]),
    ("one column", 3, 1, [[0], [], [0]]),
]


def pattern(s, spec, batch):
    name, rows, cols, ind = spec
    ptr = [0]
    flat = []
    for row in ind:
        flat += row
        ptr.append(len(flat))
    it = s.it
    i64 = {"dtype": it.ext("torch.int64")}
    P, I = it.torch_fn("tensor", [ptr], i64), it.torch_fn("tensor", [flat], i64)
    val = s.tensor("a", (batch, len(flat)))
    x = entries(val)
    A = [[[{} for _ in range(cols)] for _ in range(rows)] for _ in range(batch)]
    for b in range(batch):
        k = 0
        for i, row in enumerate(ind):
            for c in row:
                A[b][i][c] = add(A[b][i][c], tn.poly(x[(b, k)]))
                k += 1
    return P, I, val, A


def kernels(a, r):
    """products of compressed rows with vectors and their derivative rules"""
    m = a.p.modules["theseus.utils.sparse_matrix_utils"]
    for spec in PATTERNS:
        for batch in (1, 2):
            for name, cls, tr in (("sparse_mv", "_SparseMvPAutograd", False), ("sparse_mtv", "_SparseMtvPAutograd", True)):
                construct = f"{name}[{spec[0]}, batch {batch}]"

                def go(spec=spec, batch=batch, name=name, tr=tr, back=False, device="cpu"):
                    s = C.Setup(a, hooks=sy.hooks())
                    it = s.it
                    it.device_type = device
                    P, I, val, A = pattern(s, spec, batch)
                    v = s.tensor("v", (batch, spec[1] if tr else spec[2]))
                    before = dict(entries(val)), dict(entries(v))
                    fn = it.getattr(sy_mod(it), name)
                    y = it.call(fn, [spec[2], P, I, val, v], {})
                    M = [[list(c) for c in zip(*Ab)] for Ab in A] if tr else A
                    ps = points(s)
                    want = matvec(M, nested(v))
                    if not back:
                        agree(name, y, want, ps)
                        if (dict(entries(val)), dict(entries(v))) != before:
                            raise Wrong(f"{name} changes its operands")
                        return
                    grad = s.tensor("g", tuple(ten_of(y).shape))
                    ps = points(s)
                    gradient(s, it.applied[-1], grad, want, {3: val, 4: v}, 5, ps)
                attempt(r, "compressed-product", construct, m_loc(a, m, name, cls, "forward"), go)
                attempt(r, "compressed-product-gradient", construct, m_loc(a, m, name, cls, "backward"), lambda go=go: go(back=True))
                if batch == 2:
                    attempt(r, "compressed-product", construct + " on the GPU", m_loc(a, m, name, cls, "forward"), lambda go=go: go(device="cuda"))


def sy_mod(it):
    from .interp import Mod
    return Mod(it.p.modules["theseus.utils.sparse_matrix_utils"])


def m_loc(a, m, name, cls, meth):
    c = m.classes.get(cls)
    f = c and c.methods.get(meth)
    return f"{m.path}:{f.node.lineno}" if f else f"{m.path}:1"


def gradient(s, applied, grad, value, operands, count, ps, tol=1e-6, frozen=()):
    """backward of an applied autograd function: one result per input, None or the adjoint of the derivative of the value.
    value: nested forms (batch, n); operands: {position: tensor of symbols}"""
    it = s.it
    cls, ctx, inputs, outputs = applied
    before = {k: dict(entries(t)) for k, t in operands.items()}, dict(entries(grad))
    res = it.call(it.getattr(cls, "backward"), [ctx, grad], {})
    if not isinstance(res, (tuple, list)):
        raise Wrong("backward does not return one gradient per input")
    if len(res) < count or any(x is not None for x in res[count:]):
        raise Wrong(f"backward returns {len(res)} gradients for {count} inputs")
    for i, x in enumerate(res[:count]):
        if (x is not None) != (i in operands) and i not in frozen:
            raise Wrong(f"backward returns {'a' if x is not None else 'no'} gradient for input {i}")
    if ({k: dict(entries(t)) for k, t in operands.items()}, dict(entries(grad))) != before:
        raise Wrong("backward changes its operands")
    G = entries(grad)
    for i, t in operands.items():
        e = entries(res[i])
        if tuple(res[i].shape) != tuple(t.shape):
            raise Wrong(f"the gradient of input {i} has shape {tuple(res[i].shape)} instead of {tuple(t.shape)}")
        for idx, sym in entries(t).items():
            key = key_of(sym)
            want = {}
            for b, row in enumerate(value):
                for k, f in enumerate(row):
                    d = nf.derive(f, lambda x: num(1) if x == key else None)
                    want = add(want, mul(tn.poly(G[(b, k)]), d))
            bad = jac.vanish([(idx, add(tn.poly(e[idx]), want, -1))], ps, tol)
            if bad is not None:
                raise Wrong(f"entry {idx} of the gradient of input {i} is not the adjoint of the derivative (differs by {bad[1]:.2g})")


def key_of(sym):
    p = tn.poly(sym)
    (m, c), = p.items()
    (k, e), = m
    return k


# ------------------------------------------------------------------ solvers
SOLVERS = [
    ("LUDenseSolver", DENSE), ("CholeskyDenseSolver", DENSE), ("CholmodSparseSolver", SPARSE),
    ("BaspachoSparseSolver", SPARSE), ("LUCudaSparseSolver", SPARSE),
]
FUNCTIONS = {"CholmodSparseSolver": ("CholmodSolveFunction", 6), "BaspachoSparseSolver": ("BaspachoSolveFunction", 8),
             "LUCudaSparseSolver": ("LUCudaSolveFunction", 9)}
EPS = 0.03


def hw(cls):
    return "cuda" if "Cuda" in cls else "cpu"


def dampings(cls, s, batch):
    """(name, arguments of solve, what is added to a diagonal entry d of batch element b)"""
    yield "no damping", {}, lambda b, d: {}
    if cls == "CholmodSparseSolver":
        yield "scalar", {"damping": 0.25}, lambda b, d: num(0.25)
        return
    for ell in (True, False):
        tag = "ellipsoidal" if ell else "additive"

        def on(lam, ell=ell):
            def f(b, d):
                return add(mul(lam(b), d), num(EPS)) if ell else lam(b)
            return f
        kw = {"ellipsoidal_damping": ell, "damping_eps": EPS}
        yield tag + " scalar", {"damping": 0.25, **kw}, on(lambda b: num(0.25))
        t = s.tensor("lam1" + tag, (1,), lo=0.5)
        yield tag + " tensor of one", {"damping": t, **kw}, on(lambda b, t=t: tn.poly(entries(t)[(0,)]))
        u = s.tensor("lam" + tag, (batch,), lo=0.5)
        yield tag + " tensor", {"damping": u, **kw}, on(lambda b, u=u: tn.poly(entries(u)[(b,)]))


def system(P, damp):
    A, b = P.expected()
    M, rhs = sy.normal(A, b)
    for k, Mb in enumerate(M):
        for i in range(P.cols):
            Mb[i][i] = add(Mb[i][i], damp(k, Mb[i][i]))
    return M, rhs


def snapshot(s, l, cls):
    names = ("A", "b", "_AtA", "_Atb") if cls == DENSE else ("A_val", "b", "_Atb", "_AtA_diag")
    return {n: dict(entries(s.it.getattr(l, n))) for n in names if isinstance(l.attrs.get(n), Ten)}


def new_solver(s, P, cls, **kw):
    o = P.ordering()
    return s.new(cls, P.objective, linearization_kwargs={"ordering": o} if o is not None else None, **kw)


def solves(a, r, only=None):
    from .system import PROBLEMS
    for cls, lin in SOLVERS:
        if only is not None and cls not in only:
            continue
        for spec in PROBLEMS:
            s0, P0 = setup(a, spec, device=hw(cls))
            for k in range(len(list(dampings(cls, s0, 2)))):
                name = list(dampings(cls, s0, 2))[k][0]

                def go(cls=cls, lin=lin, spec=spec, k=k):
                    s, P = setup(a, spec, device=hw(cls))
                    sv = new_solver(s, P, cls)
                    l = s.it.getattr(sv, "linearization")
                    s.do(l, "linearize")
                    _, kw, damp = list(dampings(cls, s, 2))[k]
                    before = snapshot(s, l, lin)
                    ps = points(s)
                    x = s.do(sv, "solve", **kw)
                    if tuple(ten_of(x).shape) != (2, P.cols):
                        raise Wrong(f"the step has shape {tuple(ten_of(x).shape)} instead of {(2, P.cols)}")
                    M, rhs = system(P, damp)
                    solved(x, M, rhs, ps)
                    if s.it.rounded:
                        raise Wrong(f"a value is rounded by the conversion from {s.it.rounded[0][0]} to {s.it.rounded[0][1]} in {s.it.rounded[0][2]}")
                    after = snapshot(s, l, lin)
                    for n, e in before.items():
                        if after.get(n) != e:
                            raise Wrong(f"solving changes {n} of the linearization")
                    y = s.do(sv, "solve", **kw)
                    solved(y, M, rhs, ps, "solving again: ")
                    z = s.do(sv, "solve")
                    M, rhs = system(P, lambda b, d: {})
                    solved(z, M, rhs, ps, "solving without damping afterwards: ")
                attempt(r, "solves-damped-system", f"{cls}[{spec[0]}, {name}]", loc(a, cls, "solve"), go)

        def single(cls=cls, lin=lin, k=0, default="float32"):
            s, P = setup(a, PROBLEMS[0], dtype="float32", device=hw(cls))
            s.it.p_default = default
            sv = new_solver(s, P, cls)
            l = s.it.getattr(sv, "linearization")
            s.do(l, "linearize")
            _, kw, damp = list(dampings(cls, s, 2))[k]
            ps = points(s)
            x = s.do(sv, "solve", **kw)
            if ten_of(x).dtype != "float32":
                raise Wrong(f"the step of a float32 problem has dtype {ten_of(x).dtype}")
            M, rhs = system(P, damp)
            solved(x, M, rhs, ps)
        s0, P0 = setup(a, PROBLEMS[0], device=hw(cls))
        for k in range(len(list(dampings(cls, s0, 2)))):
            name = list(dampings(cls, s0, 2))[k][0]
            for default in ("float32", "float64"):
                attempt(r, "solves-damped-system", f"{cls}[float32, default {default}, {name}]", loc(a, cls, "solve"),
                        lambda k=k, single=single, default=default: single(k=k, default=default))

        def resized(cls=cls):
            s, P = setup(a, PROBLEMS[0], device=hw(cls))
            sv = new_solver(s, P, cls)
            l = s.it.getattr(sv, "linearization")
            s.do(l, "linearize")
            s.do(sv, "solve")
            P.resize(3)
            s.do(l, "linearize")
            u = s.tensor("lam'", (3,), lo=0.5)
            ps = points(s)
            M, rhs = system(P, lambda b, d: {})
            solved(s.do(sv, "solve"), M, rhs, ps)
            if cls != "CholmodSparseSolver":
                M, rhs = system(P, lambda b, d: tn.poly(entries(u)[(b,)]))
                solved(s.do(sv, "solve", damping=u, ellipsoidal_damping=False), M, rhs, ps)
        attempt(r, "solves-current-system", f"{cls}, another batch size", loc(a, cls, "solve"), resized)

        def current(cls=cls, lin=lin):
            spec = PROBLEMS[0]
            s, P = setup(a, spec, device=hw(cls))
            sv = new_solver(s, P, cls)
            l = s.it.getattr(sv, "linearization")
            s.do(l, "linearize")
            s.do(sv, "solve")
            P.refresh()
            s.do(l, "linearize")
            ps = points(s)
            M, rhs = system(P, lambda b, d: {})
            solved(s.do(sv, "solve"), M, rhs, ps)
        attempt(r, "solves-current-system", cls, loc(a, cls, "solve"), current)


def solved(x, M, rhs, ps, when=""):
    X = nested(x)
    res = []
    for b, Mb in enumerate(M):
        for i, row in enumerate(Mb):
            res.append(((b, i), add(sy.dot(list(zip(row, X[b]))), rhs[b][i], -1)))
    bad = jac.vanish(res, ps, 1e-6)
    if bad is not None:
        raise Wrong(f"{when}row {bad[0]} of the damped system is not solved (residual {bad[1]:.2g})")


def singular_checks(a, r):
    for cls in ("LUDenseSolver", "CholeskyDenseSolver"):
        for spec in sy.PROBLEMS[:2]:
            s0, P0 = setup(a, spec, device=hw(cls))
            ds = list(dampings(cls, s0, 2))
            for k, (name, _, _) in enumerate(ds):
                def go(cls=cls, spec=spec, k=k):
                    s, P = setup(a, spec, device=hw(cls))
                    sv = new_solver(s, P, cls, check_singular=True)
                    l = s.it.getattr(sv, "linearization")
                    s.do(l, "linearize")
                    _, kw, damp = list(dampings(cls, s, 2))[k]
                    ps = points(s)
                    x = s.do(sv, "solve", **kw)
                    M, rhs = system(P, damp)
                    solved(x, M, rhs, ps)
                attempt(r, "solves-damped-system", f"{cls}[{spec[0]}, {name}, singularity checked]", loc(a, cls, "solve"), go)


# ------------------------------------------------------------------ derivative rules of the solvers
def solve_gradients(a, r):
    for cls, (fn, count) in FUNCTIONS.items():
        for spec in (sy.PROBLEMS[0], sy.PROBLEMS[2], sy.PROBLEMS[4]):
            s0, P0 = setup(a, spec, device=hw(cls))
            ds = [d[0] for d in dampings(cls, s0, 2)]
            for k, name in enumerate(ds):
                for detach in (False, True):
                    if detach and name != "no damping":
                        continue
                    if name.endswith("of one"):
                        continue

                    def go(cls=cls, spec=spec, k=k, detach=detach, fn=fn, count=count):
                        s, P = setup(a, spec, device=hw(cls))
                        it = s.it
                        sv = new_solver(s, P, cls)
                        l = it.getattr(sv, "linearization")
                        s.do(l, "linearize", _detach_hessian=detach)
                        val = s.tensor("a", tuple(it.getattr(l, "A_val").shape))
                        b = s.tensor("r", tuple(it.getattr(l, "b").shape))
                        it.setattr(l, "A_val", val)
                        it.setattr(l, "b", b)
                        _, kw, damp = list(dampings(cls, s, 2))[k]
                        s.do(sv, "solve", **kw)
                        used = [x for x in it.applied if getattr(x[0], "c", None) is not None and x[0].c.name == fn]
                        if not used:
                            raise Wrong(f"the solution does not come from {fn}")
                        A = dense_of(s, l)
                        inv, x = closed_form(s, P, A, b, damp)
                        grad = s.tensor("g", (2, P.cols))
                        ps = points(s)
                        if detach:
                            detached(s, used[-1], grad, A, inv, b, val, count, ps)
                        else:
                            gradient(s, used[-1], grad, x, {0: val, 1: b}, count, ps)
                    attempt(r, "solve-gradient", f"{fn}[{spec[0]}, {name}{', detached hessian' if detach else ''}]", loc(a, fn, "backward"), go)


def closed_form(s, P, A, b, damp):
    """solution of the damped system of A and b, as forms"""
    it, n, batch = s.it, P.cols, P.batch
    At = it.ten_attr(A, "mT")
    d = nested(it.binop("@", At, A))
    for i in range(batch):
        for j in range(n):
            d[i][j][j] = add(d[i][j][j], damp(i, d[i][j][j]))
    M = tn.make(Arr((batch, n, n), {(i, j, c): d[i][j][c] for i in range(batch) for j in range(n) for c in range(n)}), "float64")
    inv = it.torch_fn("inverse", [M], {})
    rhs = it.binop("@", At, it.torch_fn("unsqueeze", [b, -1], {}))
    return inv, nested(it.torch_fn("squeeze", [it.binop("@", inv, rhs), -1], {}))


def kept_factors(a, r):
    """the gradient of an earlier solution, after later ones, is its own or is refused"""
    for cls, (fn, count) in FUNCTIONS.items():
        for contexts in ((1, 2) if cls == "LUCudaSparseSolver" else (1,)):
            def go(cls=cls, fn=fn, count=count, contexts=contexts):
                s, P = setup(a, sy.PROBLEMS[4], device=hw(cls))
                it = s.it
                sv = new_solver(s, P, cls, **({"num_solver_contexts": contexts} if contexts > 1 else {}))
                l = it.getattr(sv, "linearization")
                s.do(l, "linearize")
                done = []
                for k in range(2):
                    val = s.tensor(f"a{k}", tuple(it.getattr(l, "A_val").shape))
                    b = s.tensor(f"r{k}", tuple(it.getattr(l, "b").shape))
                    it.setattr(l, "A_val", val)
                    it.setattr(l, "b", b)
                    s.do(sv, "solve")
                    A = dense_of(s, l)
                    _, x = closed_form(s, P, A, b, lambda i, d: {})
                    done.append((it.applied[-1], val, b, x))
                grad = s.tensor("g", (2, P.cols))
                ps = points(s)
                for k, (used, val, b, x) in enumerate(done):
                    try:
                        gradient(s, used, grad, x, {0: val, 1: b}, count, ps)
                    except Raised as e:
                        if e.name != "RuntimeError" or k >= len(done) - contexts or cls != "LUCudaSparseSolver":
                            raise
            attempt(r, "gradient-of-own-factor", f"{fn}[{contexts} solver contexts]" if contexts > 1 else fn, loc(a, fn, "backward"), go)


def detached(s, applied, grad, A, inv, b, val, count, ps):
    """with a detached hessian only the right-hand side A'b depends on A"""
    it = s.it
    cls, ctx, inputs, outputs = applied
    H = it.torch_fn("squeeze", [it.binop("@", inv, it.torch_fn("unsqueeze", [grad, -1], {})), -1], {})
    res = it.call(it.getattr(cls, "backward"), [ctx, grad], {})
    AH = nested(it.torch_fn("squeeze", [it.binop("@", A, it.torch_fn("unsqueeze", [H, -1], {})), -1], {}))
    agree("the gradient of b", res[1], AH, ps)
    if tuple(res[0].shape) != tuple(val.shape):
        raise Wrong(f"the gradient of A has shape {tuple(res[0].shape)}")
    h, bb, e = entries(H), entries(b), entries(res[0])
    forms = entries(A)
    for idx, sym in entries(val).items():
        key = key_of(sym)
        want = {}
        for (k, i, j), f in forms.items():
            d = nf.derive(tn.poly(f), lambda x: num(1) if x == key else None)
            if d:
                want = add(want, mul(d, mul(tn.poly(bb[(k, i)]), tn.poly(h[(k, j)]))))
        bad = jac.vanish([(idx, add(tn.poly(e[idx]), want, -1))], ps, 1e-6)
        if bad is not None:
            raise Wrong(f"entry {idx} of the gradient of A is not the one of the right-hand side alone (differs by {bad[1]:.2g})")


__all__ = ["assembled", "normal_equations", "formats", "kernels", "solves", "singular_checks", "solve_gradients", "kept_factors"]
