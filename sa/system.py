"""Small optimization problems of a client program, analysed together with the library: cost functions whose error and
jacobian blocks are free symbols, in every structure the linear systems must cope with."""
from . import cases as C
from . import geom as g
from . import tensor as tn
from .algebra import add, mul, num
from .interp import Cls, Ctx, Native, Obj, Raised, Sparse, Ten
from .comp import Unknown
from .normal import const_of

BLOCK = '''
class Block(CostFunction):
    def __init__(self, variables, jacs, err, cost_weight, name=None):
        super().__init__(cost_weight, name=name)
        self.count = len(variables)
        for i, v in enumerate(variables):
            setattr(self, "v" + str(i), v)
            self.register_optim_var("v" + str(i))
        for i, j in enumerate(jacs):
            setattr(self, "j" + str(i), j)
            self.register_aux_var("j" + str(i))
        self.err = err
        self.register_aux_var("err")

    def error(self):
        return self.err.tensor

    def jacobians(self):
        return [getattr(self, "j" + str(i)).tensor for i in range(self.count)], self.err.tensor

    def dim(self):
        return self.err.tensor.shape[1]

    def _copy_impl(self, new_name=None):
        return Block([getattr(self, "v" + str(i)).copy() for i in range(self.count)],
                     [getattr(self, "j" + str(i)).copy() for i in range(self.count)], self.err.copy(), self.weight.copy(), name=new_name)
'''

# (name, variables with sizes, cost functions: (variables, rows), order)
PROBLEMS = [
    ("chain", {"x": 2, "y": 1, "z": 3}, [(("y", "x"), 2), (("z",), 3), (("z", "x"), 1)], None),
    ("reordered", {"x": 2, "y": 1, "z": 2}, [(("y", "x"), 2), (("z", "x"), 2), (("y",), 1)], ("z", "y", "x")),
    ("repeated", {"x": 2, "y": 1}, [(("x", "x"), 2), (("y", "x", "y"), 1), (("x", "y"), 2)], ("y", "x")),
    ("single", {"x": 1}, [(("x",), 1), (("x",), 2)], None),
    ("wide", {"x": 2, "y": 2}, [(("x", "y"), 4), (("y", "x"), 1)], ("y", "x")),
]


class Problem:
    def __init__(self, s, spec, batch=2, weights=True):
        self.s, self.spec, self.batch = s, spec, batch
        it = s.it
        self.name, self.sizes, self.costs, self.order = spec
        block = it.define(BLOCK, "theseus.core.cost_function")["Block"]
        self.objective = s.new("Objective", dtype=it.ext("torch." + s.dtype))
        self.vars = {n: s.var(n, f"vec{d}", batch) for n, d in self.sizes.items()}
        self.blocks = []
        seen = []
        for i, (names, rows) in enumerate(self.costs):
            J = [s.aux(f"J{i}_{k}", (batch, rows, self.sizes[n])) for k, n in enumerate(names)]
            e = s.aux(f"e{i}", (batch, rows))
            w = None
            if weights:
                t = s.tensor(f"w{i}", (1, 1), lo=0.5)
                w = it.call(Cls(g.cls_of(it, "ScaleCostWeight")), [t], {})
            c = it.call(block, [[self.vars[n] for n in names], J, e, w], {"name": f"c{i}"})
            s.do(self.objective, "add", c)
            self.blocks.append((names, J, e, w))
            seen += [n for n in names if n not in seen]
        self.names = list(self.order or seen)
        s.do(self.objective, "update", {})
        self.cols = sum(self.sizes.values())
        self.rows = sum(r for _, r in self.costs)

    def refresh(self, batch=None):
        """new values for every block"""
        s = self.s
        for i, (names, J, e, w) in enumerate(self.blocks):
            for k, j in enumerate(J):
                s.do(j, "update", s.tensor(f"J{i}_{k}'", (batch or self.batch, *C.ten_of(j).shape[1:])))
            s.do(e, "update", s.tensor(f"e{i}'", (batch or self.batch, *C.ten_of(e).shape[1:])))
        self.batch = batch or self.batch
        s.do(self.objective, "update", {})

    def resize(self, batch):
        s = self.s
        for n, v in self.vars.items():
            s.do(v, "update", s.tensor(n + "'", (batch, self.sizes[n])))
        self.refresh(batch)

    def ordering(self):
        if self.order is None:
            return None
        o = self.s.new("VariableOrdering", self.objective, default_order=False)
        for n in self.order:
            self.s.do(o, "append", self.vars[n])
        return o

    def expected(self):
        """A and b as nested lists per batch element"""
        start, k = {}, 0
        for n in self.names:
            start[n] = k
            k += self.sizes[n]
        A = [[[{} for _ in range(self.cols)] for _ in range(self.rows)] for _ in range(self.batch)]
        rhs = [[{} for _ in range(self.rows)] for _ in range(self.batch)]
        for b in range(self.batch):
            row = 0
            for i, (names, rows) in enumerate(self.costs):
                _, J, e, w = self.blocks[i]
                f = num(1) if w is None else tn.poly(C.ten_of(self.s.it.getattr(w, "scale")).arr().data[(0, 0)])
                for r in range(rows):
                    for k, n in enumerate(names):
                        x = C.ten_of(J[k]).arr().data
                        for c in range(self.sizes[n]):
                            A[b][row + r][start[n] + c] = add(A[b][row + r][start[n] + c], mul(f, tn.poly(x[(b, r, c)])))
                    rhs[b][row + r] = mul(num(-1), mul(f, tn.poly(C.ten_of(e).arr().data[(b, r)])))
                row += rows
        return A, rhs


def normal(A, rhs):
    """AtA and Atb"""
    n, m = len(A[0][0]), len(A[0])
    AtA = [[[dot([(Ab[r][i], Ab[r][j]) for r in range(m)]) for j in range(n)] for i in range(n)] for Ab in A]
    Atb = [[dot([(Ab[r][i], bb[r]) for r in range(m)]) for i in range(n)] for Ab, bb in zip(A, rhs)]
    return AtA, Atb


def dot(pairs):
    out = {}
    for x, y in pairs:
        if x and y:
            out = add(out, mul(x, y))
    return out


# ------------------------------------------------------------------ documented behaviour of the native solvers
def cholmod_hooks():
    """analyze_AAt(M).cholesky_AAt(M, beta)(b): solution of (M M' + beta I) x = b"""
    def analyze(it, M, *a, **k):
        if not isinstance(M, Sparse):
            raise Unknown("analyze_AAt")
        rows = M.dense.shape[0]

        def factor(At, beta=0.0):
            if not isinstance(At, Sparse) or At.dense.shape[0] != rows:
                raise Raised("ValueError", "matrix does not have the analysed structure", it.here())
            f64 = it.ext("torch.float64")      # the library computes in double precision
            d = it.torch_fn("to", [At.dense, f64], {})
            m = it.binop("@", d, it.ten_attr(d, "mT"))
            m = it.binop("+", m, it.binop("*", it.ten(beta), it.torch_fn("eye", [d.shape[0]], {"dtype": it.ext("torch." + d.dtype)})))
            inv = it.torch_fn("inverse", [m], {})
            return Native(lambda b: it.binop("@", inv, it.torch_fn("to", [b.dense if isinstance(b, Sparse) else b, f64], {})), "solve")
        return Obj(Ctx, {"cholesky_AAt": Native(factor, "cholesky_AAt")})
    return {"sksparse.cholmod.analyze_AAt": analyze}


def must(it, dtype, *ts):
    for t in ts:
        if not isinstance(t, Ten) or t.dtype not in (dtype if isinstance(dtype, tuple) else (dtype,)):
            raise Raised("RuntimeError", f"{getattr(t, 'dtype', type(t).__name__)} instead of {dtype} given to the native extension", it.here())


def dense_rows(it, val, ptr, ind, cols):
    from .npsem import compressed
    out = []
    for b in range(val.shape[0]):
        sp = compressed(True)(it, (tn.index(val, (b,)), ind, ptr), (len(tn.ints(ptr)) - 1, cols))
        out.append(sp.dense)
    return it.torch_fn("stack", [out], {})


def damped(it, M, alpha, beta):
    """diagonal entries d become d (1 + alpha) + beta, per batch element"""
    n = M.shape[-1]
    e = dict(M.arr().data)
    al, be = alpha.arr().data, beta.arr().data
    if tuple(alpha.shape) != (M.shape[0],) or tuple(beta.shape) != (M.shape[0],):
        raise Raised("RuntimeError", f"damping of shape {tuple(alpha.shape)}, {tuple(beta.shape)} for a batch of {M.shape[0]}", it.here())
    for b in range(M.shape[0]):
        for i in range(n):
            d = e[(b, i, i)]
            e[(b, i, i)] = add(mul(d, add(num(1), tn.poly(al[(b,)]))), tn.poly(be[(b,)]))
    return tn.make(type(M.arr())(M.arr().shape, e), M.dtype)


def in_place(it, x, inv):
    """x := inv x"""
    y = it.binop("@", inv, it.torch_fn("unsqueeze", [it.torch_fn("to", [x, it.ext("torch." + inv.dtype)], {}), -1], {}))
    y = it.torch_fn("squeeze", [y, -1], {})
    x.write(x.keys, y.arr())


def baspacho_hooks():
    """SymbolicDecomposition of the block structure of AtA; the numeric one adds AtA, damps, factors and solves in place"""
    name = "theseus.extlib.baspacho_solver.SymbolicDecomposition"
    cls = []

    def symbolic(it, sizes, ptrs, inds, dev):
        must(it, "int64", sizes, ptrs, inds)
        sz, ptr, ind = tn.ints(sizes), tn.ints(ptrs), tn.ints(inds)
        n = sum(sz)
        start = [sum(sz[:k]) for k in range(len(sz))]
        if len(ptr) != len(sz) + 1 or ptr[-1] != len(ind) or any(not 0 <= i < len(sz) for i in ind):
            raise Raised("RuntimeError", "the block structure does not fit the parameter sizes", it.here())
        blocks = {(i, ind[k]) for i in range(len(sz)) for k in range(ptr[i], ptr[i + 1])}
        of = [k for k, s in enumerate(sz) for _ in range(s)]

        def numeric(batch):
            o = Obj(Ctx, {})
            o.attrs["m"] = None

            def add_MtM(val, rp, ci):
                must(it, "float64", val)
                must(it, "int64", rp, ci)
                A = dense_rows(it, val, rp, ci, n)
                if A.shape[0] != batch:
                    raise Raised("RuntimeError", "batch size", it.here())
                M = it.binop("@", it.ten_attr(A, "mT"), A)
                for (b, i, j), v in M.arr().data.items():
                    if const_of(tn.poly(v)) != 0 and not ((of[i], of[j]) in blocks or (of[j], of[i]) in blocks):
                        raise Raised("RuntimeError", f"entry {i, j} of AtA is outside of the declared blocks", it.here())
                o.attrs["m"] = M if o.attrs["m"] is None else it.binop("+", o.attrs["m"], M)
            o.attrs["add_MtM"] = Native(add_MtM, "add_MtM")

            def damp(al, be):
                must(it, "float64", al, be)
                o.attrs["m"] = damped(it, o.attrs["m"], al, be)
            o.attrs["damp"] = Native(damp, "damp")
            o.attrs["factor"] = Native(lambda: o.attrs.__setitem__("inv", it.torch_fn("inverse", [o.attrs["m"]], {})), "factor")
            o.attrs["solve"] = Native(lambda x: in_place(it, x, o.attrs["inv"]), "solve")
            return o
        return Obj(Ctx, {"create_numeric_decomposition": Native(numeric, "create_numeric_decomposition"), "__instance_of__": name})
    return {name: symbolic}


def cusolver_hooks():
    """CUDA extension: products with A in compressed rows, AtA in a given pattern, LU solution in place"""
    mm = "theseus.extlib.mat_mult."

    def mat_vec(it, batch, cols, rp, ci, val, v):
        must(it, "float64", val)
        A = dense_rows(it, val, rp, ci, cols)
        return it.torch_fn("squeeze", [it.binop("@", A, it.torch_fn("unsqueeze", [v, -1], {})), -1], {})

    def tmat_vec(it, batch, cols, rp, ci, val, v):
        must(it, "float64", val)
        A = dense_rows(it, val, rp, ci, cols)
        return it.torch_fn("squeeze", [it.binop("@", it.ten_attr(A, "mT"), it.torch_fn("unsqueeze", [v, -1], {})), -1], {})

    def mult(it, batch, rp, ci, val, rp2, ci2):
        must(it, "float64", val)
        must(it, "int64", rp, ci, rp2, ci2)
        p2, c2 = tn.ints(rp2), tn.ints(ci2)
        n = len(p2) - 1
        M = it.binop("@", it.ten_attr(dense_rows(it, val, rp, ci, n), "mT"), dense_rows(it, val, rp, ci, n)).arr().data
        there = [(i, c2[k]) for i in range(n) for k in range(p2[i], p2[i + 1])]
        for (b, i, j), v in M.items():
            if const_of(tn.poly(v)) != 0 and (i, j) not in there:
                raise Raised("RuntimeError", f"entry {i, j} of AtA is outside of the given pattern", it.here())
        from .comp import Arr
        return tn.make(Arr((batch, len(there)), {(b, k): M[(b, *ij)] for b in range(batch) for k, ij in enumerate(there)}), val.dtype)

    def apply_damping(it, batch, cols, rp, ci, val, alpha, beta):
        must(it, "float64", val, alpha, beta)
        must(it, "int64", rp, ci)
        p, c = tn.ints(rp), tn.ints(ci)
        al, be = alpha.arr().data, beta.arr().data
        if tuple(alpha.shape) != (batch,) or tuple(beta.shape) != (batch,):
            raise Raised("RuntimeError", f"damping of shape {tuple(alpha.shape)}, {tuple(beta.shape)} for a batch of {batch}", it.here())
        for i in range(len(p) - 1):
            for k in range(p[i], p[i + 1]):
                if c[k] == i:
                    for b in range(batch):
                        key = val.keys.data[(b, k)]
                        val.store[key] = add(mul(tn.poly(val.store[key]), add(num(1), tn.poly(al[(b,)]))), tn.poly(be[(b,)]))

    def lu(it, batch, cols, rp, ci):
        o = Obj(Ctx, {"A_rowPtr": rp, "A_colInd": ci, "factor_id": 0, "batch_size": batch, "__instance_of__": "theseus.extlib.cusolver_lu_solver.CusolverLUSolver"})

        must(it, "int64", rp, ci)

        def factor(val):
            must(it, "float64", val)
            if val.shape[0] != batch:
                raise Raised("RuntimeError", f"{val.shape[0]} matrices given to a solver for {batch}", it.here())
            o.attrs["factor_id"] += 1
            o.attrs["inv"] = it.torch_fn("inverse", [dense_rows(it, val, rp, ci, cols)], {})
        o.attrs["factor"] = Native(factor, "factor")
        o.attrs["solve"] = Native(lambda x: in_place(it, x, o.attrs["inv"]), "solve")
        return o
    return {mm + "mat_vec": mat_vec, mm + "tmat_vec": tmat_vec, mm + "mult_MtM": mult, mm + "apply_damping": apply_damping,
            "theseus.extlib.cusolver_lu_solver.CusolverLUSolver": lu, "torch.cuda.is_available": lambda it: True}


def hooks():
    return {**cholmod_hooks(), **baspacho_hooks(), **cusolver_hooks()}


__all__ = ["Problem", "PROBLEMS", "normal", "dot", "hooks", "Ten"]
