"""Batch elements are evaluated independently. For every group operation, cost function, jacobian and cost weight the
closed form of every entry of batch element b is extracted from the source (abstract interpretation over symbolic operands) and may
mention only the operands of batch element b and unbatched operands; batches that mix rotation angles from the regions the
source treats separately (near zero, general, near half a turn) give every element the value it has in a batch of its own."""
from sa import cases as C
from sa import everything as ev
from sa import geom as g
from sa import jac
from sa import normal as nf
from sa import tensor as tn
from sa.interp import Cls, Interp, Region
from sa.jac import Wrong, attempt, ten_of
from checks.C40 import lie_fns, method_loc

ASSUMPTIONS = ["torch operations behave as documented", "the regions of rotation angles are those met at the listed angles"]


def mentions(p, out, seen):
    """base atoms of a form, through every function and named form"""
    for m in p:
        for k, _ in m:
            if k in seen:
                continue
            seen.add(k)
            inner(k, out, seen)


def inner(k, out, seen):
    n = k[0]
    if n == "let":
        return mentions(nf.LETS[k], out, seen)
    if n in ("chol", "inv"):
        for row in (nf.CHOL if n == "chol" else nf.INV)[k[1]]:
            for x in row:
                mentions(x, out, seen)
        return
    if n == "num":
        return
    if all(isinstance(i, int) for i in k[1:]):
        out.add(k)
        return
    for x in k[1:]:
        if isinstance(x, tuple):
            mentions(dict(x), out, seen)


def independent(s, results):
    B = max((t.shape[0] for _, t, _ in s.operands.values() if t.shape), default=1)
    if B == 1:
        return
    for label, t in results:
        if not t.shape or t.shape[0] != B:
            continue
        e = jac.entries(t)
        for i, p in e.items():
            if not isinstance(p, dict):
                continue
            out = set()
            mentions(p, out, set())
            for k in out:
                o = s.operands.get(k[0])
                if o is not None and o[1].shape[0] == B and k[1] != i[0]:
                    raise Wrong(f"{label}: entry {i[1:]} of batch element {i[0]} depends on {k[0]} of batch element {k[1]}")


def runs(a, r, rule, make, *args):
    for run in make(a, *args):
        def go():
            s = C.Setup(a)
            independent(s, run.go(s))
        attempt(r, rule, run.name, run.loc, go)


def weights(a, r):
    for cls in ("ScaleCostWeight", "DiagonalCostWeight", "GPCostWeight"):
        for meth in ("weight_error", "weight_jacobians_and_error"):
            def go():
                s = C.Setup(a)
                if cls == "GPCostWeight":
                    w, n = C.gp_weight(s, 2, 2), 4
                else:
                    n = 3
                    w = s.new(cls, s.tensor("scale", (2, 1 if cls.startswith("Scale") else n), lo=0.4))
                e = s.tensor("e", (2, n))
                out = s.do(w, meth, e) if meth == "weight_error" else s.do(w, meth, [s.tensor("J", (2, n, 3))], e)
                independent(s, ev.tensors(out))
            attempt(r, "cost weight", f"{cls}.{meth}", method_loc(a, cls, meth), go)


ANG = (1e-8, 1e-4, 4e-3, 8e-3, 0.03, 0.15, 0.9, 2.3, 3.13, 3.1415)


def mixed(a, r, kind, api, op, dtype, jacobians):
    """a batch over all regions against batches of one"""
    sp = C.space(kind)
    loc = method_loc(a, kind, op + "_map") if api == "class" else f"torchlie.functional.{kind}"
    n = len(ANG)

    def call(it, t):
        J = []
        if api == "class":
            if op == "exp":
                F = it.call(it.getattr(Cls(g.cls_of(it, kind)), "exp_map"), [t] + ([J] if jacobians else []), {})
            else:
                F = it.call(it.getattr(g.variable(it, kind, t, "t"), "log_map"), [J] if jacobians else [], {})
        else:
            F = it.call(it.getattr(lie_fns(it, kind), ("j" if jacobians else "") + op), [t], {})
            if jacobians:
                J, F = F
        return [ten_of(F), *J]

    def point(b):
        return sp.tangent_point("t", b, 3, ANG[b]) if op == "exp" else sp.point("t", b, 3, ANG[b])

    def run():
        w = {}
        for b in range(n):
            w.update(point(b))
        tn.LIMIT[0] = 3
        it = Interp(a, Region(dict(w)), dtype)
        t = tn.symbols("t", (n, sp.dof), dtype) if op == "exp" else sp.symbols("t", n, dtype)
        all_ = call(it, t)
        for b in range(n):
            w1 = {(k[0], 0, *k[2:]): v for k, v in w.items() if k[1] == b}
            i1 = Interp(a, Region(dict(w1)), dtype)
            one = call(i1, tn.symbols("t", (1, sp.dof), dtype) if op == "exp" else sp.symbols("t", 1, dtype))
            if len(one) != len(all_):
                raise Wrong("the number of results depends on the batch")
            for label, x, y in zip(("value", "jacobian"), all_, one):
                if tuple(x.shape) != (n, *y.shape[1:]):
                    raise Wrong(f"{label} of shape {tuple(x.shape)}, alone {tuple(y.shape)}")
                ex, ey = jac.entries(x), jac.entries(y)
                for i in ey:
                    u, v = nf.value(ex[(b, *i[1:])], it.region.w), nf.value(ey[i], i1.region.w)
                    if abs(u - v) > 1e-9 * max(1, abs(v)) and abs(u - v) > 8 * (nf.error(ex[(b, *i[1:])], it.region.w) + nf.error(ey[i], i1.region.w)):
                        raise Wrong(f"{label} of an element with rotation angle {ANG[b]:g} differs by {u - v:.2g} when the batch mixes angles")
    attempt(r, "mixed batch", f"{kind}.{op}{' with jacobians' if jacobians else ''}[{api},{dtype}]", loc, run)


def check(a, r):
    jobs = [(mixed, (k, api, op, dt, j)) for k in ("SE3", "SO3", "SE2", "SO2") for api in (("class", "torchlie") if k in ("SE3", "SO3") else ("class",))
            for op in ("log", "exp") for dt in ("float64", "float32") for j in (True, False)]
    jobs += [(runs, ("operation", ev.group_operations, p)) for p in ev.PARTS]
    jobs += [(runs, ("operation", ev.with_jacobians, k)) for k in ev.JAC] + [(runs, ("operation", ev.torchlie_jacobians))]
    jobs += [(runs, ("cost function", ev.cost_functions))]
    jobs += [(weights, ())]
    r.parallel(a, jobs)
