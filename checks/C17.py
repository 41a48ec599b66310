"""Evaluation leaves its inputs alone. Every group operation, conversion, cost function, jacobian, cost weight and robust loss is run by
the abstract interpreter over symbolic operands with a storage model of tensors (views share storage, in-place operations write
through); afterwards every operand tensor and every variable must still hold exactly its own symbols, a second evaluation gives the same forms, and
values that are handed out (copies, jacobians, results of constructors) do not share storage with a variable."""
from sa import cases as C
from sa import everything as ev
from sa import jac
from sa.algebra import atom
from sa.jac import Wrong, attempt, ten_of
from checks.C40 import method_loc

ASSUMPTIONS = ["torch operations behave as documented, including which of them return views"]


def untouched(s, allowed=()):
    for name, (_, t, _) in s.operands.items():
        for i, p in t.arr().data.items():
            if p != atom((name, *i)):
                raise Wrong(f"entry {i} of the operand {name} was overwritten")
    for name, v in s.vars.items():
        if name in allowed or name not in s.operands:
            continue
        if v.attrs.get("tensor") is None:
            raise Wrong(f"variable {name} lost its tensor")
        ks = list(ten_of(v).arr().data.values())
        if ks != list(s.operands[name][1].arr().data.values()):
            raise Wrong(f"variable {name} was reassigned")


def runs(a, r, rule, make, *args):
    for run in make(a, *args):
        def go():
            s = C.Setup(a)
            run.go(s)
            untouched(s, ("x",) if "update_from" in run.name else ())
        attempt(r, rule, run.name, run.loc, go)


def twice(a, r):
    """a second evaluation of the same object returns the same; results are not shared storage"""
    for cls, build, ins, tag in C.costs():
        for meth in ("error", "jacobians", "weighted_jacobians_error", "weighted_error"):
            def go():
                s = C.Setup(a)
                o = build(s)
                first = ev.tensors(s.do(o, meth))
                held = [list(t.arr().data.values()) for _, t in first]
                second = ev.tensors(s.do(o, meth))
                if len(first) != len(second):
                    raise Wrong("the second evaluation has a different number of results")
                for (label, x), (_, y), h in zip(first, second, held):
                    if list(x.arr().data.values()) != h:
                        raise Wrong(f"the second evaluation overwrites the {label} returned by the first")
                    ex, ey = jac.entries(x), jac.entries(y)
                    if ex.keys() != ey.keys():
                        raise Wrong(f"{label} has shape {tuple(x.shape)} and then {tuple(y.shape)}")
                    for i in ex:
                        if ex[i] != ey[i] and abs(value(s, ex[i]) - value(s, ey[i])) > 1e-12 * max(1, abs(value(s, ex[i]))):
                            raise Wrong(f"the second evaluation of {label} differs at {i}")
                untouched(s)
            attempt(r, "repeated evaluation", f"{cls}{f'[{tag}]' if tag else ''}.{meth}", method_loc(a, cls, "error"), go)


def value(s, p):
    from sa import normal as nf
    return nf.value(p, s.w)


def fresh(a, r):
    """results do not share storage with the variables they are computed from"""
    for k in (*C.LIE, "Point2", "Point3", "vec3"):
        for meth, args in (("copy", 0), ("compose", 1), ("between", 1), ("inverse", 0), ("retract", "t"), ("log_map", 0), ("local", 1), ("adjoint", 0)):
            def go():
                s = C.Setup(a)
                x = s.var("x", k)
                more = [] if args == 0 else [s.var("y", k)] if args == 1 else [s.tangent("v", k)]
                F = ten_of(s.do(x, meth, *more))
                for n, (_, t, _) in s.operands.items():
                    if F.store is t.store:
                        if meth == "log_map" and k in ("Point2", "Point3", "vec3") or meth == "adjoint":
                            continue        # the vector itself
                        raise Wrong(f"the result shares storage with the operand {n}")
            attempt(r, "fresh results", f"{k}.{meth}", method_loc(a, "Vector" if k == "vec3" else k, meth), go)

    for cls, build, ins, tag in C.costs():
        def go():
            s = C.Setup(a)
            o = build(s)
            for label, t in ev.tensors(s.do(o, "jacobians")[0], "jacobian"):
                for n, (_, q, _) in s.operands.items():
                    if t.store is q.store:
                        raise Wrong(f"{label} shares storage with {n}")
        attempt(r, "fresh results", f"{cls}{f'[{tag}]' if tag else ''}.jacobians", method_loc(a, cls, "jacobians"), go)


def check(a, r):
    jobs = [(runs, ("operation", ev.group_operations, p)) for p in ev.PARTS]
    jobs += [(runs, ("operation", ev.with_jacobians, k)) for k in ev.JAC] + [(runs, ("operation", ev.torchlie_jacobians))]
    jobs += [(runs, ("cost function", ev.cost_functions)), (twice, ()), (fresh, ())]
    r.parallel(a, jobs)
