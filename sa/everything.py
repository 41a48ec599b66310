"""All operations with a value: every operation of the variable classes and of the torchlie tables, and every cost
function with its jacobians and weight; as runs on a Setup that return the labelled result tensors."""
from . import cases as C
from .cases import ten_of
from .interp import Ten


class Run:
    def __init__(self, name, loc, go, kind):
        self.name, self.loc, self.go, self.kind = name, loc, go, kind


class Collector:
    def __init__(self):
        self.runs = []

    def take(self, rule, name, loc, build):
        def go(s):
            F, B, f = build(s)
            return [("value", ten_of(F))]
        self.runs.append(Run(name, loc, go, rule))


def tensors(x, label="value"):
    """labelled tensors in a result"""
    if isinstance(x, (list, tuple)):
        return [z for i, y in enumerate(x) for z in tensors(y, f"{label} {i}")]
    x = ten_of(x)
    return [(label, x)] if isinstance(x, Ten) else []


def group_operations(a, part):
    """part: a Lie group, "vectors", "conversions", or (torchlie kind, leading dimensions)"""
    from checks import C19
    c = Collector()
    if part == "vectors":
        C19.vectors(a, c)
    elif part == "conversions":
        C19.parts_of(a, c)
    elif isinstance(part, tuple):
        C19.torchlie(a, c, *part)
    else:
        C19.variables(a, c, part)
    return c.runs


PARTS = ["SE3", "SO3", "SE2", "SO2", "vectors", "conversions", ("SE3", (2,)), ("SO3", (2,))]


def with_jacobians(a, group):
    from checks.C40 import method_loc
    out = []
    for case in C.theseus_ops():
        if case.qual[0] == group or group == "Point" and case.qual[0].startswith("Point"):
            def go(s, case=case):
                J = []
                F = ten_of(case.run(s, J))
                return [("value", F), *tensors(J, "jacobian")]
            out.append(Run(case.name, method_loc(a, *case.qual), go, "jacobians"))
    return out


JAC = ["SE3", "SO3", "SE2", "SO2", "Point"]


def torchlie_jacobians(a):
    from checks.C40 import torchlie_cases, lie_fns
    out = []
    for k, jop, ins, o in torchlie_cases(a):
        def go(s, k=k, jop=jop, ins=ins):
            args = []
            for nm, kind, d in ins:
                args.append(s.group(nm, kind, 2) if kind else s.tangent(nm, k, 2) if nm == "t" else s.tensor(nm, (2, d)))
            Js, F = s.do(lie_fns(s.it, k), jop, *args)
            return [("value", ten_of(F)), *tensors(Js, "jacobian")]
        out.append(Run(f"{k}.{jop}", f"torchlie.functional.{k}", go, "jacobians"))
    return out


def cost_functions(a, weighted=True):
    from checks.C40 import method_loc
    out = []
    for cls, build, ins, tag in C.costs():
        def err(s, build=build):
            return tensors(s.do(build(s), "error"), "error")

        def jac(s, build=build):
            Js, F = s.do(build(s), "jacobians")
            return [*tensors(Js, "jacobian"), *tensors(F, "error")]

        def wgt(s, build=build):
            Js, F = s.do(build(s), "weighted_jacobians_error")
            return [*tensors(Js, "jacobian"), *tensors(F, "error")]
        n = cls + (f"[{tag}]" if tag else "")
        for what, f in (("error", err), ("jacobians", jac), ("weighted_jacobians_error", wgt)):
            out.append(Run(f"{n}.{what}", method_loc(a, cls, "error" if what == "error" else "jacobians"), f, "cost function"))
    return out
