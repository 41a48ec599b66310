"""Gradients of solutions. The layer is followed symbolically in every backward mode on client problems whose minimizer is known in closed form: the
derivative of the returned values with respect to every input is compared with the derivative of the minimizer, and the direct loss gradient with the
same derivative applied to the incoming gradient."""
from sa import sense
from sa.rules import AnalysisBroken
from checks.C40 import method_loc

ASSUMPTIONS = ["real arithmetic; rounding is not modelled (tolerance 1e-7, and 30 epsilon for the direct loss gradient)", "factorizations and triangular solves are exact",
               "torch operations behave as documented, detach and no_grad cut the derivative", "python semantics without monkey patching"]
POSES = [("SO2", "implicit", False), ("SO2", "unroll", False), ("SO2", "implicit", True), ("SO2", "unroll", True), ("SE2", "unroll", False),
         ("SE2", "implicit", True), ("SE2", "unroll", True)]


def check(a, r):
    for c in ("TheseusLayer", "GaussNewton", "NonlinearLeastSquares"):
        if a.p.cls(c) is None:
            raise AnalysisBroken(f"class {c} not found")
    loc = method_loc(a, "NonlinearLeastSquares", "_optimize_impl")
    jobs = [(sense.poses, (loc, k, m, {}, c)) for k, m, c in POSES[::-1]]
    jobs += [(sense.exact, (loc, "GaussNewton", m, kw, (s,))) for m, kw in sense.MODES for s in sense.SOLVERS]
    jobs += [(sense.exact, (loc, o, "implicit", {}, (s,))) for o in ("LevenbergMarquardt", "Dogleg") for s in sense.SOLVERS]
    jobs += [(sense.direct, (method_loc(a, "TheseusLayerDLMForward", "backward"), n)) for n in range(3)]
    r.parallel(a, jobs)
