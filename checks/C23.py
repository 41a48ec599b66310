"""Damping and trust region: runs of the real Levenberg-Marquardt and Dogleg optimizers on a client's cost function are interpreted over the source
and every state they leave behind is compared with the documented rules, element by element; modes that cannot be honoured are refused."""
from sa import adapt, runs
from sa.rules import *  # noqa: F401,F403

ASSUMPTIONS = ["linear solves return the solution of the system they are given (dense and sparse back ends)",
               "python semantics without monkey patching"]


def check(a, r):
    lm, tr = a.p.cls("LevenbergMarquardt"), a.p.cls("TrustRegion")
    nls = a.p.cls("NonlinearLeastSquares")
    if lm is None or nls is None or a.p.cls("Dogleg") is None:
        raise AnalysisBroken("LevenbergMarquardt, Dogleg or NonlinearLeastSquares not found")

    def loc(c):
        f = (c.methods.get("_complete_step") or next(iter(c.methods.values()), None)) if c is not None else None
        return f.loc if f is not None else nls.loc
    jobs = [(runs.settings, (loc(nls),))]
    for cls, c, table, solvers in (("LevenbergMarquardt", lm, adapt.LM, (None, "LUDenseSolver", "CholmodSparseSolver")),
                                   ("Dogleg", tr or a.p.cls("Dogleg"), adapt.TR, (None, "LUDenseSolver", "CholmodSparseSolver"))):
        jobs += [(adapt.runs, (loc(c), cls, [x], solvers)) for x in table]
        jobs += [(adapt.refusals, (loc(c), cls)), (adapt.solver_reset, (loc(c), cls))]
    r.parallel(a, jobs)
