"""Samples of the layer. compute_samples() is followed symbolically on client problems with noise entries as symbols: the samples are affine in the
noise, their mean is the solved state, and their covariance times the system matrix is the temperature, sample by sample and batch element by batch element."""
from sa import linear as L
from sa import normal as nf
from sa import system as sy
from sa import tensor as tn
from sa.jac import Wrong, attempt, ten_of
from sa.rules import AnalysisBroken
from sa.state import accepted
from checks.C40 import method_loc

ASSUMPTIONS = ["torch.normal and torch.randn draw independent standard normal entries", "triangular solves and Cholesky factors are exact",
               "python semantics without monkey patching"]
GIVEN = '''
class Idle(Optimizer):
    def _optimize_impl(self, **kwargs):
        return OptimizerInfo({}, None)
'''
SAMPLES = 2


def numbers(t, w, shape):
    t = ten_of(t)
    if tuple(t.shape) != shape:
        raise Wrong(f"samples have shape {tuple(t.shape)} instead of {shape}")
    return {i: nf.value(tn.poly(v), dict(w)) for i, v in t.arr().data.items()}


def close(x, y):
    return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))


def drawn(a, r, spec, cls, batch, weights, temperature, defaults=False):
    def go():
        s, P = L.setup(a, spec, batch, weights)
        it = s.it
        idle = it.define(GIVEN, "theseus.optimizer.optimizer")["Idle"]
        layer = s.new("TheseusLayer", it.call(idle, [P.objective], {}), vectorize=False)
        sv = L.new_solver(s, P, cls)
        s.do(it.getattr(sv, "linearization"), "linearize")
        base = {k: v for k, v in s.w.items()}
        kw = {} if defaults else {"n_samples": SAMPLES, "temperature": temperature}
        out = accepted("compute_samples", lambda: s.do(layer, "compute_samples", sv, **kw))
        if out is None:
            raise Wrong("compute_samples returns nothing")
        m = 10 if defaults else SAMPLES
        shape = (batch, P.cols, m)
        noise = [k for k in s.w if k not in base and isinstance(k[0], str) and k[0].startswith("rand")]
        if not noise:
            raise Wrong("the samples do not depend on any noise")
        still = base | {k: 0.0 for k in noise}
        mean = numbers(out, still, shape)
        A, rhs = P.expected()
        AtA, Atb = sy.normal(A, rhs)
        w = dict(base)
        H = [[[nf.value(x, w) for x in row] for row in M] for M in AtA]
        g = [[nf.value(x, w) for x in row] for row in Atb]
        x0 = [[nf.value(tn.poly(ten_of(P.vars[n]).arr().data[(b, i)]), w) for n in P.names for i in range(P.sizes[n])] for b in range(batch)]
        names = [n for n in P.names for _ in range(P.sizes[n])]
        for b in range(batch):
            for c in range(m):
                d = [mean[(b, i, c)] - x0[b][i] for i in range(P.cols)]
                for i in range(P.cols):
                    v = sum(H[b][i][j] * d[j] for j in range(P.cols))
                    if not close(v, g[b][i]):
                        raise Wrong(f"the mean of sample {c} of batch element {b} is not the solved state (equation {i}, variable {names[i]}: {v:.6g} instead of {g[b][i]:.6g})")
        cols = []
        for k in noise:
            one = numbers(out, still | {k: 1.0}, shape)
            cols.append({i: one[i] - mean[i] for i in one})
        two = numbers(out, base | {k: 2.0 for k in noise}, shape)
        for i in two:
            if not close(two[i], mean[i] + 2 * sum(c[i] for c in cols)):
                raise Wrong("the samples are not affine in the noise")
        for b in range(batch):
            for c in range(m):
                for e in range(m):
                    cov = [[sum(M[(b, i, c)] * M[(b, j, e)] for M in cols) for j in range(P.cols)] for i in range(P.cols)]
                    for i in range(P.cols):
                        for j in range(P.cols):
                            v = sum(H[b][i][k] * cov[k][j] for k in range(P.cols))
                            want = temperature if i == j and c == e else 0.0
                            if not close(v, want):
                                raise Wrong(f"covariance of samples {c} and {e} of batch element {b} times the system matrix is {v:.6g} instead of {want:.6g} in entry {i}, {j}")
    attempt(r, "sample distribution", f"{cls}[{spec[0]}, batch {batch}, temperature {temperature}{', defaults' if defaults else ''}]", method_loc(a, "TheseusLayer", "compute_samples"), go)


def absent(a, r):
    """without a solver there are no samples"""
    def go():
        s, P = L.setup(a, sy.PROBLEMS[0])
        idle = s.it.define(GIVEN, "theseus.optimizer.optimizer")["Idle"]
        layer = s.new("TheseusLayer", s.it.call(idle, [P.objective], {}), vectorize=False)
        for args in ((), (None,)):
            if accepted("compute_samples without a solver", lambda: s.do(layer, "compute_samples", *args)) is not None:
                raise Wrong("compute_samples without a solver returns samples")
    attempt(r, "no samples without a solver", "TheseusLayer.compute_samples", method_loc(a, "TheseusLayer", "compute_samples"), go)


def check(a, r):
    layer = a.p.cls("TheseusLayer")
    if layer is None or "compute_samples" not in layer.methods and not any("compute_samples" in c.methods for c in a.p.subclasses(layer)):
        raise AnalysisBroken("TheseusLayer.compute_samples not found")
    jobs = [(absent, ())]
    for spec in sy.PROBLEMS:
        for cls in ("CholeskyDenseSolver", "LUDenseSolver"):
            for batch, weights, temperature in ((2, True, 1.0), (1, True, 0.25), (3, True, 4.0)):
                jobs.append((drawn, (spec, cls, batch, weights, temperature)))
    jobs.append((drawn, (sy.PROBLEMS[3], "CholeskyDenseSolver", 2, True, 1.0, True)))
    r.parallel(a, jobs)
