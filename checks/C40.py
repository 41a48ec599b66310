"""Analytic jacobians. The closed form of every operation with jacobians (variable classes,
torchlie operators) and of every cost function is extracted from the source as algebraic normal
forms of the entries of its operands (abstract interpretation of the code, branches split by the
sign of the quantity they compare; a cut in a large form is a name for the form). The value is
differentiated symbolically along the tangent directions of every operand and the difference with the
analytic block has to be the zero form (identity test of normal forms at points in general position).
Also: one block per operand in order and of the right shape, asking for jacobians does not change
the value, and forms used near singular angles agree with the generic ones at the border of their region."""
import math
from sa import cases as C
from sa import geom as g
from sa import jac
from sa import normal as nf
from sa import tensor as tn
from sa.algebra import add, mul
from sa.interp import Cls, Interp, Mod, Region, Ten
from sa.jac import Wrong, attempt, entries, ten_of

ASSUMPTIONS = ["real arithmetic; rounding is not modelled", "a form that vanishes at two points in general position is zero",
               "torch operations behave as documented"]


def method_loc(a, cls, meth):
    try:
        f = a.p.method(next(c for c in a.p.all_classes() if c.name == cls), meth)
        return f"{f.module.rel}:{f.node.lineno}" if hasattr(f.module, "rel") else a_loc(f)
    except Exception:
        return f"{cls}.{meth}"


def a_loc(f):
    return f"{getattr(f.module, 'path', f.module.name)}:{f.node.lineno}"


# ------------------------------------------------------------------ group operations
def operation(a, r, case):
    cls, meth = case.qual
    loc = method_loc(a, cls, meth)

    def run():
        s = C.Setup(a)
        Js = []
        F = ten_of(case.run(s, Js))
        plain = C.Setup(a)
        F0 = ten_of(case.run(plain, None))
        out = C.space(case.out)
        pts = [s.w, s.points(7)]
        d = jac.same(F0, F, pts)
        if d:
            raise Wrong(f"the value computed together with jacobians is not the value: {d}")
        jac.shapes(F, Js, case.ins, {n: s.operands[n][0].dof for n in case.ins})
        pts = [w for w in pts if g.holds(s.it, s.it.region.decided, w)]
        if not pts:
            raise jac.Unknown("no point of the region")
        bad = jac.vanish((((b, n, c, q), f) for b, n, c, q, f in jac.residuals(s.operands, F, Js, case.ins, out)), pts)
        if bad:
            (b, n, c, q), v = bad
            raise Wrong(f"jacobian for {'xy'.find(n) + 1 and ['first', 'second']['xy'.find(n)] or n} operand: component {q} of the derivative along "
                        f"direction {c} of batch element {b} is off by {v:.3g}")
    attempt(r, "operation", case.name, loc, run)


# ------------------------------------------------------------------ near singular angles
AXES = [(0.62, 0.55, 0.56), (0.3, -0.85, 0.43), (-0.35, 0.4, 0.85), (-0.9, -0.3, 0.32)]


def at_axis(space, name, angle, axis, op):
    n = math.sqrt(sum(x * x for x in axis))
    u = [x / n for x in axis]
    w = space.tangent_point(name, 0, 3, angle) if op == "exp" else space.point(name, 0, 3, angle)
    off = space.dof - 3
    if space.kind in ("SO3", "SE3"):
        if op == "exp":
            for i in range(3):
                w[(name, 0, off + i)] = u[i] * angle
        else:
            R = g.rodrigues(u, angle)
            for i in range(3):
                for j in range(3):
                    w[(name, 0, i, j)] = R[i][j]
    return w


def run_map(a, kind, op, angle, dtype, axis, jacobians=True):
    s = C.space(kind)
    w = at_axis(s, "t", angle, axis, op)
    tn.LIMIT[0] = 3
    it = Interp(a, Region(dict(w)), dtype)
    J = []
    args = [J] if jacobians else []
    if op == "exp":
        F = it.call(it.getattr(Cls(g.cls_of(it, kind)), "exp_map"), [tn.symbols("t", (1, s.dof), dtype), *args], {})
    else:
        x = g.variable(it, kind, s.symbols("t", 1, dtype), "t")
        F = it.call(it.getattr(x, "log_map"), args, {})
    return it, ten_of(F), J


def worst(A, B, w):
    A, B = entries(A), entries(B)
    return max(abs(nf.value(A[i], w) - nf.value(B[i], w)) for i in A)


def regimes(a, r, kind, op, dtype):
    loc = method_loc(a, kind, op + "_map")
    s = C.space(kind)

    def run():
        for axis in AXES if s.kind in ("SO3", "SE3") else AXES[:1]:
            def at(x):
                return at_axis(s, "t", x, axis, op)
            runs = {}
            for th in g.ANGLES:
                it, F, J = run_map(a, kind, op, th, dtype, axis)
                sig = tuple((o, v > 0) for o, d, v in it.region.decided)
                if sig in runs:
                    continue
                lo, hi = g.borders(it, it.region.decided, at, th)
                runs[sig] = (lo, hi, F, J[0], th)
            gen = next((v for v in runs.values() if v[0] <= 0.9 <= v[1]), None)
            if gen is None:
                raise Wrong("no form applies at angle 0.9")
            for lo, hi, F, J, th in runs.values():
                if F is gen[2]:
                    continue
                for what, A, B in (("value", F, gen[2]), ("jacobian", J, gen[3])):
                    if A.shape != B.shape:
                        raise Wrong(f"{what} has shape {tuple(A.shape)} near angle {th:g} and {tuple(B.shape)} elsewhere")
                    if hi < 1:
                        e1, e2 = worst(A, B, at(0.1)), worst(A, B, at(0.2))
                        if e2 < 1e-9:
                            continue
                        order = math.log2(max(e2, 1e-300) / max(e1, 1e-300))
                        err = e1 * (hi / 0.1) ** max(order, 0)
                        if err > 2e-4 or order < 1.7:
                            raise Wrong(f"{what} for angles below {hi:.2g} ({dtype}) is not a series of the general form: it differs by {err:.2g} at the border (order {order:.1f})")
                    elif lo > 1:
                        err = worst(A, B, at(lo + 1e-4 * (hi - lo)))
                        if err > 1e-4:
                            raise Wrong(f"{what} for angles above {lo:.5g} ({dtype}) differs by {err:.2g} from the general form at the border")
                    else:
                        err = max(worst(A, B, at(x)) for x in (lo, hi))
                        if err > 1e-7:
                            raise Wrong(f"{what} between angles {lo:.3g} and {hi:.3g} ({dtype}) differs by {err:.2g} from the general form")
    attempt(r, "near singular angles", f"{kind}.{op} {dtype}", loc, run)


# ------------------------------------------------------------------ torchlie
def torchlie_cases(a):
    out = []
    for k in ("SO3", "SE3"):
        d = C.space(k).dof
        out.append((k, "jexp", [("t", None, d)], k))
        out.append((k, "jlog", [("g", k, 0)], f"vec{d}"))
        out.append((k, "jinv", [("g", k, 0)], k))
        out.append((k, "jcompose", [("g", k, 0), ("h", k, 0)], k))
        out.append((k, "jtransform", [("g", k, 0), ("p", None, 3)], "vec3"))
        out.append((k, "juntransform", [("g", k, 0), ("p", None, 3)], "vec3"))
    return out


def lie_fns(it, k):
    m = next(v for n, v in it.p.modules.items() if n.endswith("functional." + k.lower() + "_impl"))
    return it.getattr(Mod(m), "_fns")


def torchlie_op(a, r, k, jop, ins, out):
    for lead in ((2,), (2, 1), ()):
        def run():
            s = C.Setup(a)
            args, flat = [], []
            n = math.prod(lead)
            for nm, kind, d in ins:
                if kind:
                    t = s.group(nm, kind, n)
                elif nm == "t":
                    t = s.tangent(nm, k, n)
                else:
                    t = s.tensor(nm, (n, d))
                    s.operands[nm] = (C.space(f"vec{d}"), t, s.operands[nm][2])
                args.append(s.do(t, "reshape", *lead, *t.shape[1:]))
            fns = lie_fns(s.it, k)
            Js, F = s.do(fns, jop, *args)
            F0 = s.do(fns, jop[1:], *args)
            if tuple(F.shape[:len(lead)]) != lead:
                raise Wrong(f"value of shape {tuple(F.shape)} for leading dimensions {lead}")
            pts = [s.w, s.points(7)]
            dd = jac.same(F0, F, pts)
            if dd:
                raise Wrong(f"the value returned with jacobians is not the value: {dd}")
            F = s.do(F, "reshape", n, *F.shape[len(lead):])
            if not isinstance(Js, (list, tuple)):
                raise Wrong("jacobians are not a list")
            J2 = []
            for J in Js:
                if tuple(J.shape[:-2]) != lead:
                    raise Wrong(f"jacobian of shape {tuple(J.shape)} for leading dimensions {lead}")
                J2.append(s.do(J, "reshape", n, *J.shape[-2:]))
            names = [i[0] for i in ins]
            jac.shapes(F, J2, names, {m: s.operands[m][0].dof for m in names})
            pts = [w for w in pts if g.holds(s.it, s.it.region.decided, w)]
            if not pts:
                raise jac.Unknown("no point of the region")
            bad = jac.vanish((((b, m, c, q), f) for b, m, c, q, f in jac.residuals(s.operands, F, J2, names, C.space(out))), pts)
            if bad:
                (b, m, c, q), v = bad
                raise Wrong(f"jacobian for operand {names.index(m)}: component {q} of the derivative along direction {c} is off by {v:.3g}")
        attempt(r, "torchlie", f"{k}.{jop} leading {lead}", f"torchlie {k}", run)


def quaternion(a, r):
    """derivative of the rotation with respect to the entries of the quaternion"""
    def run():
        s = C.Setup(a)
        q = s.tensor("q", (2, 4))
        s.operands["q"] = (C.space("vec4"), q, unit4)
        for b in range(2):
            s.w.update(unit4(b, 3 + b))
        Js, F = s.do(lie_fns(s.it, "SO3"), "jquaternion_to_rotation", q)
        w2 = {}
        for b in range(2):
            w2.update(unit4(b, 13 + b))
        if len(Js) != 1:
            raise Wrong(f"{len(Js)} jacobians for one operand")
        # tangent to the unit sphere: directions orthogonal to q
        J = entries(Js[0])
        f = entries(F)
        for b in range(2):
            for d in range(3):
                # direction: q times the d-th imaginary unit
                dirs = quat_dir(b, d)
                base = dict(zip([("q", b, i) for i in range(4)], dirs))
                df = {i: nf.derive(v, lambda key: base.get(key)) for i, v in f.items() if i[0] == b}
                rows = [{} for _ in range(3)]
                for m in range(3):
                    for i in range(4):
                        rows[m] = add(rows[m], mul(J[b, m, i], dirs[i]))
                for n, (e, co) in enumerate(C.space("SO3").velocity(f, df, b)):
                    x = dict(e)
                    for m in range(3):
                        x = add(x, mul(co[m], rows[m]), -1)
                    bad = jac.vanish([(n, x)], [s.w, w2])
                    if bad:
                        raise Wrong(f"derivative along quaternion direction {d} is off by {bad[1]:.3g}")
    attempt(r, "torchlie", "SO3.jquaternion_to_rotation", "torchlie SO3", run)


def unit4(b, seed):
    rr = g.Rnd(seed)
    v = [rr() for _ in range(4)]
    n = math.sqrt(sum(x * x for x in v))
    return {("q", b, i): v[i] / n for i in range(4)}


def quat_dir(b, d):
    from sa.algebra import atom, num
    q = [atom(("q", b, i)) for i in range(4)]
    neg = [mul(num(-1), x) for x in q]
    return {0: [neg[1], q[0], q[3], neg[2]], 1: [neg[2], neg[3], q[0], q[1]], 2: [neg[3], q[2], neg[1], q[0]]}[d]


# ------------------------------------------------------------------ cost functions
def cost(a, r, cls, build, ins, tag, sizes):
    loc = method_loc(a, cls, "jacobians")
    name = cls + (f"[{tag}]" if tag else "") + (" batch " + ",".join(f"{k}={v}" for k, v in sorted(sizes.items())) if sizes else "")

    def run():
        s = C.Setup(a, sizes=sizes)
        o = build(s)
        F0 = s.do(o, "error")
        got = s.do(o, "jacobians")
        if not isinstance(got, (tuple, list)) or len(got) != 2:
            raise Wrong("jacobians() does not return a pair")
        Js, F = got
        pts = [s.w, s.points(7)]
        pts = [w for w in pts if g.holds(s.it, s.it.region.decided, w)]
        if not pts:
            raise jac.Unknown("no point of the region")
        d = jac.same(F0, F, pts)
        if d:
            raise Wrong(f"the error returned with the jacobians is not error(): {d}")
        dim = s.do(o, "dim")
        if F.shape[1:] != (dim,):
            raise Wrong(f"error of shape {tuple(F.shape)} with dim() {dim}")
        jac.shapes(F, Js, ins, {n: s.operands[n][0].dof for n in ins})
        bad = jac.vanish((((b, n, c, q), f) for b, n, c, q, f in jac.residuals(s.operands, F, Js, ins, None)), pts)
        if bad:
            if "m" in s.operands and s.operands["m"][0] and group_valued(s, o, F, Js, ins, pts):
                return r.check(False, "cost function", f"{cls}[{tag}] derivative of the logarithm", loc,
                               "the jacobians are those of the measured group element, the derivative of its logarithm is missing")
            (b, n, c, q), v = bad
            raise Wrong(f"jacobian for variable {ins.index(n)}: row {q}, direction {c} of batch element {b} is off by {v:.3g}")
    attempt(r, "cost function", name, loc, run)


def group_valued(s, o, F, Js, ins, pts):
    """the blocks are the derivative of the group element whose logarithm is the error"""
    sp = s.operands["m"][0]
    G = ten_of(s.do(s.it.getattr(o, "measurement"), "retract", F))
    return jac.vanish(((None, f) for *_, f in jac.residuals(s.operands, G, Js, ins, sp)), pts) is None


def check(a, r):
    jobs = [(cost, (cls, build, ins, tag, sizes)) for cls, build, ins, tag in C.costs()
            for sizes in ([{}] + ([{ins[0]: 1}, {n: 1 for n in ins[1:]}] if len(ins) > 1 else []))]
    jobs += [(regimes, (k, op, dt)) for k in reversed(C.LIE) for op in ("exp", "log") for dt in ("float64", "float32")]
    jobs += [(torchlie_op, x) for x in torchlie_cases(a)] + [(quaternion, ())]
    jobs += [(operation, (case,)) for case in C.theseus_ops()]
    r.parallel(a, jobs)


__all__ = ["check", "Ten"]
