"""Results keep the precision and device of their inputs. Every group operation, conversion, constructor, cost function, jacobian and
cost weight is run by the abstract interpreter on operands whose dtype is not torch's default dtype; the result must have the
operands' dtype, no operation may meet two floating dtypes, and every tensor that is created on the way must be
created on a device taken from the inputs."""
from sa import cases as C
from sa import everything as ev
from sa import geom as g
from sa.interp import Cls, Ext, Mod
from sa.everything import tensors
from sa.jac import Wrong, attempt, ten_of
from checks.C40 import lie_fns, method_loc

ASSUMPTIONS = ["torch operations behave as documented, including type promotion; zero-dimensional tensors may be on any device"]


def setup(a, dtype):
    s = C.Setup(a, dtype)
    s.it.p_default = {"float32": "float64", "float64": "float32"}[dtype]
    return s


def kept(s, results):
    for label, t in results:
        if t.dtype.startswith("float") and t.dtype != s.dtype:
            raise Wrong(f"the {label} has dtype {t.dtype} for {s.dtype} operands")
    if s.it.mixed:
        x, y, where = s.it.mixed[0]
        raise Wrong(f"an operation mixes {x} and {y} in {where}")
    if s.it.rounded and s.dtype == "float64":
        x, y, where = s.it.rounded[0]
        raise Wrong(f"a value is rounded by the conversion from {x} to {y} in {where}")
    for label, t in results:
        if t.store.dev is not None and t.shape != ():
            raise Wrong(f"the {label} is on the device of {t.store.dev}")
    if s.it.misplaced:
        op, where = s.it.misplaced[0]
        raise Wrong(f"the operation {op} in {where} meets a tensor of the default device")


def runs(a, r, rule, make, *args):
    for run in make(a, *args):
        for dtype in ("float64", "float32"):
            def go():
                s = setup(a, dtype)
                res = run.go(s)
                kept(s, res)
            attempt(r, rule, f"{run.name} {dtype}", run.loc, go)


def constructors(a, r):
    for dtype in ("float64", "float32"):
        for k in (*C.LIE, "Point2", "Point3"):
            for meth in ("rand", "randn"):
                def go():
                    s = setup(a, dtype)
                    kept(s, [("result", ten_of(s.do(Cls(g.cls_of(s.it, k)), meth, 2, dtype=s.it.ext("torch." + dtype), device=Ext("device"))))])
                attempt(r, "constructor", f"{k}.{meth} {dtype}", method_loc(a, k, meth), go)

            def go():
                s = setup(a, dtype)
                t = ten_of(s.do(Cls(g.cls_of(s.it, k)), "_init_tensor"))
                if t.dtype != s.it.p_default:
                    raise Wrong(f"a variable without tensor has dtype {t.dtype}")
        for k in ("SO3", "SE3"):
            for meth in ("rand", "randn", "identity"):
                def go():
                    s = setup(a, dtype)
                    kept(s, [("result", ten_of(s.do(lie_fns(s.it, k), meth, 2, dtype=s.it.ext("torch." + dtype), device=Ext("device"))))])
                attempt(r, "constructor", f"torchlie {k}.{meth} {dtype}", f"torchlie.functional.{k}", go)


def constructed(a, r):
    """values made by constructors and options from nothing or from other classes"""
    for dtype in ("float64", "float32"):
        dt = "torch." + dtype

        def case(name, loc, f):
            def go():
                s = setup(a, dtype)
                kept(s, f(s))
            attempt(r, "constructor", f"{name} {dtype}", loc, go)
        for meth in ("rand", "randn"):
            def f(s, meth=meth):
                t = ten_of(s.do(Cls(g.cls_of(s.it, "Vector")), meth, 2, 3, dtype=s.it.ext(dt), device=Ext("device")))
                return [("result", t)]
            case(f"Vector.{meth}", method_loc(a, "Vector", meth), f)
        for k in (*C.LIE, "Point2", "Point3", "vec3"):
            def f(s, k=k):
                cls = Cls(g.cls_of(s.it, k if k in C.SP else "Vector"))
                v = s.it.call(cls, [] if k in C.SP else [3], {"dtype": s.it.ext(dt)})
                ten_of(v).store.dev = None          # the device is not an option of the constructor
                return [("value", ten_of(v))]
            case(f"{k}(dtype)", method_loc(a, k if k in C.SP else "Vector", "__init__"), f)

        def norm(s):
            return [("result", s.do(Cls(g.cls_of(s.it, "SO2")), "normalize", s.tensor("x", (2, 2))))]
        case("SO2.normalize", method_loc(a, "SO2", "normalize"), norm)

        def adj(s):
            return tensors(s.do(s.var("x", "vec3"), "adjoint"), "adjoint")
        case("Vector.adjoint", method_loc(a, "Vector", "adjoint"), adj)

        def zero(s):
            w = C.gp_weight(s, 3)
            s.it.misplaced.clear()
            return tensors(s.do(w, "is_zero"), "zero test")
        case("GPCostWeight.is_zero", method_loc(a, "GPCostWeight", "is_zero"), zero)

        def approx(s):
            G = [m for m in a.p.modules.values() if "_THESEUS_GLOBAL_PARAMS" in m.vars]
            s.it.setattr(s.it.getattr(Mod(G[0]), "_THESEUS_GLOBAL_PARAMS"), "fast_approx_local_jacobians", True)
            c = s.new("Local", s.var("x", "SE3"), s.var("t", "SE3", 1), s.weight())
            out = []
            for _ in range(2):
                Js, F = s.do(c, "weighted_jacobians_error")
                out += [*tensors(Js, "jacobian"), *tensors(F, "error")]
            return out
        case("Local with approximate jacobians", method_loc(a, "Local", "jacobians"), approx)

        def reproj(s):
            c = s.new("Reprojection", s.var("cam", "SE3"), s.var("pt", "Point3"), s.var("img", "Point2", 1), s.var("f", "vec1", 1))
            Js, F = s.do(c, "weighted_jacobians_error")
            return [*tensors(Js, "jacobian"), *tensors(F, "error"), *[(n, ten_of(v)) for n, v in c.attrs.items() if hasattr(v, "attrs") and "tensor" in v.attrs]]
        case("Reprojection with default calibration", method_loc(a, "Reprojection", "__init__"), reproj)

        def asvar(s):
            f = s.it.getattr(Mod([m for m in a.p.modules.values() if "as_variable" in m.functions][0]), "as_variable")
            return tensors(s.it.call(f, [0.5], {"dtype": s.it.ext(dt), "device": Ext("device")}), "variable")
        case("as_variable", "theseus/core/variable.py", asvar)


def check(a, r):
    jobs = [(runs, ("operation", ev.group_operations, p)) for p in ev.PARTS]
    jobs += [(runs, ("operation", ev.with_jacobians, k)) for k in ev.JAC] + [(runs, ("operation", ev.torchlie_jacobians))]
    jobs += [(runs, ("cost function", ev.cost_functions)), (constructors, ()), (constructed, ())]
    r.parallel(a, jobs)
