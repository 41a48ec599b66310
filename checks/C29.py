"""Moving an object moves everything it computes with. Objects of every class are built by the abstract interpreter from operands
of one dtype and device, moved by to(), and then (a) every tensor reachable from the object must have the new dtype and
device, (b) its results must have them, and no operation on the way may meet two floating dtypes or two devices."""
from sa import cases as C
from sa import geom as g
from sa.interp import Cls, Ext, Fn, Native, Obj, Ten
from sa.jac import Wrong, attempt, ten_of
from sa.everything import tensors
from checks.C40 import method_loc

ASSUMPTIONS = ["torch operations behave as documented, including type promotion; zero-dimensional tensors may be on any device"]
OLD, NEW = "float32", "float64"
VARIABLES = (*C.LIE, "Point2", "Point3", "vec3")


def setup(a):
    s = C.Setup(a, OLD)
    s.it.p_default = OLD
    return s


def reach(x, path="the object", seen=None, out=None):
    """(path, tensor) of every tensor held by x"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    if id(x) in seen:
        return out
    if isinstance(x, Ten):
        out.append((path, x))
        return out
    if isinstance(x, Obj):
        seen.add(id(x))
        for k, v in list(x.attrs.items()):
            reach(v, f"{path}.{k}", seen, out)
    elif isinstance(x, dict):
        seen.add(id(x))
        for k, v in list(x.items()):
            reach(v, f"{path}[{k!r}]" if isinstance(k, (str, int)) else f"{path}[...]", seen, out)
    elif isinstance(x, (list, tuple)):
        seen.add(id(x))
        for i, v in enumerate(x):
            reach(v, f"{path}[{i}]", seen, out)
    return out


def there(pairs):
    for path, t in pairs:
        if t.dtype.startswith("float") and t.dtype != NEW:
            raise Wrong(f"{path} still has dtype {t.dtype} after moving to {NEW}")
        if t.store.dev is not None and t.shape != ():
            raise Wrong(f"{path} is still on the {t.store.dev}")


def move(s, o, whole=True):
    held = reach(o)
    for _, t in held:
        t.store.dev = "old device"
    s.dtype = NEW
    s.it.mixed.clear()
    s.it.misplaced.clear()
    res = s.do(o, "to", device=Ext("device"), dtype=s.it.ext("torch." + NEW))
    if not whole and res is not o:
        raise Wrong("to() does not return the object")
    if whole:
        there(reach(o))
    s.it.mixed.clear()
    s.it.misplaced.clear()


def results(s, pairs):
    for label, t in pairs:
        if t.dtype.startswith("float") and t.dtype != NEW:
            raise Wrong(f"after moving to {NEW}, the {label} has dtype {t.dtype}")
        if t.store.dev is not None and t.shape != ():
            raise Wrong(f"after moving, the {label} is on the device of {t.store.dev}")
    if s.it.mixed:
        x, y, where = s.it.mixed[0]
        raise Wrong(f"after moving, an operation mixes {x} and {y} in {where}")
    if s.it.misplaced:
        op, where = s.it.misplaced[0]
        raise Wrong(f"after moving, the operation {op} in {where} meets a tensor that was not moved")


def variables(a, r):
    for k in VARIABLES:
        def go():
            s = setup(a)
            v = s.var("x", k)
            move(s, v)
            results(s, tensors(s.do(v, "copy")))
            if k in C.LIE:
                results(s, tensors(s.do(v, "log_map"), "logarithm"))
        attempt(r, "variable", k, method_loc(a, k if k in C.SP else "Vector", "to"), go)

    def plain():
        s = setup(a)
        move(s, s.aux("x", (2, 3)))
    attempt(r, "variable", "Variable", method_loc(a, "Variable", "to"), plain)


def weights(s):
    yield "ScaleCostWeight", lambda: s.weight()
    yield "DiagonalCostWeight", lambda: s.new("DiagonalCostWeight", s.tensor("diag", (2, 3), lo=0.4))
    yield "GPCostWeight", lambda: C.gp_weight(s, 3)


def evaluated(s, o):
    Js, F = s.do(o, "weighted_jacobians_error")
    results(s, [*tensors(Js, "jacobian"), *tensors(F, "error")])
    s.it.mixed.clear()
    results(s, tensors(s.do(o, "error"), "error"))


def costs(a, r):
    for cls, build, ins, tag in C.costs():
        if cls == "EffectorObjectContactPlanar" and tag != "mixed" or cls == "HingeCost" and tag != "mixed":
            continue

        def go():
            s = setup(a)
            o = build(s)
            move(s, o)
            evaluated(s, o)
        attempt(r, "cost function", cls + (f"[{tag}]" if tag else ""), method_loc(a, cls, "to"), go)

        def warm():
            s = setup(a)
            o = build(s)
            s.do(o, "jacobians")
            move(s, o)
            evaluated(s, o)
        attempt(r, "cost function", cls + (f"[{tag}]" if tag else "") + " used before", method_loc(a, cls, "to"), warm)
    for name in ("ScaleCostWeight", "DiagonalCostWeight", "GPCostWeight"):
        def go():
            s = setup(a)
            w = dict(weights(s))[name]()
            move(s, w)
            e = s.tensor("e", (2, 6 if name == "GPCostWeight" else 3))
            results(s, tensors(s.do(w, "weight_error", e), "weighted error"))
            results(s, tensors(s.do(w, "is_zero"), "zero test"))
        attempt(r, "cost weight", name, method_loc(a, name, "to"), go)

    def reproj():
        s = setup(a)
        o = s.new("Reprojection", s.var("cam", "SE3"), s.var("pt", "Point3"), s.var("img", "Point2", 1), s.var("f", "vec1", 1))
        move(s, o)
        evaluated(s, o)
    attempt(r, "cost function", "Reprojection with default calibration", method_loc(a, "Reprojection", "to"), reproj)


def loss_cls(s):
    return [Cls(c) for c in s.a.p.all_classes() if c.name in ("HuberLoss", "WelschLoss", "HingeLoss", "GemanMcClureLoss")]


def robust(a, r):
    for flatten in (False, True):
        for inner in ("Local", "autodiff"):
            def go():
                s = setup(a)
                c = s.new("Local", s.var("x", "SE2"), s.var("t", "SE2"), s.weight()) if inner == "Local" else autodiff(s, "vmap")
                radius = s.aux("radius", (1, 1))
                o = s.new("RobustCostFunction", c, loss_cls(s)[0], radius, flatten_dims=flatten)
                move(s, o)
                if inner == "Local":
                    evaluated(s, o)
                else:
                    results(s, tensors(s.do(o, "weighted_error"), "weighted error"))
            attempt(r, "robust cost", f"RobustCostFunction({inner}, flatten={flatten})", method_loc(a, "RobustCostFunction", "to"), go)


def gnc(a, r):
    for flatten in (False, True):
        def go():
            s = setup(a)
            c = s.new("Local", s.var("x", "SE2"), s.var("t", "SE2"), s.weight())
            loss = [Cls(k) for k in a.p.all_classes() if k.name == "GemanMcClureLoss"][0]
            o = s.new("GNCRobustCostFunction", c, loss, s.aux("radius", (1, 1)), s.aux("control", (1, 1), lo=1.5), flatten_dims=flatten)
            move(s, o)
            evaluated(s, o)
        attempt(r, "robust cost", f"GNCRobustCostFunction(flatten={flatten})", method_loc(a, "RobustCostFunction", "to"), go)


def autodiff(s, mode):
    def err(optim_vars, aux_vars):
        (x, v), (t,) = optim_vars, aux_vars
        return s.it.binop("-", s.it.binop("+", ten_of(x), ten_of(v)), ten_of(t))
    return s.new("AutoDiffCostFunction", [s.var("x", "vec3"), s.var("v", "vec3")], Native(err, "err"), 3, s.weight(),
                 aux_vars=[s.aux("t", (2, 3))], autograd_mode=mode)


def autodiffs(a, r):
    for mode in ("dense", "loop_batch", "vmap"):
        def go():
            s = setup(a)
            o = autodiff(s, mode)
            move(s, o)
            results(s, tensors(s.do(o, "error"), "error"))
            there(reach(o))
        attempt(r, "autodiff cost", mode, method_loc(a, "AutoDiffCostFunction", "to"), go)

        def used():
            s = setup(a)
            o = autodiff(s, mode)
            s.do(o, "error")
            move(s, o)
            results(s, tensors(s.do(o, "error"), "error"))
            there(reach(o))
        attempt(r, "autodiff cost", mode + " used before", method_loc(a, "AutoDiffCostFunction", "to"), used)


def fields(a, r):
    def go():
        s = setup(a)
        o, f, c = C.sdf_parts(s, 2)
        d = s.new("SignedDistanceField2D", o, c, f)
        move(s, d)
        results(s, tensors(s.do(d, "signed_distance", s.tensor("p", (2, 2, 3))), "distance"))
    attempt(r, "signed distance field", "SignedDistanceField2D", method_loc(a, "SignedDistanceField2D", "to"), go)


def old(s, v):
    ten_of(v).store.dev = "old device"
    return v


def problem(s, vectorize, name=""):
    o = s.new("Objective", dtype=s.it.ext("torch." + OLD))
    o.attrs["device"] = Ext("default device")
    w = s.weight()
    x, y = s.var("x" + name, "SE2"), s.var("y" + name, "SE2")
    for _, t, _ in s.operands.values():
        t.store.dev = "old device"
    for n, c in (("c1", s.new("Between", x, y, old(s, s.var("m" + name, "SE2")), w, name="c1")), ("c2", s.new("Local", x, old(s, s.var("t" + name, "SE2")), w, name="c2")),
                 ("c3", s.new("Local", y, old(s, s.var("t2" + name, "SE2")), w, name="c3"))):
        s.do(o, "add", c)
    if vectorize:
        s.new("Vectorize", o)
    s.do(o, "update", {})
    return o


def target(s, o, what):
    for k, want in (("dtype", "torch." + NEW), ("device", "device")):
        v = s.it.getattr(o, k)
        if isinstance(v, Ext) and v.name != want:
            raise Wrong(f"the {what} reports {k} {v.name} after moving")


def objectives(a, r):
    for vec in (False, True):
        tag = "vectorized" if vec else "plain"
        for used in (False, True):
            def go():
                s = setup(a)
                o = problem(s, vec)
                if used:
                    s.do(o, "error")
                    it = s.do(o, "_get_jacobians_iter")
                move(s, o, whole=False)
                there(reach(s.it.getattr(o, "cost_functions"), "cost_functions"))
                target(s, o, "objective")
                results(s, tensors(s.do(o, "error"), "error"))
                s.it.mixed.clear()
                for c in s.it.iterate(s.do(o, "_get_jacobians_iter")):
                    Js, F = s.do(c, "weighted_jacobians_error")
                    results(s, [*tensors(Js, "jacobian"), *tensors(F, "error")])
            attempt(r, "objective", f"{tag}{' used before' if used else ''}", method_loc(a, "Objective", "to"), go)


def layers(a, r):
    for vec in (False, True):
        def go():
            s = setup(a)
            o = problem(s, vec)
            lay = s.new("TheseusLayer", s.new("GaussNewton", o, max_iterations=1), vectorize=vec)
            second = {}
            for k, v in list(lay.attrs.items()):
                if v is None and "objective" in k:      # objectives the layer makes later
                    second[k] = lay.attrs[k] = problem(s, False, f"_{len(second)}")
            move(s, lay, whole=False)
            for k, v in second.items():
                there(reach(s.it.getattr(v, "cost_functions"), k))
            there(reach(s.it.getattr(o, "cost_functions"), "cost_functions"))
            target(s, o, "objective of the layer")
            target(s, lay, "layer")
            results(s, tensors(s.do(o, "error"), "error"))
        attempt(r, "layer", "vectorized" if vec else "plain", method_loc(a, "TheseusLayer", "to"), go)


def check(a, r):
    r.parallel(a, [(f, ()) for f in (variables, costs, robust, gnc, autodiffs, fields, objectives, layers)])
