"""Robot kinematics. Robots of every joint kind and tree shape (chains, branches, fixed joints at the root, in the middle, at the end
and in sequence, any order of links and joints in the description) are built by interpreting the source over symbolic origins, axes
and joint values; the extracted closed form of every link pose, of the spatial and body jacobians and of the custom derivative rule is
compared with the product of joint transforms along the path from the root."""
from sa import cases as C
from sa import geom as g
from sa import jac
from sa import normal as nf
from sa import spec
from sa import tensor as tn
from sa.algebra import add, atom, mul, num
from sa.interp import Cls, Ctx, Mod, Native, Obj, Raised, Ten
from sa.jac import Wrong, attempt
from sa.state import accepted
from checks.C19 import At, compare

ASSUMPTIONS = ["real arithmetic; rounding is not modelled", "torch operations behave as documented",
               "the parser returns the description's links and joints (third_party is not analysed)"]
R, P, F = "revolute", "prismatic", "fixed"
# links in order of the description; joints (name, type, parent, child, parts of the origin given)
TREES = {
    "chain": (["root", "a", "b", "c"], [("j1", R, "root", "a", "xr"), ("j2", P, "a", "b", "xr"), ("j3", "continuous", "b", "c", "x")]),
    "tree": (["b2", "root", "a", "tip", "f", "b"],
             [("jt", P, "f", "tip", "xr"), ("jb", R, "root", "b", "r"), ("jf", F, "a", "f", "xr"), ("ja", R, "root", "a", "xr"), ("jb2", R, "b", "b2", "xr")]),
    "fixed": (["f2", "root", "f1", "a", "f3", "f4", "b"],
              [("jf2", F, "f1", "f2", "xr"), ("jf1", F, "root", "f1", "xr"), ("ja", R, "f2", "a", "xr"), ("jf3", F, "a", "f3", "xr"),
               ("jf4", F, "f3", "f4", None), ("jb", P, "f4", "b", "xr")]),
    "branches": (["root", "a", "fa", "b", "c", "d", "e"],
                 [("ja", R, "root", "a", "xr"), ("jfa", F, "a", "fa", "xr"), ("jb", R, "root", "b", "xr"), ("jc", R, "fa", "c", "xr"),
                  ("jd", P, "a", "d", "xr"), ("je", R, "b", "e", "xr")]),
}
PICKS = {
    "chain": [None, ["c"], ["b", "a"], ["root"], ["c", "root"]],
    "tree": [None, ["tip", "b2"], ["f"], ["b2"], ["tip"]],
    "fixed": [None, ["f4", "b"], ["f2"], ["f4"], ["f1", "a", "f3"]],
    "branches": [None, ["c", "e"], ["e", "d"], ["fa"], ["d", "fa", "c", "b"]],
}


class Robot:
    def __init__(self, s, tree):
        self.s = s
        it = s.it
        links, joints = TREES[tree]
        self.joints = {n: (t, p, c, o) for n, t, p, c, o in joints}
        self.parent = {c: n for n, t, p, c, o in joints}

        def values(name):
            t = s.tensor(name, (1, 3))
            return [tn.full((), p, "scalar") for p in t.flat()]

        def joint(n, t, p, c, o):
            origin = None if o is None else Obj(Ctx, {"xyz": values(n + "_x") if "x" in o else None, "rpy": values(n + "_r") if "r" in o else None})
            return Obj(Ctx, {"name": n, "type": t, "joint_type": t, "parent": p, "child": c, "origin": origin, "mimic": None,
                             "axis": values(n + "_a") if t != F else None, "limit": None})
        m = Obj(Ctx, {"name": "robot", "links": [Obj(Ctx, {"name": n}) for n in links]})
        m.attrs["joints"] = [joint(*j) for j in joints]
        m.attrs["get_root"] = Native(lambda: "root", "get_root")
        m.attrs["link_map"] = {x.attrs["name"]: x for x in m.attrs["links"]}
        m.attrs["joint_map"] = {x.attrs["name"]: x for x in m.attrs["joints"]}
        load = lambda *x, **k: m        # noqa: E731
        it.hooks[("URDF", "from_xml_file")] = load
        for k in ("urdf_parser_py.urdf.URDF.from_xml_file", "torchkin.third_party.urdf_parser_py.urdf.URDF.from_xml_file"):
            it.hooks[k] = load
        self.robot = s.do(Cls(g.cls_of(it, "Robot")), "from_urdf_file", "robot.urdf", dtype=it.ext("torch." + s.dtype))
        self.moving = [n for n, t, *_ in joints if t != F]
        self.ids = {n: it.getattr(self.item("joint_map", n), "id") for n in self.moving}
        dof = it.getattr(self.robot, "dof")
        if dof != len(self.moving):
            raise Wrong(f"{dof} degrees of freedom for {len(self.moving)} moving joints")
        if sorted(self.ids.values()) != list(range(dof)):
            raise Wrong(f"joint ids {self.ids}")
        self.dof = dof

    def item(self, table, name):
        return self.s.it.getattr(self.robot, table)[name]

    def fns(self, pick):
        it = self.s.it
        f = it.getattr(Mod(it.p.modules["torchkin"]), "get_forward_kinematics_fns")
        return it.call(f, [self.robot] + ([pick] if pick is not None else []), {})

    def names(self, pick):
        return pick if pick is not None else [self.s.it.getattr(x, "name") for x in self.s.it.getattr(self.robot, "links")]

    # ---- documented values
    def path(self, link):
        out = []
        while link in self.parent:
            out.insert(0, self.parent[link])
            link = self.joints[self.parent[link]][1]
        return out

    def origin(self, w, n):
        o = self.joints[n][3] or ""
        x = [w[(n + "_x", 0, i)] for i in range(3)] if "x" in o else [0.0] * 3
        r, p, y = [w[(n + "_r", 0, i)] for i in range(3)] if "r" in o else [0.0] * 3
        rot = spec.eye(3)
        for axis, ang in ((2, y), (1, p), (0, r)):
            v = [0.0] * 3
            v[axis] = ang
            rot = spec.mm(rot, spec.expm(spec.hat("SO3", v)))
        return [rot[i] + [x[i]] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]

    def twist(self, w, n):
        a = [w[(n + "_a", 0, i)] for i in range(3)]
        return a + [0.0] * 3 if self.joints[n][0] == P else [0.0] * 3 + a

    def pose(self, w, b, link, upto=None):
        M = spec.eye(4)
        for n in self.path(link):
            M = spec.mm(M, self.origin(w, n))
            if self.joints[n][0] != F:
                th = w[("theta", b, self.ids[n])]
                M = spec.mm(M, spec.expm(spec.hat("SE3", [th * x for x in self.twist(w, n)])))
            if n == upto:
                break
        return M

    def jacobian(self, w, b, link, body):
        cols = [[0.0] * 6 for _ in range(self.dof)]
        for n in self.path(link):
            if self.joints[n][0] == F:
                continue
            cols[self.ids[n]] = spec.mv(spec.adjoint("SE3", self.pose(w, b, link, n)), self.twist(w, n))
        J = spec.tr(cols)
        if body:
            J = spec.mm(spec.adjoint("SE3", spec.inverse("SE3", self.pose(w, b, link))), J)
        return J


def angles(s, rb, B):
    return s.tensor("theta", (B, rb.dof))


def forward(a, r, tree, pick, B):
    tag = f"{tree}{'' if pick is None else list(pick)} batch {B}"

    def run(fn):
        s = C.Setup(a)
        rb = Robot(s, tree)
        th = angles(s, rb, B)
        fn(s, rb, rb.fns(pick), th, rb.names(pick))

    def poses(s, rb, out, names, what="poses"):
        if not isinstance(out, (list, tuple)) or len(out) != len(names):
            raise Wrong(f"{len(out) if isinstance(out, (list, tuple)) else type(out).__name__} {what} for {len(names)} links")
        for n, t in zip(names, out):
            if isinstance(t, Ten) and n == "root" and t.shape[0] == 1:
                t = tn.index(t, ([0] * B,))
            try:
                compare(s, t, lambda w, b: rb.pose(w, b, n)[:3], B)
            except Wrong as e:
                raise Wrong(f"link {n}: {e}")

    def fk(s, rb, fns, th, names):
        poses(s, rb, s.it.call(fns[0], [th], {}), names)

    def jacs(k, body):
        def go(s, rb, fns, th, names):
            Js, out = s.it.call(fns[k], [th], {})
            poses(s, rb, out, names, "poses with jacobians")
            if len(Js) != len(names):
                raise Wrong(f"{len(Js)} jacobians for {len(names)} links")
            for n, J in zip(names, Js):
                try:
                    compare(s, J, lambda w, b: rb.jacobian(w, b, n, body), B)
                except Wrong as e:
                    raise Wrong(f"jacobian of link {n}: {e}")
        return go

    attempt(r, "poses", tag, LOC, lambda: run(fk))
    attempt(r, "jacobians", tag + " body", LOC, lambda: run(jacs(1, True)))
    attempt(r, "jacobians", tag + " spatial", LOC, lambda: run(jacs(2, False)))


LOC = "torchkin/torchkin/forward_kinematics.py"


def derivative(a, r, tree, pick):
    """backward(grads) is the gradient of the weighted sum of poses with respect to the joint values"""
    def go():
        s = C.Setup(a)
        rb = Robot(s, tree)
        th = angles(s, rb, 2)
        names = rb.names(pick)
        it = s.it
        factory = it.getattr(Mod(it.p.modules["torchkin.forward_kinematics"]), "ForwardKinematicsFactory")
        parts = it.call(factory, [rb.robot] + ([pick] if pick is not None else []), {})
        fn = next(x for x in parts if isinstance(x, Cls))
        out = it.call(it.getattr(fn, "apply"), [th], {})
        poses = list(out[:len(names)])
        ctx = Obj(Ctx, {})
        ctx.attrs["save_for_backward"] = Native(lambda *x: ctx.attrs.__setitem__("saved_tensors", tuple(x)), "save_for_backward")
        ctx.attrs["mark_non_differentiable"] = Native(lambda *x: None, "mark_non_differentiable")
        ctx.attrs["set_materialize_grads"] = Native(lambda *x: None, "set_materialize_grads")
        it.call(it.getattr(fn, "setup_context"), [ctx, (th,), out], {})
        grads = [s.tensor(f"g{i}", (2, 3, 4)) for i in range(len(names))]
        res = it.call(it.getattr(fn, "backward"), [ctx, *grads, *[None] * (len(out) - len(names))], {})
        if isinstance(res, (list, tuple)):
            if len(res) != 1:
                raise Wrong(f"{len(res)} gradients for one input")
            res = res[0]
        if tuple(res.shape) != tuple(th.shape):
            raise Wrong(f"gradient of shape {tuple(res.shape)} for an input of shape {tuple(th.shape)}")
        e = jac.entries(res)
        pts = [w for w in (s.w, s.points(7)) if g.holds(it, it.region.decided, w)]
        if not pts:
            raise jac.Unknown("no point of the region")
        for b in range(2):
            for j in range(rb.dof):
                key = ("theta", b, j)
                tot = num(0)
                for p, q in zip(poses, grads):
                    fe, ge = jac.entries(p), jac.entries(q)
                    pb = b if p.shape[0] > 1 else 0
                    for i in range(3):
                        for k in range(4):
                            tot = add(tot, mul(tn.poly(ge[b, i, k]), nf.derive(tn.poly(fe[pb, i, k]), lambda k: num(1) if k == key else None)))
                d = add(tot, tn.poly(e[b, j]), -1)
                for w in pts:
                    ok, v = g.close(d, w, 1e-7)
                    if not ok:
                        raise Wrong(f"gradient of joint value {j} of batch element {b} differs from the derivative by {v:.3g}")
    attempt(r, "derivative rule", f"{tree}{'' if pick is None else list(pick)}", LOC, go)


JOINTS = {"RevoluteJoint": None, "PrismaticJoint": None, "RevoluteJointX": 0, "RevoluteJointY": 1, "RevoluteJointZ": 2,
          "PrismaticJointX": 0, "PrismaticJointY": 1, "PrismaticJointZ": 2}


def joints(a, r):
    """every joint class: relative pose and axis"""
    for cls, axis in JOINTS.items():
        turn = cls.startswith("Rev")
        for B, given in ((1, True), (2, True), (3, True), (2, False)):
            def go():
                s = C.Setup(a)
                o = s.group("o", "SE3", 1)
                args = [s.tensor("ax", (3,))] if axis is None else []
                kw = {"origin": o, "id": (axis or 0) + 1} if given and B == 2 else {"origin": o} if given else {"dtype": s.it.ext("torch." + s.dtype)}
                j = s.new(cls, "j", *args, **kw)
                th = s.tensor("theta", (B,))

                def twist(w):
                    v = [w[("ax", i)] for i in range(3)] if axis is None else spec.eye(3)[axis]
                    return [0.0] * 3 + list(v) if turn else list(v) + [0.0] * 3

                def at(w, b):
                    M = spec.matrix("SE3", lambda *i: w[("o", 0, *i)]) if given else spec.eye(4)
                    return spec.mm(M, spec.expm(spec.hat("SE3", [w[("theta", b)] * x for x in twist(w)])))[:3]
                compare(s, s.do(j, "relative_pose", th), at, B)
                ax = s.it.getattr(j, "axis")
                if tuple(ax.shape) != (6, 1):
                    raise Wrong(f"axis of shape {tuple(ax.shape)}")
                for i, p in jac.entries(ax).items():
                    ok, d = g.close(add(tn.poly(p), num(twist(s.w)[i[0]]), -1), s.w, 1e-9)
                    if not ok:
                        raise Wrong(f"component {i[0]} of the axis differs by {d:.3g}")
                if s.it.getattr(j, "dof") != 1:
                    raise Wrong("dof")
            attempt(r, "joint", f"{cls} batch {B}{'' if given else ' default origin'}", "torchkin/torchkin/joint.py", go)

    def fixed():
        s = C.Setup(a)
        o = s.group("o", "SE3", 1)
        j = s.new("FixedJoint", "j", origin=o)
        compare(s, s.do(j, "relative_pose"), lambda w, b: spec.matrix("SE3", lambda *i: w[("o", 0, *i)])[:3], 1)
        if s.it.getattr(j, "dof") != 0:
            raise Wrong("dof")
    attempt(r, "joint", "FixedJoint", "torchkin/torchkin/joint.py", fixed)


MODEL = "theseus/embodied/kinematics/kinematics_model.py"


def model(a, r, tree, pick):
    """the kinematics model names the poses and jacobians of the links it was asked for"""
    tag = f"{tree}{'' if pick is None else list(pick)}"

    def setup():
        s = C.Setup(a)
        rb = Robot(s, tree)
        m = s.new("UrdfRobotModel", "robot.urdf", dtype=s.it.ext("torch." + s.dtype), **({} if pick is None else {"link_names": pick}))
        rb.robot = s.it.getattr(m, "robot")
        return s, rb, m

    def right(s, rb, out, body, Js, B=2):
        names = rb.names(pick)
        if set(out) != set(names):
            raise Wrong(f"poses of {sorted(out)} for the links {sorted(names)}")
        for n in names:
            if not isinstance(out[n], Obj) or out[n].c.name != "SE3":
                raise Wrong(f"the pose of link {n} is no SE3")
            t = C.ten_of(out[n])
            if n == "root" and t.shape[0] == 1:
                t = tn.index(t, ([0] * B,))
            try:
                compare(s, t, lambda w, b: rb.pose(w, b, n)[:3], B)
            except Wrong as e:
                raise Wrong(f"link {n}: {e}")
        if Js is not None:
            if set(Js) != set(names):
                raise Wrong(f"jacobians of {sorted(Js)} for the links {sorted(names)}")
            for n in names:
                try:
                    compare(s, Js[n], lambda w, b: rb.jacobian(w, b, n, body), B)
                except Wrong as e:
                    raise Wrong(f"jacobian of link {n}: {e}")

    def given(vector, body):
        def run():
            s, rb, m = setup()
            th = angles(s, rb, 2)
            arg = g.variable(s.it, "Vector", th, "q") if vector else th
            Js = None if body is None else {}
            kw = {} if body is None else {"jacobians": Js} if body else {"jacobians": Js, "use_body_jacobians": False}
            right(s, rb, accepted("forward_kinematics()", lambda: s.do(m, "forward_kinematics", arg, **kw)), body, Js)
            # and again, with other values
            t2 = s.tensor("theta", (2, rb.dof))
            right(s, rb, s.do(m, "forward_kinematics", t2), True, None)
        return run
    for vector in (False, True):
        for body, what in ((None, "poses"), (True, "body jacobians"), (False, "spatial jacobians")):
            attempt(r, "model", f"{tag} {what}, {'vector' if vector else 'tensor'}", MODEL, given(vector, body))

    def bad(what, fn):
        def run():
            s, rb, m = setup()
            try:
                fn(s, rb, m)
            except Raised as e:
                if e.name == "ValueError":
                    return
                raise
            raise Wrong(f"{what} accepted")
        attempt(r, "model refuses", f"{tag} {what}", MODEL, run)
    bad("joint values of another size", lambda s, rb, m: s.do(m, "forward_kinematics", s.tensor("theta", (2, rb.dof + 1))))
    bad("jacobians already filled", lambda s, rb, m: s.do(m, "forward_kinematics", angles(s, rb, 2), jacobians={"root": s.tensor("j", (2, 6, rb.dof))}))


def refused(a, r):
    """joint values of the wrong size and unsupported joints are refused"""
    for sh in ((2, 2), (2, 4), (3,)):
        def go():
            s = C.Setup(a)
            rb = Robot(s, "chain")
            try:
                s.it.call(rb.fns(None)[0], [s.tensor("theta", sh)], {})
            except Raised as e:
                if e.name == "ValueError":
                    return
                raise
            raise Wrong(f"joint values of shape {sh} are accepted for {rb.dof} joints")
        attempt(r, "refused", f"joint values {sh}", LOC, go)


def trees(a, r, tree):
    for pick in PICKS[tree]:
        forward(a, r, tree, pick, 2)
    forward(a, r, tree, None, 1)
    for pick in PICKS[tree]:
        derivative(a, r, tree, pick)


def check(a, r):
    r.parallel(a, [(trees, (t,)) for t in TREES] + [(model, (t, p)) for t in ("chain", "branches") for p in PICKS[t]] + [(joints, ()), (refused, ())])
