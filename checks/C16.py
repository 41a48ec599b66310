"""Temporary settings. Every context manager of the library is entered by client code, alone and nested in every other one, and left by
falling through, return, break, continue and exceptions; what the settings do (which data is refused, what warns, what is treated as
euclidean, which tensors variables hold) is probed before, inside and after. The library's own operations are followed likewise,
including the ones that fail. Process-wide settings of torch and of the warnings module may only be changed by contexts."""
import ast

from sa import cases as C
from sa.comp import Malformed
from sa.geom import cls_of
from sa.interp import Cls, Mod, Native, Raised
from sa.jac import Wrong, attempt, ten_of
from sa.state import World, same_entries
from checks.C20 import Room, element, invalid
from checks.C40 import method_loc

CLIENT = '''
from theseus.geometry.lie_group_check import (no_lie_group_check, enable_lie_group_check, set_lie_group_check_enabled,
                                              silence_internal_warnings)
from theseus.geometry.utils import enable_lie_tangent, no_lie_tangent, set_lie_tangent_enabled, _LieGroupContext
from torchlie.functional.check_contexts import enable_checks
from torchlie.lie_tensor import as_euclidean, euclidean_enabled
from theseus.geometry.so3 import SO3


def tangent():
    return _LieGroupContext.get_context()


MAKERS = {
    "no_lie_group_check": lambda: no_lie_group_check(),
    "no_lie_group_check, silent": lambda: no_lie_group_check(silent=True),
    "enable_lie_group_check": lambda: enable_lie_group_check(),
    "enable_lie_group_check, silencing internal warnings": lambda: enable_lie_group_check(silence_internal_warnings=True),
    "set_lie_group_check_enabled(False)": lambda: set_lie_group_check_enabled(False, silent=True),
    "set_lie_group_check_enabled(True)": lambda: set_lie_group_check_enabled(True),
    "set_lie_group_check_enabled(False), silencing internal warnings": lambda: set_lie_group_check_enabled(False, silent=True, silence_internal_warnings=True),
    "silence_internal_warnings": lambda: silence_internal_warnings(),
    "enable_checks": lambda: enable_checks(),
    "as_euclidean": lambda: as_euclidean(),
    "enable_lie_tangent": lambda: enable_lie_tangent(),
    "no_lie_tangent": lambda: no_lie_tangent(),
    "set_lie_tangent_enabled(True)": lambda: set_lie_tangent_enabled(True),
    "set_lie_tangent_enabled(False)": lambda: set_lie_tangent_enabled(False),
}


class Own(Exception):
    pass


def leave(how, make, probe, seen):
    for i in range(1):
        with make():
            seen.append(probe())
            if how == "raise":
                raise Own("the client's own")
            if how == "return":
                return "returned"
            if how == "break":
                break
            if how == "continue":
                continue
    return "through"


def leave_nested(how, outer, inner, probe, seen):
    with outer():
        seen.append(probe())
        try:
            leave(how, inner, probe, seen)
        except Own:
            pass
        seen.append(probe())


def leave_both(how, outer, inner, probe, seen):
    for i in range(1):
        with outer(), inner():
            seen.append(probe())
            if how == "raise":
                raise Own("the client's own")
            if how == "return":
                return "returned"
    return "through"


def again(make, probe, seen):
    for i in range(2):
        with make():
            seen.append(probe())
        seen.append(probe())
'''

# what is different inside: (checked, internal warnings, warned when unchecked, functional checks, euclidean, tangent)
CHECKED, INTERNAL, UNCHECKED, FUNCTIONAL, EUCLIDEAN, TANGENT = range(6)
INSIDE = {
    "no_lie_group_check": {CHECKED: False, UNCHECKED: True},
    "no_lie_group_check, silent": {CHECKED: False, UNCHECKED: False},
    "enable_lie_group_check": {CHECKED: True, INTERNAL: True},
    "enable_lie_group_check, silencing internal warnings": {CHECKED: True, INTERNAL: False},
    "set_lie_group_check_enabled(False)": {CHECKED: False, UNCHECKED: False},
    "set_lie_group_check_enabled(True)": {CHECKED: True, INTERNAL: True},
    "set_lie_group_check_enabled(False), silencing internal warnings": {CHECKED: False, UNCHECKED: False},
    "silence_internal_warnings": {INTERNAL: False},
    "enable_checks": {FUNCTIONAL: True},
    "as_euclidean": {EUCLIDEAN: True},
    "enable_lie_tangent": {TANGENT: True},
    "no_lie_tangent": {TANGENT: False},
    "set_lie_tangent_enabled(True)": {TANGENT: True},
    "set_lie_tangent_enabled(False)": {TANGENT: False},
}
FAMILY = {n: ("check" if {CHECKED, INTERNAL} & set(d) else "functional" if FUNCTIONAL in d else "euclidean" if EUCLIDEAN in d else "tangent") for n, d in INSIDE.items()}
LABEL = ("group checks", "internal warnings", "warning that checks are disabled", "functional checks", "euclidean mode", "tangent mode")
EXITS = ("through", "raise", "return", "break", "continue")


class Stage:
    def __init__(self, a):
        self.room = w = Room(a)
        self.it = it = w.it
        self.ns = it.define(CLIENT, "theseus.geometry.manifold")
        self.rows = w.ten(invalid("SO3")[0][1])
        m = next(v for n, v in it.p.modules.items() if n.endswith("functional.so3_impl"))
        self.fns = it.getattr(Mod(m), "_fns")
        self.makers = self.ns["MAKERS"] if "MAKERS" in self.ns else None
        self.probe_fn = Native(lambda *args, **kw: self.probe())

    def maker(self, name):
        d = self.makers
        if d is None:
            d = self.it.getattr(Mod(self.it.p.modules["theseus.geometry.manifold"]), "MAKERS")
        return d[name]

    def probe(self):
        w, it = self.room, self.it

        def warns(fn):
            n = len(w.warned)
            fn()
            out = len(w.warned) > n
            del w.warned[n:]
            return out

        def refuses(fn):
            try:
                fn()
            except Raised as e:
                if e.name != "ValueError":
                    raise
                return True
            return False
        checked = refuses(lambda: w.build("SO3", self.rows, strict_checks=True))
        lenient = warns(lambda: w.build("SO3", self.rows))
        functional = refuses(lambda: it.call(it.getattr(self.fns, "inv"), [self.rows], {}))
        eucl = it.call(self.ns["euclidean_enabled"], [], {})
        tan = it.call(self.ns["tangent"], [], {})
        del w.warned[:]
        return (checked, lenient if checked else None, None if checked else lenient, functional, bool(eucl), bool(tan))


def differ(p, q):
    return ", ".join(f"{l} {x} instead of {y}" for l, x, y in zip(LABEL, p, q) if x != y)


def inside(base, names):
    """settings inside the nested contexts"""
    want = list(base)
    internal, unchecked = True, True
    silenced = False
    for n in names:
        d = INSIDE[n]
        for k in (FUNCTIONAL, EUCLIDEAN, TANGENT, CHECKED):
            if k in d:
                want[k] = d[k]
        if n == "silence_internal_warnings":
            silenced = True
        elif FAMILY[n] == "check":
            silenced = "silencing" in n
            unchecked = d.get(UNCHECKED, True)
    want[INTERNAL] = (not silenced) if want[CHECKED] else None
    want[UNCHECKED] = unchecked if not want[CHECKED] else None
    return tuple(want)


def run_exit(st, fn, how, *args):
    try:
        return st.it.call(st.ns[fn], [how, *args], {})
    except Raised as e:
        if how == "raise" and e.name == "Own":
            return "raised"
        raise Wrong(f"leaving by {how} raises {e.name} ({str(e.msg)[:60]})")


def alone(a, r, name):
    loc = context_loc(a, name)
    for how in EXITS:
        def run():
            st = Stage(a)
            base = st.probe()
            seen = []
            out = run_exit(st, "leave", how, st.maker(name), st.probe_fn, seen)
            if out != {"raise": "raised", "return": "returned"}.get(how, "through"):
                raise Wrong(f"leaving by {how} is suppressed")
            want = inside(base, [name])
            if seen[0] != want:
                raise Wrong(f"inside: {differ(seen[0], want)}")
            after = st.probe()
            if after != base:
                raise Wrong(f"after leaving by {how}: {differ(after, base)}")
        attempt(r, "restored on every exit", f"{name}/{how}", loc, run)

    def twice():
        st = Stage(a)
        base = st.probe()
        seen = []
        st.it.call(st.ns["again"], [st.maker(name), st.probe_fn, seen], {})
        want = inside(base, [name])
        for i, p in enumerate(seen):
            if p != (base if i % 2 else want):
                raise Wrong(f"entered a second time: {differ(p, base if i % 2 else want)}")
    attempt(r, "restored on every exit", f"{name}/twice", loc, twice)
    if name.startswith("set_lie_tangent_enabled"):
        return     # takes effect when called, like torch.set_grad_enabled

    def constructed():
        st = Stage(a)
        base = st.probe()
        st.it.call(st.maker(name), [], {})
        after = st.probe()
        if after != base:
            raise Wrong(f"constructing it changes settings: {differ(after, base)}")
    attempt(r, "nothing changes before entering", name, loc, constructed)


def context_loc(a, name):
    key = name.split("(")[0].split(",")[0]
    for f in a.p.all_functions():
        if f.node.name == key:
            return f"{f.module.rel}:{f.node.lineno}" if hasattr(f.module, "rel") else key
    for c in a.p.all_classes():
        if c.name == key:
            return f"{c.module.rel}:{c.node.lineno}" if hasattr(c.module, "rel") else key
    return key


def nested(a, r, outer):
    loc = context_loc(a, outer)
    for inner in INSIDE:
        for how in ("through", "raise", "return"):
            def run():
                st = Stage(a)
                base = st.probe()
                seen = []
                st.it.call(st.ns["leave_nested"], [how, st.maker(outer), st.maker(inner), st.probe_fn, seen], {})
                for i, (p, want) in enumerate(zip(seen, (inside(base, [outer]), inside(base, [outer, inner]), inside(base, [outer])))):
                    if p != want:
                        raise Wrong(f"{('in the outer', 'in the inner', 'back in the outer')[i]} context: {differ(p, want)}")
                if len(seen) != 3:
                    raise Wrong(f"the inner context is left {len(seen)} times")
                after = st.probe()
                if after != base:
                    raise Wrong(f"after both: {differ(after, base)}")
            attempt(r, "restored when nested", f"{outer} > {inner}/{how}", loc, run)

        def both():
            for how in ("through", "raise", "return"):
                st = Stage(a)
                base = st.probe()
                seen = []
                run_exit(st, "leave_both", how, st.maker(outer), st.maker(inner), st.probe_fn, seen)
                want = inside(base, [outer, inner])
                if seen[0] != want:
                    raise Wrong(f"inside both: {differ(seen[0], want)}")
                after = st.probe()
                if after != base:
                    raise Wrong(f"after both, left by {how}: {differ(after, base)}")
        attempt(r, "restored when nested", f"{outer}, {inner} in one statement", loc, both)


# ---- variables

VARS = '''
from theseus.core.variable import masked_variables
from theseus.core.cost_function import _tmp_tensors


class Own(Exception):
    pass


def masked(how, vars, mask, probe, seen):
    for i in range(1):
        with masked_variables(vars, mask):
            seen.append(probe())
            if how == "raise":
                raise Own("the client's own")
            if how == "return":
                return "returned"
            if how == "break":
                break
            if how == "continue":
                continue
            if how == "changed":
                for v in vars:
                    v.update(v.tensor * 2.0)
            if how == "changed and raise":
                for v in vars:
                    v.update(v.tensor * 2.0)
                raise Own("the client's own")


def masked_nested(how, vars, mask, mask2, probe, seen):
    with masked_variables(vars, mask):
        seen.append(probe())
        try:
            masked(how, vars, mask2, probe, seen)
        except Own:
            pass
        seen.append(probe())


def not_entered(vars, mask):
    return masked_variables(vars, mask)


def kept(how, vars, values, probe, seen):
    for i in range(1):
        with _tmp_tensors(vars):
            for v, x in zip(vars, values):
                v.update(x)
            seen.append(probe())
            if how == "raise":
                raise Own("the client's own")
            if how == "return":
                return "returned"
            if how == "break":
                break
            if how == "continue":
                continue
'''


class Held:
    def __init__(self, a):
        self.w = World(a, sizes={n: 3 for n in ("x", "y")})
        self.it = self.w.it
        self.ns = self.it.define(VARS, "theseus.core.variable")
        self.vars = [self.w.vars["x"], self.w.vars["y"]]

    def state(self):
        return [(self.it.getattr(v, "tensor"), dict(ten_of(self.it.getattr(v, "tensor")).arr().data)) for v in self.vars]

    def probe(self):
        return [dict(d) for _, d in self.state()]

    def mask(self, bits):
        return self.it.torch_fn("tensor", [list(bits)], {})


def restored(h, before, how):
    for v, (t, d), (t2, d2) in zip("xy", before, h.state()):
        if t2 is not t:
            raise Wrong(f"{v} does not hold its own tensor after leaving by {how}")
        same_entries(f"{v} after leaving by {how}", t2, d)


def selected(d, bits):
    keep = [i for i, b in enumerate(bits) if b]
    return {(keep.index(i[0]), *i[1:]): x for i, x in d.items() if i[0] in keep}


def masked(a, r):
    loc = context_loc(a, "masked_variables")
    for how in (*EXITS, "changed", "changed and raise"):
        for bits in ((True, False, True), (False, True, False), (True, True, True), (False, False, False)):
            def run():
                h = Held(a)
                before = h.state()
                seen = []
                try:
                    h.it.call(h.ns["masked"], [how, h.vars, h.mask(bits), Native(lambda *x, **k: h.probe()), seen], {})
                    if "raise" in how:
                        raise Wrong("the client's exception is suppressed")
                except Raised as e:
                    if e.name != "Own":
                        raise Wrong(f"leaving by {how} raises {e.name} ({str(e.msg)[:60]})")
                for (t, d), got in zip(before, seen[0]):
                    if got != selected(d, bits):
                        raise Wrong(f"with mask {bits} other entries are seen inside")
                restored(h, before, how)
            attempt(r, "variables hold their own tensors again", f"masked_variables/{how}/{''.join(str(int(b)) for b in bits)}", loc, run)

    for how in ("through", "raise"):
        def nest():
            h = Held(a)
            before = h.state()
            seen = []
            h.it.call(h.ns["masked_nested"], [how, h.vars, h.mask((True, False, True)), h.mask((False, True)), Native(lambda *x, **k: h.probe()), seen], {})
            for n, (t, d) in enumerate(before):
                outer = selected(d, (True, False, True))
                for i, want in enumerate((outer, selected(outer, (False, True)), outer)):
                    if seen[i][n] != want:
                        raise Wrong(f"{('outer', 'inner', 'outer, afterwards')[i]}: other entries are seen")
            restored(h, before, how)
        attempt(r, "variables hold their own tensors again", f"masked_variables/nested {how}", loc, nest)

    def refused():
        h = Held(a)
        before = h.state()
        try:
            h.it.call(h.ns["masked"], ["through", h.vars, h.mask((True, False)), Native(lambda *x, **k: h.probe()), []], {})
        except Raised:
            pass
        restored(h, before, "a mask that does not fit")
    attempt(r, "variables hold their own tensors again", "masked_variables/mask that does not fit", loc, refused)

    def constructed():
        h = Held(a)
        before = h.state()
        h.it.call(h.ns["not_entered"], [h.vars, h.mask((True, False, True))], {})
        restored(h, before, "constructing only")
    attempt(r, "nothing changes before entering", "masked_variables", loc, constructed)

    def twice_listed():
        h = Held(a)
        before = h.state()
        seen = []
        bits = (True, False, True)
        h.it.call(h.ns["masked"], ["through", [h.vars[0], h.vars[0]], h.mask(bits), Native(lambda *x, **k: h.probe()), seen], {})
        if seen[0][0] != selected(before[0][1], bits):
            raise Wrong("a variable listed twice is masked twice")
        restored(h, before, "listing a variable twice")
    attempt(r, "variables hold their own tensors again", "masked_variables/listed twice", loc, twice_listed)


def kept(a, r):
    if not any(f.node.name == "_tmp_tensors" for f in a.p.all_functions()):
        return
    loc = context_loc(a, "_tmp_tensors")
    for how in EXITS:
        def run():
            h = Held(a)
            before = h.state()
            seen = []
            new = [h.w.fresh("x"), h.w.fresh("y")]
            try:
                h.it.call(h.ns["kept"], [how, h.vars, new, Native(lambda *x, **k: h.probe()), seen], {})
                if how == "raise":
                    raise Wrong("the client's exception is suppressed")
            except Raised as e:
                if e.name != "Own":
                    raise Wrong(f"leaving by {how} raises {e.name} ({str(e.msg)[:60]})")
            if seen[0] != [dict(t.arr().data) for t in new]:
                raise Wrong("the temporary tensors are not seen inside")
            restored(h, before, how)
        attempt(r, "variables hold their own tensors again", f"temporary tensors/{how}", loc, run)


# ---- the library's own use

def operations(a, r, part, parts):
    """group operations leave the settings alone, also when they fail"""
    cs = [c for i, c in enumerate(C.theseus_ops()) if i % parts == part]
    for case in cs:
        loc = method_loc(a, *case.qual)
        for mode in ("default", "no_lie_group_check, silent", "silence_internal_warnings"):
            def run():
                st = Stage(a)
                s = st.room.s
                seen = []

                def body(*args, **kw):
                    case.run(s, [])
                    return st.probe()
                base = st.probe()
                if mode == "default":
                    got, want = body(), base
                else:
                    st.it.call(st.ns["leave"], ["through", st.maker(mode), Native(body), seen], {})
                    got, want = seen[0], inside(base, [mode])
                if got != want:
                    raise Wrong(f"after {case.name}: {differ(got, want)}")
                if st.probe() != base:
                    raise Wrong(f"settings are not restored: {differ(st.probe(), base)}")
            attempt(r, "operations leave the settings alone", f"{case.name}/{mode}", loc, run)


def failing(a, r):
    """calls that raise leave the settings alone"""
    for kind in ("SO2", "SE2", "SO3", "SE3"):
        def calls(w):
            ok = w.build(kind, w.ten([element(kind, 2), element(kind, 3)]))
            bad = w.ten(invalid(kind)[0][1])
            cls = Cls(cls_of(w.it, kind))
            n = {"SO2": 2, "SE2": 3, "SO3": 3, "SE3": 4}[kind]
            yield "strict constructor", lambda: w.build(kind, bad, strict_checks=True)
            yield "constructor with another shape", lambda: w.build(kind, w.ten([[1.0] * 7]))
            yield "vee of no hat", lambda: w.s.do(cls, "vee", w.ten([[[1.0] * n] * n]))
            yield "normalize of another shape", lambda: w.s.do(cls, "normalize", w.ten([[1.0] * 7]))
            yield "exp_map of another shape", lambda: w.s.do(cls, "exp_map", w.ten([[1.0] * 9]))
            yield "compose with another batch", lambda: w.s.do(ok, "compose", w.build(kind, w.ten([element(kind, i) for i in range(3)])))
        for name in [n for n, _ in calls(Room(a))]:
            def run():
                st = Stage(a)
                base = st.probe()
                f = dict(calls(st.room))[name]
                try:
                    f()
                except (Raised, Malformed):
                    pass
                after = st.probe()
                if after != base:
                    raise Wrong(f"after {name}: {differ(after, base)}")
            attempt(r, "operations leave the settings alone", f"{kind}/failing {name}", method_loc(a, kind, "__init__"), run)


OPT = '''
class Own(Exception):
    pass


class Given(Optimizer):
    def __init__(self, objective, probe, seen, fail):
        super().__init__(objective)
        self.probe, self.seen, self.fail = probe, seen, fail

    def _optimize_impl(self, **kwargs):
        self.seen.append(self.probe())
        if self.fail:
            raise Own("the client's own")
        return OptimizerInfo({}, None)
'''


def optimizer(a, r):
    loc = method_loc(a, "Optimizer", "optimize")
    for fail in (False, True):
        for mode in ("default", "no_lie_group_check, silent", "enable_lie_group_check", "silence_internal_warnings"):
            def run():
                st = Stage(a)
                s = st.room.s
                obj = s.new("Objective", dtype=st.it.ext("torch.float64"))
                ns = st.it.define(OPT, "theseus.optimizer.optimizer")
                seen, out = [], []
                opt = st.it.call(ns["Given"], [obj, st.probe_fn, seen, fail], {})

                def body(*args, **kw):
                    try:
                        s.do(opt, "optimize")
                    except Raised as e:
                        if not fail or e.name != "Own":
                            raise
                    return st.probe()
                base = st.probe()
                if mode == "default":
                    got, want = body(), base
                else:
                    st.it.call(st.ns["leave"], ["through", st.maker(mode), Native(body), out], {})
                    got, want = out[0], inside(base, [mode])
                if got != want:
                    raise Wrong(f"after optimize{' failed' if fail else ''}: {differ(got, want)}")
                if not seen:
                    raise Wrong("the optimizer is not run")
                i = seen[0]
                if i[CHECKED] != want[CHECKED]:
                    raise Wrong("optimize changes whether groups are checked")
                if i[CHECKED] and i[INTERNAL]:
                    raise Wrong("normalizations are reported while optimizing")
            attempt(r, "operations leave the settings alone", f"Optimizer.optimize/{mode}{'/failing' if fail else ''}", loc, run)


# ---- settings of torch and warnings

SETTERS = {"torch.set_grad_enabled", "torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_default_device", "torch.manual_seed", "torch.random.manual_seed",
           "torch.autograd.set_grad_enabled", "torch.autograd.set_detect_anomaly", "torch.use_deterministic_algorithms", "torch.set_num_threads", "torch.set_printoptions",
           "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "torch.cuda.set_device", "torch.set_rng_state", "random.seed", "numpy.random.seed", "numpy.seterr",
           "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings", "torch.autograd.grad_mode.set_grad_enabled", "torch.inference_mode.__enter__",
           "torch.set_float32_matmul_precision"}


def dotted(m, node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name):
        return ""
    imp = m.imports.get(node.id)
    base = node.id if imp is None else imp[1] if imp[0] == "mod" else f"{imp[1]}.{imp[2]}"
    return ".".join([base, *reversed(parts)])


def process_wide(a, r):
    for m in a.p.modules.values():
        if "third_party" in m.name or ".examples" in m.name or "tests" in m.name:
            continue
        withs = set()
        scoped = set()
        for node in ast.walk(m.tree):
            if isinstance(node, ast.With):
                for item in node.items:
                    withs.add(id(item.context_expr))
                    e = item.context_expr
                    if isinstance(e, ast.Call) and isinstance(e.func, (ast.Attribute, ast.Name)) and (getattr(e.func, "attr", None) or getattr(e.func, "id", "")) in ("catch_warnings", "fork_rng"):
                        for b in node.body:
                            scoped |= {id(x) for x in ast.walk(b)}
        bad = []
        for fn in ast.walk(m.tree):
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in fn.decorator_list:
                    withs.add(id(d))
        for node in ast.walk(m.tree):
            if isinstance(node, ast.Call) and id(node) not in withs and id(node) not in scoped:
                name = dotted(m, node.func)
                if name in SETTERS:
                    bad.append((node, name))
        for node, name in bad:
            r.check(False, "process-wide settings", f"{m.name}/{name}", f"{getattr(m, 'rel', m.name)}:{node.lineno}", "changed outside a context and never restored")
        if not bad:
            r.check(True, "process-wide settings", m.name, f"{getattr(m, 'rel', m.name)}:1", "")


def check(a, r):
    r.assumptions = ["client code does not change the library's private state"]
    jobs = [(alone, (n,)) for n in INSIDE] + [(nested, (n,)) for n in INSIDE] + [(masked, ()), (kept, ()), (failing, ()), (optimizer, ()), (process_wide, ())]
    jobs += [(operations, (i, 8)) for i in range(8)]
    r.parallel(a, jobs)
