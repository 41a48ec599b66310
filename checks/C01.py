"""Copies carry the configuration of the original. For every copyable class the
state each constructor parameter ends up in is derived from its constructor (and
those of its bases); the constructor call made by its copy implementation must
build the same class and fill that state from the same state of the original.
The generic copy() methods must pass names on, and Objective.copy must carry its
settings, weights and sharing structure."""
import ast
from sa import copies
from sa.rules import *  # noqa: F401,F403

CORE = ("implies", "forall", "loopdone")
NAMES = ("name", "new_name")


def core(gs):
    return [(g, p) for g, p in gs if g.kind not in CORE]


def bare(n):
    return (n or "").strip("_")


def roots(t):
    """attributes of self a term is made from (outermost ones)"""
    return {x.args[1] for x in subterms(t) if x.kind == "attr" and is_self(x.args[0]) and not x.args[1].startswith("__")} | \
           {x.args[1] for x in subterms(t) if x.kind == "hv" and is_self(x.args[0])}


def store(a, cls, init=None, depth=0):
    """{parameter: attributes of self it flows into} following super().__init__"""
    f = init or a.p.method(cls, "__init__")
    if f is None or depth > 8:
        return {}, {}
    v = a.view_of(f, cls)
    out, forced = {p: set() for p in f.params if p != "self"}, {}

    def params(t):
        return {x.args[1] for x in subterms(t) if x.kind == "param" and x.args[1] in out}
    for e in v.events:
        if e.kind == "setattr" and e.base is not None and is_self(e.base) and e.value is not None:
            for q in params(v.c(e.value)):
                out[q].add(e.name or "*")
        if e.kind == "call" and is_call(e.term, "__init__") and e.term.args[0].kind == "attr":
            b = e.term.args[0].args[0]
            nxt = None
            if b.kind == "super":
                mro = a.p.mro(cls)
                owner = f.cls
                names = [c.qual for c in mro]
                i = names.index(owner.qual) if owner.qual in names else -1
                nxt = next((c for c in mro[i + 1:] if "__init__" in c.methods), None)
            if nxt is not None:
                sub, _ = store(a, cls, nxt.methods["__init__"], depth + 1)
                for k, t in call_kw(e.term).items():
                    for q in params(t):
                        out[q] |= sub.get(k, set())
                ps = [p for p in nxt.methods["__init__"].params if p != "self"]
                for k, t in zip(ps, call_pos(e.term)):
                    for q in params(t):
                        out[q] |= sub.get(k, set())
        if e.kind == "call" and is_call(e.term, "register_vars"):
            x = get_arg(e.term, 0, "vars")
            flag = get_arg(e.term, 1, "is_optim_vars")
            for q in params(x) if x is not None else ():
                out[q].add("optim_vars" if is_const(flag, True) else "aux_vars")
        if e.kind == "call" and is_call(e.term, "setattr") and is_self(call_pos(e.term)[0]):
            for q in params(call_pos(e.term)[2]):
                out[q].add("*")
        if e.kind == "raise":
            gs = core(e.guards)
            if gs and gs[-1][0].kind == "param" and len(gs) >= 1:
                forced[gs[-1][0].args[1]] = not gs[-1][1]
    return out, forced


def readers(a, cls):
    """attributes read by methods other than the constructor and copy"""
    out = set()
    for c in a.p.mro(cls):
        for m, f in c.methods.items():
            if m in ("__init__", "_copy_impl", "copy"):
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                    out.add(n.attr)
    return out


def made(a, v, cls):
    """[(event, class name or None for own class, {param: term}, target term)] returned by a copy implementation"""
    out = []
    for e in v.returns():
        for gs, t in cases(e.value):
            tgt = t
            while is_call(t, "cast") and len(call_pos(t)) == 2:
                t = call_pos(t)[1]
                tgt = t
            if t.kind == "inst":
                t2 = v.c(t)
            else:
                t2 = v.c(t)
            if t2.kind == "make":
                out.append((e, t2.args[0], dict((k, x) for k, x in make_args(t2)), tgt))
            elif t2.kind == "call" and (call_name(t2) == "__class__" or is_call(t2.args[0], "type")):
                kw = dict(call_kw(t2))
                init = a.p.method(cls, "__init__")
                ps = [p for p in init.params if p != "self"] if init else []
                kw.update(zip(ps, call_pos(t2)))
                out.append((e, None, kw, tgt))
            else:
                out.append((e, "?", {}, tgt))
    return out


def make_args(t):
    for x in t.args[1]:
        if isinstance(x, tuple):
            yield x
        else:
            yield x.args[0] if not hasattr(x.args[0], "kind") else x.args[0].args[0], x.args[1]


def copyable(a):
    for cls in sorted(a.p.all_classes(), key=lambda c: c.qual):
        if "examples" in cls.qual or "extlib" in cls.qual or not cls.qual.startswith("theseus") or a.p.is_abstract(cls):
            continue
        f = a.p.method(cls, "_copy_impl")
        if f is None or cls.name.startswith("_"):
            continue
        yield cls, f


def later_attrs(v, tgt):
    """attributes assigned on the new object after its construction: {name: [(event, value)]}"""
    out = {}
    for e in v.events:
        if e.kind == "setattr" and e.base is not None and (e.base is tgt or v.c(e.base) is v.c(tgt)) and e.value is not None:
            out.setdefault(e.name, []).append((e, v.c(e.value)))
    return out


def check_class(a, r, cls, f):
    v = a.view_of(f, cls)
    n = cls.name
    st, forced = store(a, cls)
    rd = readers(a, cls)
    for e, cn, kw, tgt in made(a, v, cls):
        if cn == "?":
            r.skip("same-class", n, show(tgt)[:80])
            continue
        if cn is not None:
            r.check(cn == cls.qual, "same-class", n, e, f"copying a {n} makes a {cn.split('.')[-1]}")
            if cn != cls.qual:
                continue
        else:
            r.ok("same-class", n)
        late = later_attrs(v, tgt)
        carried = set()
        for p, t in kw.items():
            if p in NAMES:
                r.check(any(p_param(x, "new_name") for x in subterms(t)), "copy-gets-requested-name", n, e, f"the name is {show(t)[:60]}")
                continue
            src = roots(t)
            own = st.get(p, set())
            ok_names = {bare(x) for x in own} | {bare(p)}
            if not src:
                if own & rd:
                    r.check(False, "option-from-own-state", f"{n}.{p}", e, f"{p} is {show(t)[:60]} in the copy")
                continue
            good = any(bare(x) in ok_names for x in src)
            r.check(good or "*" in own, "option-from-own-state", f"{n}.{p}", e, f"{p} of the copy is taken from {sorted(src)}")
            if good:
                carried |= own
            if contains(t, lambda x: x.kind == "un" and x.args[0] in ("not", "-") or x.kind == "not" or is_call(x, "reversed", "sorted", "set", "zeros_like", "ones_like", "empty_like")):
                r.check(False, "option-from-own-state", f"{n}.{p}", e, f"{p} is changed to {show(t)[:60]}")
        if "name" in st and not any(k in NAMES for k in kw):
            named = [x for k in late if bare(k) == "name" for x in late[k]]
            r.check(named, "copy-gets-requested-name", n, e, "the requested name is not used")
        for nm, evs in late.items():
            for e2, t in evs:
                src = roots(t)
                if src and bare(nm) != "name":
                    r.check(any(bare(x) == bare(nm) for x in src), "option-from-own-state", f"{n}.{nm}", e2, f"{nm} of the copy is taken from {sorted(src)}")
                if any(bare(x) == bare(nm) for x in src):
                    carried.add(nm)
        car = {bare(x) for x in carried}
        for p, own in sorted(st.items()):
            if p in kw or p in NAMES or p in forced or p.startswith("*") or p in ("args", "kwargs"):
                continue
            need = {x for x in own if (x in rd or bare(x) in {bare(y) for y in rd}) and bare(x) not in car and x != "*"}
            r.check(not need, "every-option-carried", f"{n}.{p}", e, f"{p} (stored as {sorted(need)}) is not passed to the copy")
        # alias of an attribute through another name: order of variables
        if cn is not None:
            r.ok("every-option-carried", n)


# --------------------------------------------------------------- generic copies
def check_generic(a, r):
    v = a.view("TheseusFunction", "copy", opaque=("_copy_impl", "_has_duplicate_vars"))
    where = "TheseusFunction.copy"
    impl = [e for e in v.events if e.kind == "call" and is_call(e.term, "_copy_impl")]
    r.check(impl, "copy-uses-implementation", where, v, "no implementation is called")
    for e in v.returns():
        r.check(any(e.value is x.term for x in impl), "copy-uses-implementation", where + "/returned", e, f"returns {show(e.value)[:60]}")
    for w, nm in ((v, where), (a.view("Manifold", "copy", opaque=("_copy_impl",)), "Manifold.copy")):
        for e in w.events:
            if e.kind == "call" and is_call(e.term, "_copy_impl"):
                check_name(r, nm, e, get_arg(e.term, 0, "new_name"))
    for m in made(a, a.view("Variable", "copy"), a.p.cls("Variable")):
        if m[2]:
            check_name(r, "Variable.copy", m[0], m[2].get("name"))
            t = m[2].get("tensor")
            r.check(t is not None and "tensor" in roots(t), "option-from-own-state", "Variable.tensor", m[0], f"the copy holds {show(t)[:60] if t is not None else 'nothing'}")
    # names kept
    seen = set()
    K = lambda g: p_param(g, "keep_variable_names")  # noqa: E731
    for e in v.sets("name"):
        if not e.loops:
            continue
        t = e.value
        role = "optim" if mentions_attr(e.base, "optim_vars") else "aux" if mentions_attr(e.base, "aux_vars") else None
        ok = t.kind == "attr" and t.args[1] == "name" and role is not None and elem_pair(t.args[0], e.base, role, impl)
        r.check(ok, "names-kept", where, e, f"{show(e.base)[:60]} is named {show(t)[:60]}")
        gs = core(e.guards)
        r.check(gs and all(K(g) and p for g, p in gs), "names-kept", where + "/condition", e, "names are kept under another condition")
        seen.add(role)
    if not seen and [e for e in v.events if e.kind == "call" and e.name == "setattr"]:
        r.skip("names-kept", where, "not followed")
    else:
        r.check(seen == {"optim", "aux"}, "names-kept", where + "/roles", v, f"names are kept only for {sorted(x for x in seen if x)} variables")
    # overrides forward their arguments
    for c in a.p.subclasses(a.p.cls("TheseusFunction"), strict=True) + a.p.subclasses(a.p.cls("Variable"), strict=True):
        if "copy" not in c.methods or "examples" in c.qual or c.name == "Manifold":
            continue
        w = a.view_of(c.methods["copy"], c)
        for e in w.events:
            if e.kind == "call" and is_call(e.term, "copy") and e.term.args[0].kind == "attr" and e.term.args[0].args[0].kind == "super":
                ps = [p for p in c.methods["copy"].params if p != "self"]
                kw = call_kw(e.term)
                vals = list(kw.values()) + list(call_pos(e.term))
                for p in ps:
                    ok = p in kw and p_param(kw[p], p) or any(p_param(x, p) for x in call_pos(e.term))
                    r.check(ok, "copy-forwards-arguments", f"{c.name}.copy/{p}", e, f"{p} is not passed on")
    # deepcopy
    for cn in ("Variable", "Manifold", "TheseusFunction", "Objective", "ManifoldGaussian"):
        c = a.p.cls(cn)
        f = a.p.method(c, "__deepcopy__")
        if f is None:
            r.check(False, "deepcopy-is-copy", cn, c.qual, "deepcopy does not use copy()")
            continue
        w = a.view_of(f, c, opaque=("copy",))
        for e in w.returns():
            for gs, t in cases(e.value):
                t2 = w.c(t)
                ok = is_call(t, "copy") and is_self(call_recv(t)) or contains(t, lambda x: p_param(x, "memo")) and not is_call(t, "setdefault")
                ok = ok or is_call(t, "setdefault") and contains(t, lambda x: is_call(x, "copy"))
                r.check(ok, "deepcopy-is-copy", f"{cn}.__deepcopy__", e, f"returns {show(t2)[:60]}")
        memo = [e for e in w.events if e.kind == "setitem" and p_param(e.base, "memo") or e.kind in ("call", "mutcall") and e.name in ("setdefault", "update", "__setitem__") and e.base is not None and p_param(e.base, "memo")]
        r.check(memo, "deepcopy-is-copy", f"{cn}.__deepcopy__/memo", w, "a second reference to the same object makes a second copy")


def check_name(r, where, e, t):
    if t is None:
        r.check(False, "copy-gets-requested-name", where, e, "the name is not passed on")
        return
    given = [x for gs, x in cases(t) if p_param(x, "new_name")]
    r.check(given, "copy-gets-requested-name", where, e, f"the name is {show(t)[:60]}")
    for gs, x in cases(t):
        if p_param(x, "new_name"):
            bad = [g for g, p in core(gs) if p_param(g, "new_name") and not p or is_none_test(g, lambda y: p_param(y, "new_name")) and p]
            r.check(not bad, "copy-gets-requested-name", where + "/condition", e, "the requested name is dropped")
        elif x.kind == "or":
            continue
        else:
            r.check(not is_const(x, None) or True, "copy-gets-requested-name", where, e)


def elem_pair(old, new, role, impl):
    """old / new: elements of the variables of the original and of the copy in lockstep"""
    def side(x):
        if x.kind == "elem":
            s = x.args[0]
        elif x.kind == "sub":
            s = x.args[0]
        elif is_call(x, "optim_var_at", "aux_var_at"):
            s = T("attr", call_recv(x), call_name(x).split("_")[0] + "_vars")
        else:
            return None
        while is_call(s, "list", "tuple") and call_pos(s):
            s = call_pos(s)[0]
        if s.kind == "attr" and s.args[1] == role + "_vars":
            return s.args[0]
        return None
    o, n = side(old), side(new)
    if o is None or n is None:
        return False
    return is_self(o) and any(n is x.term for x in impl)


# -------------------------------------------------------------------- objective
def check_objective(a, r):
    v = a.view("Objective", "copy", opaque=("add", "to", "set_optim_var_at", "set_aux_var_at"))
    where = "Objective.copy"
    rets = v.returns()
    new = rets[0].value if rets else NONE
    mk = next((e.term for e in v.events if e.kind == "call" and e.base is new and is_call(e.term, "Objective")), None)
    t2 = v.c(new)
    kw = {}
    if mk is not None:
        kw = dict(call_kw(mk))
    elif t2.kind == "make":
        kw = dict(make_args(t2))
    else:
        r.skip("objective-settings", where, show(new)[:60])
        return
    want = {"dtype": "dtype", "error_metric_fn": "_error_metric_fn", "__allow_mixed_optim_aux_vars__": "_allow_mixed_optim_aux_vars"}
    st, _ = store(a, a.p.cls("Objective"))
    late = later_attrs(v, new)
    for p, own in st.items():
        if not own:
            continue
        t = kw.get(p)
        if t is None:
            ok = any(x in late for x in own)
            r.check(ok, "objective-settings", f"{where}/{p}", v, f"{p} is not carried over")
            continue
        r.check(any(bare(x) in {bare(y) for y in own} | {bare(p)} for x in roots(t)), "objective-settings", f"{where}/{p}", rets[0], f"{p} is {show(t)[:50]} in the copy")
    to = [e for e in v.events if e.kind == "call" and is_call(e.term, "to") and call_recv(e.term) is new]
    r.check(to and any(mentions_attr(e.term, "device") or contains(v.c(e.term), lambda x: x.kind == "attr" and x.args[1] == "device") for e in to) or "device" in {bare(x) for x in late},
            "objective-settings", f"{where}/device", v, "the copy is on another device")
    adds = [e for e in v.events if e.kind == "call" and is_call(e.term, "add") and call_recv(e.term) is new]
    r.check(adds, "every-cost-copied", where, v, "no cost function is added to the copy")
    for e in adds:
        x = get_arg(e.term, 0, "cost_function")
        x = v.c(x)
        cps = [y for y in subterms(x) if is_call(y, "copy")]
        if not cps:
            r.check(False, "every-cost-copied", where, e, f"adds {show(x)[:60]}")
            continue
        cp = cps[0]
        cf = call_recv(cp)
        from_reg = contains(cf, lambda y: y.kind == "attr" and y.args[1] == "cost_functions" or y.kind == "self") and cf.kind in ("val", "elem", "sub", "key")
        r.check(from_reg and contains(cf, lambda y: y.kind == "attr" and y.args[1] == "cost_functions" or y.kind == "elem" and is_self(y.args[0])), "every-cost-copied", where, e, f"copies {show(cf)[:60]}")
        r.check(e.loops and not core(e.guards), "every-cost-copied", where + "/all", e, "some cost functions are not copied")
        for l in e.loops:
            src = v.c(l[1])
            r.check(not contains(src, lambda y: is_call(y, "reversed", "sorted", "set")), "every-cost-copied", where + "/order", e, "the order of cost functions changes")
        check_kept(r, where, e, cp)
    # one weight per original weight, assigned to the copies of its cost functions
    for e in v.sets("weight"):
        t = e.value
        src = v.c(e.base)
        if t.kind == "sub":
            ok = t.args[1].kind == "attr" and t.args[1].args[1] == "weight"
            cf = t.args[1].args[0] if ok else None
            same = ok and is_call(e.base, "copy") and call_recv(e.base) is cf or ok and contains(src, lambda y: y is cf)
            r.check(same, "weights-shared-alike", where, e, f"the weight of {show(e.base)[:50]} is {show(t)[:60]}")
    for e in v.events:
        if e.kind == "setitem" and e.value is not None and is_call(e.value, "copy") and e.loops:
            src = v.c(e.loops[-1][1])
            r.check(e.index is call_recv(e.value), "weights-shared-alike", where + "/map", e, f"the copy of {show(call_recv(e.value))[:40]} is filed under {show(e.index)[:40]}")
            check_kept(r, where + "/weights", e, e.value)
    if not v.sets("weight"):
        r.check(False, "weights-shared-alike", where, v, "cost functions sharing a weight get separate ones")
    # shared variables: replaced by role with one object per name
    for m, role in (("set_optim_var_at", "optim_vars"), ("set_aux_var_at", "aux_vars")):
        es = [e for e in v.events if e.kind == "call" and is_call(e.term, m)]
        r.check(es, "sharing-preserved", f"{where}/{role}", v, f"{role} shared by several cost functions become separate variables")
        for e in es:
            i, x = get_arg(e.term, 0, "index"), get_arg(e.term, 1, "variable")
            if i is None or x is None:
                continue
            ok_i = i.kind == "idx" and i.args[0].kind == "attr" and i.args[0].args[1] == role
            if i.kind == "idx":
                r.check(ok_i, "sharing-preserved", f"{where}/{role}-index", e, f"replaces index {show(i)[:60]}")
            if ok_i:
                r.check(call_recv(e.term) is i.args[0].args[0], "sharing-preserved", f"{where}/{role}-owner", e, f"{show(call_recv(e.term))[:40]} gets a variable of {show(i.args[0].args[0])[:40]}")
            el = [y for y in subterms(x) if y.kind == "elem" and y.args[0].kind == "attr" and y.args[0].args[1] in ("optim_vars", "aux_vars")]
            for y in el:
                r.check(y.args[0].args[1] == role, "sharing-preserved", f"{where}/{role}-value", e, f"{role} get {show(x)[:60]}")
            if is_call(x, "setdefault", "get", "pop") or x.kind == "sub":
                key = call_pos(x)[0] if x.kind == "call" else x.args[1]
                r.check(key.kind == "attr" and key.args[1] == "name" and key.args[0].kind == "elem", "sharing-preserved", f"{where}/{role}-key", e, f"variables are identified by {show(key)[:60]}")
            owners = {show(y) for y in [v.c(call_recv(e.term))]}
            rc = call_recv(e.term)
            two = rc.kind == "elem" and entries(v.c(rc.args[0])) is not None and any(mentions_attr(q.value, "weight") or q.value.kind == "attr" and q.value.args[1] == "weight" for q in entries(v.c(rc.args[0])))
            other = any(mentions_attr(call_recv(z.term), "weight") for z in es)
            r.check(two or other, "sharing-preserved", f"{where}/{role}-weights", e, "variables of the cost weights are not shared")


def check_kept(r, where, e, cp):
    kw = call_kw(cp)
    keep = kw.get("keep_variable_names")
    keep = keep if keep is not None else (call_pos(cp)[1] if len(call_pos(cp)) > 1 else None)
    r.check(keep is not None and is_const(keep, True), "names-kept", where + "/objective", e, "variables are renamed in the copy")
    nm = kw.get("new_name")
    nm = nm if nm is not None else (call_pos(cp)[0] if call_pos(cp) else None)
    r.check(nm is not None and nm.kind == "attr" and nm.args[1] == "name" and nm.args[0] is call_recv(cp), "names-kept", where + "/function-name", e, "cost functions are renamed in the copy")


def check(a, r):
    n = 0
    for cls, f in copyable(a):
        check_class(a, r, cls, f)
        n += 1
    r.floor("same-class", 15)
    check_generic(a, r)
    check_objective(a, r)
    r.parallel(a, copies.jobs(a, "same"))
