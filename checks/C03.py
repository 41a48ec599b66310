"""Objective bookkeeping. Guarded-effect analysis of Objective.add / erase and
of every query method: add and erase must maintain the same registries for the
same (function, variable kind) pairs, registration is dominated by the
uniqueness / dtype / name checks, removal is conditional on the last user being
gone, and each query reads the registry it is documented to read."""
from sa.rules import *  # noqa: F401,F403

REG = {
    ("cf", "optim_vars"): ("optim_vars", "functions_for_optim_vars"),
    ("cf", "aux_vars"): ("aux_vars", "functions_for_aux_vars"),
    ("weight", "optim_vars"): ("cost_weight_optim_vars", "functions_for_optim_vars"),
    ("weight", "aux_vars"): ("aux_vars", "functions_for_aux_vars"),
}


def owner(e_term, cf, weight):
    """(role, kind) of an element term each(F.kind)."""
    return owner_of(e_term.args[0], cf, weight) if e_term.kind == "elem" else None


def owner_of(src, cf, weight):
    """(role, kind) of a collection F.kind."""
    if not isinstance(src, Term):
        return None
    src = iter_source(src)
    if src.kind != "attr" or src.args[1] not in ("optim_vars", "aux_vars"):
        return None
    if src.args[0] is cf:
        return ("cf", src.args[1])
    if src.args[0] is weight:
        return ("weight", src.args[1])
    return None


def registry_name(t):
    t = strip(t)
    if t.kind == "attr" and t.args[0].kind == "self":
        return t.args[1]
    return None


def check_add(a, r):
    v = a.view("Objective", "add")
    cf = T("param", v.func.qual, v.func.params[1])
    weight = attr(cf, "weight")
    all_in = lambda t: cmp_of(t, "in", lambda x: mentions_attr(x, "name"), self_attr("_all_variables"))  # noqa: E731
    regs = {}
    for e in v.setitems():
        o = owner(e.value, cf, weight)
        rn = registry_name(e.base)
        if o and rn:
            regs.setdefault((o, rn), []).append(e)
    for o, (reg, fmap) in REG.items():
        tag = f"Objective.add/{o[0]}.{o[1]}"
        evs = regs.get((o, reg), [])
        r.check(evs, "add-registers-variable", f"{tag}->{reg}", v, f"no {o[0]}.{o[1]} variable is stored in {reg}")
        for e in evs:
            r.check(e.index is attr(e.value, "name"), "registry-keyed-by-name", f"{tag}->{reg}", e,
                    "registry entry is not keyed by the variable's own name")
            # unique names: when the name is known, it must be the same object
            atoms = guard_atoms(e)
            inn = [x for x in atoms if cmp_of(x, "in", val(attr(e.value, "name")), self_attr("_all_variables"))]
            same = [x for x in atoms if cmp_of(x, "is", val(e.value), lambda y: mentions_attr(y, "_all_variables"))]
            ok = bool(inn and same) and not sat(list(e.guards) + [(inn[0], True), (same[0], False)])
            r.check(ok, "name-clash-refused", f"{tag}->{reg}", e,
                    "a different variable with an already used name can be registered")
            r.check(implies_guard(e, lambda t: is_none_test(t, val(attr(e.value, "name"))), False) or any(
                not p and g is attr(e.value, "name") for g, p in [(g, not p) for g, p in e.guards]),
                "unnamed-variable-refused", f"{tag}->{reg}", e, "an unnamed variable can be registered")
            dt = [x for x in atoms if cmp_of(x, "==", val(attr(e.value, "dtype")), self_attr("dtype"))]
            r.check(dt and not sat(list(e.guards) + [(dt[0], False)]), "dtype-checked-before-registration",
                    f"{tag}->{reg}", e, "variable registered without the dtype check")
        wrong = [k for k in regs if k[0] == o and k[1] not in (reg, "_all_variables")]
        r.check(not wrong, "add-registers-in-own-registry", tag, v, f"variables also stored in {wrong}")
        evs = regs.get((o, "_all_variables"), [])
        r.check(evs, "add-registers-variable", f"{tag}->all", v, "variable not recorded among all variables")
        # connected functions
        f_obj = cf if o[0] == "cf" else weight
        app = [
            e for e in v.calls("append")
            if (e.value is f_obj or (e.term is not None and call_pos(e.term)[:1] == (f_obj,)))
            and any(owner_of(l[1], cf, weight) == o for l in e.loops)
        ]
        init = [
            e for e in v.setitems(self_attr(fmap))
            if owner(e.index, cf, weight) == o
        ]
        fresh = [e.value for e in init]
        for e in init:
            r.check(
                implies_guard(e, lambda t: cmp_of(t, "in", lambda x: owner(x, cf, weight) == o, self_attr(fmap)), False)
                or implies_guard(e, lambda t: cmp_of(t, "in", lambda x: x.kind == "attr" and owner(x.args[0], cf, weight) == o,
                                                    self_attr("_all_variables")), False),
                "connected-functions-kept", f"{tag}->{fmap}", e,
                "the list of functions already connected to the variable is replaced")

        def into_map(e):
            b = call_recv(e.term) if e.term is not None and e.term.kind == "call" else e.base
            return mentions_attr(b, fmap) or any(has(b, x) for x in fresh)
        r.check([e for e in app if into_map(e)], "add-connects-function",
                f"{tag}->{fmap}", v, f"{o[0]} is not appended to the functions of its {o[1]}")
        r.check(init, "add-connects-function", f"{tag}->{fmap}[var]=[]", v, f"no function list is created in {fmap}")
    app_all = [e for e in v.calls("append") if (e.value if e.value is not None else (call_pos(e.term) or (NONE,))[0]) in (cf, weight)]
    # cost function itself
    evs = [e for e in v.setitems(self_attr("cost_functions")) if e.value is cf]
    r.check(evs and all(e.index is attr(cf, "name") for e in evs), "add-registers-cost-function", "Objective.add", v,
            "cost function not stored under its name")
    for e in evs:
        inn = lambda t: cmp_of(t, "in", val(attr(cf, "name")), self_attr("cost_functions"))  # noqa: E731
        r.check(implies_guard(e, inn, False), "duplicate-cost-function-refused", "Objective.add", e,
                "an existing cost function with the same name can be overwritten")
    dup = [
        e for e in v.raises()
        if any(p and cmp_of(g, "in", val(attr(cf, "name")), self_attr("cost_functions")) for g, p in e.guards)
        and any(not p and cmp_of(g, "is", val(cf), lambda y: mentions_attr(y, "cost_functions")) for g, p in e.guards)
    ]
    r.check(dup, "duplicate-cost-function-refused", "Objective.add/raise", v,
            "no error for two different cost functions with the same name")
    # weights map
    ws = [e for e in v.setitems(self_attr("cost_functions_for_weights")) if e.index is weight]
    app = [
        e for e in v.calls("append")
        if (e.value is cf or (e.term is not None and call_pos(e.term)[:1] == (cf,))) and not e.loops
    ]
    r.check(ws and app, "weight-users-recorded", "Objective.add", v, "users of the cost weight are not recorded")
    # role conflicts
    mixed = lambda t: t.kind == "attr" and t.args[1] == "_allow_mixed_optim_aux_vars"  # noqa: E731
    for meth in ("has_aux_var", "has_optim_var"):
        conf = [e for e in v.raises() if any(p and is_call(g, meth) for g, p in e.guards)
                or any(p and cmp_of(g, "in", ANY, self_attr(meth[4:] + "s")) and e.loops for g, p in e.guards)]
        r.check(conf, "role-conflict-refused", f"Objective.add/{meth}", v,
                "a variable being both optimization and auxiliary is not refused")
        kind = "optim_vars" if meth == "has_aux_var" else "aux_vars"
        for e in conf:
            r.check(implies_guard(e, mixed, False), "role-conflict-refused", f"Objective.add/{meth}/mixed", e,
                    "refused although mixed roles are enabled (or the other way around)")
            srcs = {(x.args[0], x.args[1]) for l in e.loops if isinstance(l[1], Term) for x in subterms(v.c(l[1]))
                    if x.kind == "attr" and x.args[1] in ("optim_vars", "aux_vars") and x.args[0] in (cf, weight)}
            r.check(srcs == {(cf, kind), (weight, kind)}, "role-conflict-refused", f"Objective.add/{meth}/all", e,
                    f"does not check the {kind} of both the cost function and its weight")
    # weight variables are registered once per weight
    known_w = lambda t: cmp_of(t, "in", val(weight), self_attr("cost_functions_for_weights"))  # noqa: E731
    for e in ws:
        r.check(implies_guard(e, known_w, False), "weight-users-recorded", "Objective.add/once", e,
                "the users already recorded for the weight are replaced")
    for e in app_all:
        if any(owner_of(l[1], cf, weight) and owner_of(l[1], cf, weight)[0] == "weight" for l in e.loops):
            r.check(implies_guard(e, known_w, False), "weight-connected-once", "Objective.add", e,
                    "a weight shared by several cost functions is connected to its variables more than once")
    # an already present cost function is not connected again
    again = lambda t: cmp_of(t, "in", val(attr(cf, "name")), self_attr("cost_functions"))  # noqa: E731
    for e in v.setitems() + app_all:
        if e.base is not None and e.base.kind == "new":
            continue
        r.check(implies_guard(e, again, False), "cost-function-connected-once", f"Objective.add/{registry_name(e.base or NONE) or 'append'}", e,
                "adding a cost function that is already present changes the bookkeeping")
    wo = [e for e in v.raises() if any(contains(g, lambda x: is_call(x, "num_optim_vars") or (x.kind == "attr" and x.args[1] == "optim_vars" and x.args[0] is weight)) for g, p in e.guards) and not e.loops]
    r.check(wo, "weight-optim-vars-refused", "Objective.add", v, "cost weights with optimization variables are not refused")
    for e in wo:
        gs = [(g, p) for g, p in e.guards if contains(g, lambda x: is_call(x, "num_optim_vars"))]
        r.check(all(empty_test(g, p) is False for g, p in gs), "weight-optim-vars-refused", "Objective.add/test", e,
                "the wrong cost weights are refused")


def check_erase(a, r):
    v = a.view("Objective", "erase")
    name = T("param", v.func.qual, v.func.params[1])
    cf = T("sub", attr(v_self(v), "cost_functions"), name)
    cands = {x for e in v.events for t in (e.base, e.index, e.term) if t is not None for x in subterms(t)
             if x.kind in ("sub", "call") and self_attr("cost_functions")(x.args[0] if x.kind == "sub" else (call_recv(x) or NONE))
             and (x.kind == "sub" or is_call(x, "get", "pop"))}
    for c in cands:
        if any(contains(x, lambda y: y is attr(c, "weight")) for e in v.events for x in (e.base, e.index) if x is not None):
            cf = c
    weight = attr(cf, "weight")

    dels = list(v.dels()) + [e for e in v.calls("pop", "remove")]
    for o, (reg, fmap) in REG.items():
        tag = f"Objective.erase/{o[0]}.{o[1]}"
        mine = []
        for e in dels:
            if any(owner_of(l[1], cf, weight) == o for l in e.loops):
                mine.append(e)
        f_obj = cf if o[0] == "cf" else weight

        def unlink(e):
            b = strip(e.base) if e.base is not None else (call_recv(e.term) if e.term is not None else None)
            if b is None or b.kind != "sub" or not self_attr(fmap)(b.args[0]):
                return False
            idx = e.index if e.kind == "del" else (call_pos(e.term) or (NONE,))[0]
            return idx is not None and (has(idx, f_obj))
        un = [e for e in mine if unlink(e)]
        r.check(un, "erase-disconnects-function", f"{tag}->{fmap}", v,
                f"{o[0]} is not removed from the functions of its {o[1]}")

        def removes(regname):
            out = []
            for e in mine:
                b = strip(e.base) if e.base is not None else None
                if e.kind == "call":
                    b = strip(call_recv(e.term))
                if b is not None and self_attr(regname)(b):
                    out.append(e)
            return out

        for regname in (reg, "_all_variables", fmap):
            ev = removes(regname)
            r.check(ev, "erase-unregisters-variable", f"{tag}->{regname}", v,
                    f"variables of the erased {o[0]} stay in {regname}")
            for e in ev:
                idx = e.index if e.kind == "del" else (call_pos(e.term) or (NONE,))[0]
                ok = idx is not None and (
                    (regname == fmap and owner(idx, cf, weight) == o)
                    or (regname != fmap and idx.kind == "attr" and idx.args[1] == "name" and owner(idx.args[0], cf, weight) == o)
                )
                r.check(ok, "erase-removes-own-entry", f"{tag}->{regname}", e, "a different entry is removed")
                # only when no function is left
                g = [
                    (t, p) for t, p in e.guards
                    if contains(t, lambda x: x.kind == "sub" and self_attr(fmap)(x.args[0]) and owner(x.args[1], cf, weight) == o)
                ]
                r.check(g and all(empty_test(t, p) for t, p in g), "erase-keeps-shared-variables", f"{tag}->{regname}", e,
                        "variable removed although other functions may still use it")
                if regname == "_all_variables":
                    # with both roles allowed, users in the other role keep the variable
                    others = ("functions_for_aux_vars", "aux_vars") if o[1] == "optim_vars" else (
                        "functions_for_optim_vars", "optim_vars")
                    r.check(any(mentions_attr(t, n) for t, p in e.guards for n in others
                                if not contains(t, lambda x: x.kind == "sub" and self_attr(fmap)(x.args[0]))),
                            "erase-keeps-variable-used-in-other-role", tag, e,
                            "the variable is forgotten although it may still be used in the other role")
                r.check(any(x.seq < e.seq for x in un), "erase-disconnects-function", f"{tag}->{regname}/order", e,
                        "variable's users are tested before this function is removed from them")
        if o[0] == "weight":
            for e in mine:
                g = [(t, p) for t, p in e.guards
                     if contains(t, lambda x: x.kind == "attr" and x.args[1] == "cost_functions_for_weights")]
                r.check(g and all(empty_test(t, p) for t, p in g), "erase-keeps-shared-weights",
                        f"{tag}/{registry_name(e.base) if e.base is not None else ''}", e,
                        "variables of a weight that may still be in use are removed")
    d = [e for e in dels if self_attr("cost_functions")(strip(e.base) if e.base is not None else NONE)]
    r.check(d, "erase-removes-cost-function", "Objective.erase", v, "cost function stays in the objective")
    for e in d:
        r.check(implies_guard(e, lambda t: cmp_of(t, "in", val(name), self_attr("cost_functions")), True)
                or any(contains(g, lambda x: self_attr("cost_functions")(x)) for g, _ in e.guards),
                "erase-removes-cost-function", "Objective.erase/known", e, "does not test that the cost function is present")
    d = [e for e in dels if e.base is not None and self_attr("cost_functions_for_weights")(strip(e.base))]
    r.check(d, "erase-forgets-unused-weight", "Objective.erase", v, "unused weight stays in the objective")
    for e in d:
        g = [(t, p) for t, p in e.guards
             if contains(t, lambda x: x.kind == "attr" and x.args[1] == "cost_functions_for_weights")]
        r.check(g and all(empty_test(t, p) for t, p in g), "erase-keeps-shared-weights", "Objective.erase/map", e,
                "a weight that may still be in use is forgotten")
    d = [
        e for e in dels
        if e.base is not None and strip(e.base).kind == "sub" and self_attr("cost_functions_for_weights")(strip(e.base).args[0])
    ]
    r.check(d, "weight-users-recorded", "Objective.erase", v, "cost function stays among the weight's users")


def v_self(v):
    return T("self", v.cls.qual)


def empty_test(t, p):
    """(t is p) means 'the collection is empty'."""
    if t.kind == "cmp" and t.args[0] == "==":
        a, b = t.args[1:]
        if any(is_call(x, "len") for x in (a, b)) and any(is_const(x, 0) for x in (a, b)):
            return p
        return None
    if t.kind == "cmp" and t.args[0] == "<":
        a, b = t.args[1:]
        if is_const(a, 0) and is_call(b, "len", "num_optim_vars"):
            return not p
        if is_call(a, "len") and is_const(b, 1):
            return p
    if is_call(t, "len"):
        return not p
    if t.kind in ("sub", "attr", "phi"):
        return not p
    return None


QUERIES = {
    "has_optim_var": ("in", "optim_vars"),
    "has_aux_var": ("in", "aux_vars"),
    "has_cost_function": ("in", "cost_functions"),
    "get_optim_var": ("get", "optim_vars"),
    "get_aux_var": ("get", "aux_vars"),
    "get_cost_function": ("get", "cost_functions"),
    "size_cost_functions": ("len", "cost_functions"),
    "size_variables": ("len", "optim_vars"),
    "size_aux_vars": ("len", "aux_vars"),
}


def check_queries(a, r):
    regs = ("optim_vars", "aux_vars", "cost_functions", "cost_weight_optim_vars", "_all_variables",
            "functions_for_optim_vars", "functions_for_aux_vars", "cost_functions_for_weights")
    for m, (kind, reg) in QUERIES.items():
        v = a.view("Objective", m, inline=("size_cost_functions", "size_variables"))
        t = v.c(v.result)
        used = {x for x in regs if mentions_attr(t, x)}
        used |= {x for e in v.events for g, _ in e.guards for x in regs if mentions_attr(g, x)}
        r.check(used == {reg}, "query-reads-own-registry", f"Objective.{m}", v, f"reads {sorted(used)} instead of {reg}")
        if kind == "in":
            name = T("param", v.func.qual, v.func.params[1])
            ok = t.kind == "cmp" and t.args[0] == "in" and t.args[1] is name or (
                t.kind == "un" and False)
            neg = t.kind == "un" and t.args[0] == "not"
            r.check(not neg and (ok or t.kind != "cmp"), "query-result", f"Objective.{m}", v, f"returns {t}")
        if kind == "len":
            r.check(contains(t, lambda x: is_call(x, "len")) and t.kind == "call", "query-result", f"Objective.{m}", v, f"returns {t}")
    v = a.view("Objective", "size", inline=("size_cost_functions", "size_variables"))
    t = v.c(v.result)
    ok = t.kind == "tuple" and len(t.args[0]) == 2 and mentions_attr(t.args[0][0], "cost_functions") and mentions_attr(
        t.args[0][1], "optim_vars")
    r.check(ok, "query-result", "Objective.size", v, f"returns {t}")
    for m, reg, fmap in (
        ("get_functions_connected_to_optim_var", "optim_vars", "functions_for_optim_vars"),
        ("get_functions_connected_to_aux_var", "aux_vars", "functions_for_aux_vars"),
    ):
        v = a.view("Objective", m)
        terms = [v.c(v.result)] + [e.term for e in v.events if e.term is not None]
        used = {x for x in regs for t in terms if mentions_attr(t, x)}
        r.check(used == {reg, fmap}, "query-reads-own-registry", f"Objective.{m}", v, f"reads {sorted(used)}")
        r.check(mentions_attr(v.c(v.result), fmap), "query-result", f"Objective.{m}", v, "does not return the connected functions")
        r.check(len(v.raises()) >= 2, "query-unknown-refused", f"Objective.{m}", v, "unknown variables are not refused")
    # total dimension: sum of all dims
    v = a.view("Objective", "dim")
    t = v.c(v.result)
    ok = contains(t, lambda x: is_call(x, "dim")) and any(
        mentions_attr(l[1], "cost_functions") for e in v.events for l in e.loops if isinstance(l[1], Term)
    ) or (is_call(t, "sum") and mentions_attr(t, "cost_functions"))
    r.check(ok, "query-result", "Objective.dim", v, "not the sum over all cost functions' dimensions")
    augs = [x for x in subterms(t) if x.kind == "loopout"]
    for x in augs:
        init, step = x.args[2], x.args[3]
        r.check(is_const(init, 0) and step.kind == "bin" and step.args[0] == "+", "query-result", "Objective.dim/sum", v,
                "dimension is not accumulated by addition from zero")


def check_function_registration(a, r):
    """Variables of a cost function / weight: name lists have no duplicates and
    every accessor goes through the lists."""
    for meth, own, other in (
        ("register_optim_var", "_optim_vars_attr_names", "_aux_vars_attr_names"),
        ("register_aux_var", "_aux_vars_attr_names", "_optim_vars_attr_names"),
    ):
        v = a.view("TheseusFunction", meth)
        name = T("param", v.func.qual, v.func.params[1])
        app = [e for e in v.calls("append") if call_recv(e.term) is not None and self_attr(own)(call_recv(e.term))
               and call_pos(e.term)[:1] == (name,)]
        r.check(app and v.always(app), "function-variable-registered", f"TheseusFunction.{meth}", v, "variable is not recorded")
        for e in app:
            for lst in (own, other):
                r.check(implies_guard(e, lambda t: cmp_of(t, "in", val(name), self_attr(lst)), False),
                        "function-variable-unique", f"TheseusFunction.{meth}/{lst}", e,
                        "a variable can be registered twice, or both as optimization and auxiliary variable")
    for prop, lst in (("optim_vars", "_optim_vars_attr_names"), ("aux_vars", "_aux_vars_attr_names")):
        v = a.view("TheseusFunction", prop)
        used = {x for x in ("_optim_vars_attr_names", "_aux_vars_attr_names") for t in
                [v.c(v.result)] + [l[1] for e in v.events for l in e.loops] + [e.value for e in v.events if e.value is not None]
                if isinstance(t, Term) and mentions_attr(t, x)}
        r.check(used == {lst}, "function-variable-accessor", f"TheseusFunction.{prop}", v, f"reads {sorted(used)}")
    for m, lst in (
        ("optim_var_at", "_optim_vars_attr_names"), ("aux_var_at", "_aux_vars_attr_names"),
        ("num_optim_vars", "_optim_vars_attr_names"), ("num_aux_vars", "_aux_vars_attr_names"),
        ("set_optim_var_at", "_optim_vars_attr_names"), ("set_aux_var_at", "_aux_vars_attr_names"),
    ):
        v = a.view("TheseusFunction", m)
        ts = [v.c(v.result)] + [x for e in v.events for x in (e.term, e.index, e.value) if x is not None]
        used = {x for x in ("_optim_vars_attr_names", "_aux_vars_attr_names") for t in ts if mentions_attr(t, x)}
        r.check(used == {lst}, "function-variable-accessor", f"TheseusFunction.{m}", v, f"reads {sorted(used)}")
        if m.startswith("set_"):
            var = T("param", v.func.qual, v.func.params[2])
            idx = T("param", v.func.qual, v.func.params[1])
            st = [e for e in v.sets() if e.value is var]
            r.check(st and v.always(st) and all(e.index is not None and has(e.index, idx) for e in st),
                    "function-variable-replaced", f"TheseusFunction.{m}", v, "the variable at the index is not replaced")


def check(a, r):
    check_add(a, r)
    check_erase(a, r)
    check_queries(a, r)
    check_function_registration(a, r)
    r.floor("add-registers-variable", 8)
    r.floor("erase-unregisters-variable", 12)
    r.floor("query-reads-own-registry", 11)
