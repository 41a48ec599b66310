"""Variable ordering. The list behind position queries and the map behind index
queries are found from the query methods; every write of one must be paired with
the matching write of the other (value = position of the appended element),
mutations are dominated by the membership tests, and completeness compares the
list with the variables of the objective."""
from sa.rules import *  # noqa: F401,F403

CLS = "VariableOrdering"
CORE = ("implies", "forall", "loopdone")


def core(gs):
    return [(g, p) for g, p in gs if g.kind not in CORE]


def field(t):
    while t is not None:
        if t.kind == "attr" and is_self(t.args[0]):
            return t.args[1]
        if t.kind == "hv":
            return t.args[1]
        if t.kind == "loopout":
            t = t.args[1]
            continue
        if t.kind == "upd":
            t = t.args[0]
            continue
        return None
    return None


def roles(a, r):
    L = M = None
    v = a.view(CLS, "__getitem__")
    for e in v.returns():
        t = v.c(e.value)
        if t.kind == "sub" and field(t.args[0]):
            L = field(t.args[0])
            r.check(p_param(t.args[1], "index"), "position-query", f"{CLS}.__getitem__", e, f"position {show(t.args[1])[:40]} is served")
        else:
            r.skip("position-query", CLS, show(t)[:60])
    v = a.view(CLS, "index_of")
    for e in v.returns():
        t = v.c(e.value)
        if t.kind == "sub" and field(t.args[0]):
            M = field(t.args[0])
            r.check(p_param(t.args[1], "key"), "index-query", f"{CLS}.index_of", e, f"the index of {show(t.args[1])[:40]} is served")
        elif is_call(t, "get") and field(call_recv(t)):
            r.check(False, "index-query", f"{CLS}.index_of", e, "an unknown name gets an index")
        elif t.kind == "bin":
            r.check(False, "index-query", f"{CLS}.index_of", e, f"returns {show(t)[:60]}")
        else:
            r.skip("index-query", CLS, show(t)[:60])
    if not v.returns():
        r.check(False, "index-query", f"{CLS}.index_of", v, "nothing is returned")
    v = a.view(CLS, "__iter__")
    for e in v.returns():
        t = v.c(e.value)
        if is_call(t, "iter") and call_pos(t):
            r.check(field(call_pos(t)[0]) == L, "iteration-follows-order", f"{CLS}.__iter__", e, f"iterates over {show(t)[:60]}")
        elif is_call(t, "reversed", "set", "sorted") or contains(t, lambda x: is_call(x, "reversed", "sorted", "set")):
            r.check(False, "iteration-follows-order", f"{CLS}.__iter__", e, f"iterates over {show(t)[:60]}")
        else:
            r.skip("iteration-follows-order", CLS, show(t)[:60])
    return L, M


def field_map(v, e, n):
    """base of an event is field n (directly or as the object just created for it)"""
    b = e.base if e.kind != "call" else call_recv(e.term)
    if b is None and e.kind == "call":
        b = e.base
    if b is None:
        return False
    if field(b) == n:
        return True
    return any(s.value is b or v.c(s.value) is v.c(b) for s in v.sets(n) if s.value is not None and s.value.kind in ("new", "coll"))


def mut(e):
    return e.kind == "mutcall" or e.kind == "call" and e.name is not None and e.base is not None


def appends(v, L):
    """(event, element) pairs of additions to the list"""
    out = []
    for e in v.events:
        if mut(e) and field_map(v, e, L) and e.name in ("append", "insert", "extend"):
            x = e.term if e.term is not None and e.term.kind == "call" else e.value
            ps = list(call_pos(x)) if x is not None and x.kind == "call" else ([x] if x is not None else [])
            out.append((e, e.name, ps))
    return out


def when_seen(v, term, before):
    """sequence numbers at which a term was evaluated"""
    return [e.seq for e in v.events if e.kind == "call" and e.term is term and e.seq <= before]


def index_ok(v, L, val, add, put):
    """val is the position of the element added by event add. None: not recognised"""
    t = val
    lens = [x for x in subterms(t) if is_call(x, "len") and call_pos(x) and (field(call_pos(x)[0]) == L or any(
        s.value is call_pos(x)[0] for s in v.sets(L)))]
    if lens:
        n = lens[0]
        seen = when_seen(v, n, put.seq)
        if not seen or t.kind == "phi":
            return None
        after = seen[-1] > add.seq
        want = {(n,): 1, (): -1} if after else {(n,): 1}
        return {k: c for k, c in poly(t).items() if c} == want
    if t.kind == "loopvar":
        init, new, _ = v.e.loopinfo.get(t, (None, None, None))
        if init is None or not is_const(init):
            return None
        if not is_const(init, 0):
            return False
        news = {c for _, c in cases(new)} if new.kind == "phi" else {new}
        steps = []
        for x in news:
            s = {k: c for k, c in psub(poly(x), poly(t)).items() if c}
            steps.append(s)
        if all(s == {(): 1} for s in steps):
            return True
        # conditional increments must follow the append
        return None if any(s == {} for s in steps) and any(s == {(): 1} for s in steps) else False
    if t.kind == "idx":
        return True if not core(put.guards) else None
    if is_const(t):
        return False
    return None


def check_add(a, r, v, where, L, M, looped):
    adds = appends(v, L)
    puts = [e for e in v.setitems() if field_map(v, e, M)] if M else []
    if looped and not adds:
        # built by comprehension
        for e in v.sets(L):
            es = entries(v.c(e.value))
            if es and any(x.loops for x in es):
                for x in es:
                    src = iter_source(x.loops[-1])
                    r.check(mentions_attr(src, "optim_vars") and not contains(src, lambda y: is_call(y, "reversed", "sorted")), "default-order-follows-objective", where, e, f"default order made from {show(src)[:60]}")
                    r.check(not x.guards, "default-order-complete", where, e, "variables are left out of the default order")
                adds = None
        for e in v.sets(M) if M else []:
            es = entries(v.c(e.value)) or []
            for x in es:
                if x.loops:
                    r.check(x.value.kind == "idx", "index-is-position", where, e, f"index {show(x.value)[:60]}")
        if adds is None:
            return
        delegated = v.calls("append", "extend", recv=is_self)
        if delegated:
            for e in delegated:
                x = get_arg(e.term, 0, "var") if is_call(e.term, "append") else get_arg(e.term, 0, "variables")
                r.check(x is not None and mentions_attr(x, "optim_vars"), "default-order-follows-objective", where, e, f"default order adds {show(x)[:60]}")
                bad = [g for g, p in core(e.guards) if not mentions_attr(g, L) and not mentions_attr(g, M) and not p_param(g, "default_order")]
                r.check(not bad, "default-order-complete", where, e, "variables are left out of the default order")
            return
    if not adds:
        r.check(False, "element-added", where, v, "the variable is not put in the order")
        return
    if len(adds) != 1:
        r.skip("element-added", where, f"{len(adds)} additions")
        return
    e, how, ps = adds[0]
    if how != "append":
        ok = how == "insert" and len(ps) == 2 and is_call(ps[0], "len")
        if how == "insert" and not ok:
            r.check(False, "element-added", where, e, "the variable is not added at the end")
        else:
            r.skip("element-added", where, how)
        return
    el = v.c(ps[0]) if ps else None
    if not looped:
        r.check(el is not None and p_param(el, "var"), "element-added", where, e, f"adds {show(el)[:60]}")
    else:
        src = iter_source(e.loops[-1][1]) if e.loops else None
        if src is None:
            r.check(False, "default-order-follows-objective", where, e, "only one variable is added")
        else:
            r.check(mentions_attr(src, "optim_vars") and not contains(e.loops[-1][1], lambda y: is_call(y, "reversed", "sorted", "set")), "default-order-follows-objective", where, e,
                    f"default order made from {show(e.loops[-1][1])[:60]}")
            r.check(el is not None and (el.kind in ("val", "elem") or el.kind == "sub" and el.args[1].kind in ("key", "elem")), "element-added", where, e, f"adds {show(el)[:60]}")
        bad = [(g, p) for g, p in core(e.guards) if not p_param(g, "default_order") and not (M and mentions_field(v, g, M)) and not mentions_field(v, g, L)]
        r.check(not bad, "default-order-complete", where, e, "variables are left out of the default order")
    if M is None:
        return
    if not puts:
        r.check(False, "list-and-map-agree", where, e, "the variable gets no index")
        return
    for p in puts:
        k = v.c(p.index)
        if not looped:
            r.check(k.kind == "attr" and k.args[1] == "name" and k.args[0] is el, "index-under-its-name", where, p, f"index stored under {show(k)[:60]}")
        else:
            ok = k.kind == "key" and el is not None and el.kind == "val" and k.args[0] is el.args[0] or k.kind == "attr" and k.args[1] == "name" and k.args[0] is el
            r.check(ok, "index-under-its-name", where, p, f"index stored under {show(k)[:60]}")
        ok = index_ok(v, L, v.c(p.value), e, p)
        if ok is None:
            r.skip("index-is-position", where, show(p.value)[:60])
        else:
            r.check(ok, "index-is-position", where, p, f"index {show(p.value)[:60]} is not the position of the variable")
    r.check(covers(e.guards, [p.guards for p in puts]) and covers(puts[0].guards, [e.guards]), "list-and-map-agree", where, puts[0],
            "list and index map are not updated together")


def mentions_field(v, g, n):
    return contains(g, lambda x: field(x) == n or any(s.value is x for s in v.sets(n)))


def check_append(a, r, L, M):
    where = f"{CLS}.append"
    v = a.view(CLS, "append")
    check_add(a, r, v, where, L, M, False)
    muts = [e for e, _, _ in appends(v, L)] + [e for e in v.setitems() if M and field_map(v, e, M)]
    for e in muts:
        dup = unk = False
        for g, p in e.guards:
            for x in subterms(g):
                if x.kind == "cmp" and x.args[0] in ("in", "not in"):
                    neg = x.args[0] == "not in"
                    cont = x.args[2]
                    val_ = implied(e.guards, x)
                    if val_ is None:
                        continue
                    inside = val_ != neg
                    if field(cont) in (L, M) or contains(cont, lambda y: field(y) in (L, M)):
                        dup = dup or not inside
                    elif mentions_attr(cont, "optim_vars"):
                        unk = unk or inside
                elif is_call(x, "has_optim_var") and implied(e.guards, x):
                    unk = True
        r.check(dup, "duplicates-refused", where, e, "a variable already in the order is added again")
        r.check(unk, "unknown-variables-refused", where, e, "a variable the objective does not optimize is added")
    rs = v.raises()
    r.check(len(rs) >= 1 and all(is_call(e.value, "ValueError", "KeyError", "RuntimeError") or e.value is not None for e in rs), "refusal-raises", where, v, "nothing is raised")


def implied(gs, x):
    """truth value of x under the guards, or None"""
    for g, p in gs:
        if g is x:
            return p
    if not sat([*gs, (x, True)]):
        return False
    if not sat([*gs, (x, False)]):
        return True
    return None


def check_remove(a, r, L, M):
    where = f"{CLS}.remove"
    v = a.view(CLS, "remove")
    rem = []
    for e in v.events:
        if mut(e) and field_map(v, e, L) and e.name in ("remove", "pop"):
            rem.append(e)
        elif e.kind == "del" and e.base is not None and field_map(v, e, L):
            rem.append(e)
    rebuilt = v.sets(L)
    if not rem and not rebuilt:
        r.check(False, "element-removed", where, v, "the variable stays in the order")
        return
    for e in rem:
        if mut(e) and e.name == "remove":
            x = e.term if e.term is not None and e.term.kind == "call" else e.value
            arg = v.c(call_pos(x)[0]) if x is not None and x.kind == "call" and call_pos(x) else x
            r.check(arg is not None and p_param(arg, "var"), "element-removed", where, e, f"removes {show(arg)[:60]}")
        gs = [(g, p) for g, p in core(e.guards)]
        r.check(v.always([e]) , "absent-variables-refused", where, e, "removing an absent variable is silently accepted") if not e.loops else r.skip(
            "absent-variables-refused", where, "in a loop")
    if M is None:
        return
    last = max([e.seq for e in rem] + [e.seq for e in rebuilt])
    ups = [e for e in v.sets(M)]
    puts = [e for e in v.setitems() if field_map(v, e, M)]
    if not ups and not puts:
        r.check(False, "list-and-map-agree", where, v, "indices keep counting the removed variable")
        return
    for e in ups:
        es = entries(v.c(e.value))
        if not es:
            if puts:
                continue
            r.skip("list-and-map-agree", where, show(e.value)[:60])
            continue
        for x in es:
            if not x.loops:
                r.skip("list-and-map-agree", where, show(x.value)[:60])
                continue
            src = x.loops[-1]
            r.check(mentions_field(v, src, L), "list-and-map-agree", where, e, f"indices rebuilt from {show(src)[:60]}")
            k = x.key
            r.check(k is not None and k.kind == "attr" and k.args[1] == "name", "index-under-its-name", where, e, f"index stored under {show(k)[:60]}")
            if x.value.kind == "idx":
                st = enum_start(x.loops[-1])
                r.check(st in (None, 0), "index-is-position", where, e, "indices do not start at zero")
            elif x.value.kind == "loopvar":
                init = v.e.loopinfo.get(x.value, (None,))[0]
                r.check(init is None or is_const(init, 0), "index-is-position", where, e, "indices do not start at zero")
            elif x.value.kind in ("bin", "const"):
                r.check(False, "index-is-position", where, e, f"index {show(x.value)[:60]} is not the position")
            else:
                r.skip("index-is-position", where, show(x.value)[:60])
            r.check(not x.guards, "list-and-map-agree", where + "/all", e, "some variables lose their index")
        # evaluated after the removal
        lens = [c.seq for c in v.events if c.kind == "call" and is_call(c.term, "enumerate", "range", "len") and mentions_field(v, c.term, L) and c.seq < e.seq]
        r.check(not lens or max(lens) > last, "list-and-map-agree", where + "/order", e, "indices are rebuilt before the variable is removed")
    if ups:
        tgt = ups
        r.check(covers((), [e.guards for e in tgt]), "list-and-map-agree", where, tgt[0], "indices are not always rebuilt")
    if puts and not ups:
        for e in puts:
            r.check(e.loops and mentions_field(v, e.loops[-1][1], L) or e.loops, "list-and-map-agree", where, e, "only one index is rebuilt")
            r.check(e.seq > last, "list-and-map-agree", where + "/order", e, "indices are rebuilt before the variable is removed")
            t = v.c(e.value)
            if t.kind == "bin" and t.args[0] in ("+",):
                r.check(False, "index-is-position", where, e, f"index {show(t)[:60]} is not the position")
        gone = [e for e in v.events if (e.kind == "del" or mut(e)) and field_map(v, e, M) and (e.kind == "del" or e.name in ("pop", "clear"))]
        r.check(gone, "list-and-map-agree", where + "/gone", puts[0], "the removed variable keeps an index")


def enum_start(t):
    for x in subterms(t):
        if is_call(x, "enumerate"):
            s = get_arg(x, 1, "start")
            if s is not None:
                return s.args[0] if s.kind == "const" else "?"
    return None


def check_extend(a, r, L):
    where = f"{CLS}.extend"
    v = a.view(CLS, "extend")
    own = v.calls("append", recv=is_self)
    if not own:
        direct = appends(v, L)
        if direct:
            for e, how, ps in direct:
                g = [x for g, p in e.guards for x in subterms(g) if x.kind == "cmp" and x.args[0] in ("in", "not in")]
                r.check(len(g) >= 2, "extend-like-append", where, e, "variables are added without the tests of append")
        else:
            r.check(False, "extend-like-append", where, v, "no variable is added")
        return
    for e in own:
        x = v.c(get_arg(e.term, 0, "var"))
        r.check(e.loops and p_param(iter_source(e.loops[-1][1]), "variables") and not contains(e.loops[-1][1], lambda y: is_call(y, "reversed", "sorted", "set")) and x.kind == "elem", "extend-like-append", where, e,
                "not every given variable is added in the given order")
        r.check(not core(e.guards), "extend-like-append", where + "/all", e, "variables are skipped silently")


def check_init(a, r, L, M):
    where = f"{CLS}.__init__"
    v = a.view(CLS, "__init__")
    for n in (L, M):
        if n is None:
            continue
        st = [e for e in v.sets(n)]
        r.check(st and covers((), [e.guards for e in st]), "starts-empty", f"{where}/{n}", st[0] if st else v, f"{n} is not created per ordering")
        for e in st:
            r.check(v.c(e.value).kind in ("coll", "new", "list", "dict") or is_call(e.value, "list", "dict"), "starts-empty", f"{where}/{n}", e, f"{n} starts as {show(e.value)[:60]}")
    f = a.p.method(a.p.cls(CLS), "__init__")
    r.check(default_of(f, "default_order") is True, "default-order-is-default", where, v, "an ordering is empty unless asked otherwise")
    for e in v.sets("objective"):
        r.check(p_param(v.c(e.value), "objective"), "own-objective", where, e, f"refers to {show(e.value)[:60]}")
    check_add(a, r, v, where, L, M, True)
    # only when asked
    for e, _, _ in appends(v, L):
        r.check(implied(e.guards, next((x for g, _ in e.guards for x in subterms(g) if p_param(x, "default_order")), TRUE_)) is True and any(
            contains(g, lambda x: p_param(x, "default_order")) for g, _ in e.guards), "default-order-when-asked", where, e, "variables are added although no default order was asked for")


TRUE_ = T("const", True)


def check_complete(a, r, L, M):
    where = f"{CLS}.complete"
    v = a.view(CLS, "complete")
    for e in v.returns():
        t = v.c(e.value)
        c = t
        if c.kind == "cmp" and c.args[0] in ("==", "!=", "<=", ">=", "<", ">"):
            la, lb = c.args[1], c.args[2]
            side = lambda x: is_call(x, "len") and call_pos(x) and field(call_pos(x)[0]) in (L, M)  # noqa: E731
            size = lambda x: is_call(x, "size_variables") or is_call(x, "len") and call_pos(x) and mentions_attr(call_pos(x)[0], "optim_vars")  # noqa: E731
            if side(la) and size(lb) or side(lb) and size(la):
                r.check(c.args[0] == "==" or (side(la) and c.args[0] == ">=") or (side(lb) and c.args[0] == "<="), "complete-means-all", where, e, f"complete is {show(t)[:80]}")
            elif side(la) or side(lb):
                r.check(False, "complete-means-all", where, e, f"complete is {show(t)[:80]}")
            else:
                r.skip("complete-means-all", where, show(t)[:80])
        elif is_const(t):
            r.check(False, "complete-means-all", where, e, f"complete is {show(t)}")
        elif is_call(t, "any"):
            r.check(False, "complete-means-all", where, e, "complete when any variable is present")
        else:
            r.skip("complete-means-all", where, show(t)[:80])
    w = a.view("Objective", "size_variables")
    for e in w.returns():
        t = w.c(e.value)
        if is_call(t, "len") and call_pos(t):
            r.check(call_pos(t)[0].kind == "attr" and call_pos(t)[0].args[1] == "optim_vars", "complete-means-all", "Objective.size_variables", e, f"counts {show(t)[:60]}")
        else:
            r.skip("complete-means-all", "Objective.size_variables", show(t)[:60])


def check_uses(a, r, L, M):
    # nobody else writes the private containers
    for f in a.p.all_functions():
        if f.cls is not None and f.cls.name == CLS:
            continue
        src = f.node
        import ast
        for n in ast.walk(src):
            if isinstance(n, ast.Attribute) and n.attr in ("_var_order", "_var_name_to_index") and n.attr in (L, M):
                r.check(False, "single-owner", f.qualname, f"{f.module.path}:{n.lineno}", f"{n.attr} is touched outside {CLS}")
    r.ok("single-owner", CLS)
    comp = lambda t: t.kind == "attr" and t.args[1] == "complete"  # noqa: E731
    for m in ("__init__", "linearize"):
        w = a.view("Linearization", m, opaque=("_linearize_hessian_impl",))
        rs = [e for e in w.raises() if any(contains(g, comp) for g, _ in e.guards)]
        ok = any(covers([(next(x for g, _ in e.guards for x in subterms(g) if comp(x)), False)], [e.guards]) for e in rs)
        r.check(ok, "incomplete-ordering-refused", f"Linearization.{m}", w, "an incomplete variable ordering is accepted")
    # a caller's ordering is used, and the default one belongs to the same objective
    w = a.view("Linearization", "__init__")
    for e in w.sets("ordering"):
        for gs, c in cases(e.value):
            none = [p for g, p in list(gs) + list(e.guards) if is_none_test(g, lambda t: p_param(t, "ordering"))]
            if p_param(c, "ordering"):
                r.ok("ordering-used", "Linearization")
            elif is_call(c, CLS) or c.kind in ("inst",):
                o = get_arg(c, 0, "objective") if c.kind == "call" else None
                if o is not None:
                    r.check(p_param(o, "objective") or o.kind == "attr" and o.args[1] == "objective", "ordering-used", "Linearization/objective", e, f"default ordering of {show(o)[:40]}")
                    d = get_arg(c, 1, "default_order")
                    r.check(d is None or is_const(d, True), "ordering-used", "Linearization/default", e, "the default ordering is empty")
                r.check(bool(none), "ordering-used", "Linearization", e, "the given ordering is ignored")
            else:
                r.skip("ordering-used", "Linearization", show(c)[:80])


def check(a, r):
    L, M = roles(a, r)
    if L is None:
        r.skip("list-and-map-agree", CLS, "the list behind position queries was not recognised")
        return
    check_append(a, r, L, M)
    check_remove(a, r, L, M)
    check_extend(a, r, L)
    check_init(a, r, L, M)
    check_complete(a, r, L, M)
    check_uses(a, r, L, M)
