"""Cost weights. For every concrete cost weight the factor multiplying the error
is extracted from weight_error and from weight_jacobians_and_error and compared
(up to reshaping) with the factor of every jacobian; the factor may only come
from registered variables read at call time; inputs are not written; the zero
test quantifies over all values of a batch element."""
from functools import partial
from checks.C40 import method_loc
from sa import weights
from sa.rules import *  # noqa: F401,F403

SHAPERS = ("view", "reshape", "unsqueeze", "squeeze", "contiguous", "expand", "expand_as", "view_as", "flatten")


def strip_shape(t):
    while True:
        if is_call(t, *SHAPERS) and call_recv(t) is not None:
            t = call_recv(t)
        elif t.kind == "sub" and shape_index(t.args[1]):
            t = t.args[0]
        else:
            return t


def shape_index(ix):
    """index expression that only adds axes"""
    ps = ix.args[0] if ix.kind == "tuple" else [ix]
    return all(is_const(p, None) or is_const(p, Ellipsis) or full_slice(p) for p in ps)


def factor(t, leaf):
    """(kind, factor term) when t = factor (*|@) leaf"""
    t = strip_shape(t)
    if t.kind == "bin" and t.args[0] in ("*", "@"):
        l, rr = t.args[1], t.args[2]
        if t.args[0] == "@":
            return ("@", l) if strip_shape(rr) is leaf else None
        if strip_shape(l) is leaf:
            return ("*", rr)
        if strip_shape(rr) is leaf:
            return ("*", l)
        return None
    if is_call(t, "mul", "multiply", "matmul", "bmm") and call_pos(t):
        o = call_pos(t)[0]
        rc = call_recv(t)
        if rc is None and len(call_pos(t)) > 1:
            rc, o = call_pos(t)[0], call_pos(t)[1]
        if rc is None:
            return None
        if is_call(t, "mul", "multiply"):
            if strip_shape(rc) is leaf:
                return ("*", o)
            if strip_shape(o) is leaf:
                return ("*", rc)
            return None
        return ("@", rc) if strip_shape(o) is leaf else None
    if is_call(t, "einsum"):
        return None
    return None


def row_axis(F):
    """'rows' when the factor broadcasts over the columns of a jacobian, 'cols' when over its rows, None unknown"""
    if is_call(F, "unsqueeze"):
        d = get_arg(F, 0, "dim")
        if d is not None and d.kind == "const":
            return "rows" if d.args[0] in (2, -1) else "cols"
        return None
    if is_call(F, "view", "reshape"):
        p = call_pos(F)
        if len(p) == 1 and p[0].kind in ("tuple", "list"):
            p = p[0].args[0]
        if len(p) == 3:
            if is_const(p[2], 1):
                return "rows"
            if is_const(p[1], 1):
                return "cols"
        return None
    if F.kind == "attr" and F.args[1] == "tensor":
        return "cols"
    if F.kind == "sub" and F.args[1].kind == "tuple":
        ps = F.args[1].args[0]
        if ps and is_const(ps[-1], None):
            return "rows"
        if any(is_const(x, None) for x in ps):
            return "cols"
    return None


def registered(a, cls):
    v = a.view(cls, "__init__")
    out = set()
    for e in v.events:
        if e.kind == "call" and is_call(e.term, "register_aux_vars", "register_optim_vars"):
            x = get_arg(e.term, 0, "aux_var_names") or get_arg(e.term, 0, "optim_var_names") or (call_pos(e.term) or [None])[0]
            if x is None and call_kw(e.term):
                x = next(iter(call_kw(e.term).values()))
            x = v.c(x) if x is not None else None
            for s in subterms(x) if x is not None else []:
                if s.kind == "const" and isinstance(s.args[0], str):
                    out.add(s.args[0])
        elif e.kind == "call" and is_call(e.term, "register_optim_var", "register_aux_var"):
            for s in call_pos(e.term) + list(call_kw(e.term).values()):
                if s.kind == "const" and isinstance(s.args[0], str):
                    out.add(s.args[0])
    return out


def self_reads(t):
    out = set()
    for x in subterms(t):
        if x.kind == "attr" and is_self(x.args[0]):
            out.add(x.args[1])
        elif x.kind == "hv":
            out.add(x.args[1])
    return out


def inplace(v, names):
    for e in v.events:
        b = None
        if e.kind in ("setitem", "aug", "del"):
            b = e.base
        elif e.kind == "mutcall" or e.kind == "call" and e.name and e.base is not None and (
                e.name.endswith("_") and not e.name.startswith("_") or e.name in ("append", "pop", "clear", "insert", "extend", "remove", "reverse")):
            b = e.base
        if b is None:
            continue
        if e.kind == "aug":
            if b.kind not in ("attr", "sub"):
                # rebinding of a local: in place for tensors
                if not (b.kind == "param" and b.args[0] in names or b.kind == "elem" and contains(b, lambda x: any(p_param(x, n) for n in names))):
                    continue
        bb = b
        while bb.kind in ("sub", "upd"):
            bb = bb.args[0]
        bb = strip_shape(bb)
        if any(p_param(bb, n) for n in names) or bb.kind == "elem" and any(p_param(iter_source(bb.args[0]), n) for n in names):
            yield e


def check_class(a, r, cls):
    n = cls.name
    regs = registered(a, n)
    ini = a.view(n, "__init__")
    r.check(any(e.kind == "call" and (call_name(e.term) or "").startswith("register_") for e in ini.events), "parameters-registered", f"{n}.__init__", ini,
            "the parameters of the weight are not registered as variables")
    we = a.view(n, "weight_error")
    fs = []
    err = next((p for p in we.func.params if p != "self"), None)
    for e in we.returns():
        for gs, c in cases(we.c(e.value)):
            leaf = T("param", err) if False else next((x for x in subterms(c) if p_param(x, err)), None)
            if leaf is None:
                r.check(False, "error-weighted", f"{n}.weight_error", e, f"returns {show(c)[:60]}")
                continue
            f = factor(c, leaf)
            if f is None:
                s0 = strip_shape(c)
                if c is leaf or s0 is leaf:
                    r.check(False, "error-weighted", f"{n}.weight_error", e, "the error is returned unweighted")
                elif s0.kind == "bin" and s0.args[0] not in ("*", "@") and any(strip_shape(x) is leaf for x in s0.args[1:]):
                    r.check(False, "error-weighted", f"{n}.weight_error", e, f"the error is combined with the weight by {s0.args[0]}")
                else:
                    r.skip("error-weighted", f"{n}.weight_error", show(c)[:80])
                continue
            fs.append((e, f))
            r.ok("error-weighted", f"{n}.weight_error")
            used = self_reads(f[1])
            r.check(used and (used <= regs or not regs), "factor-from-current-parameters", f"{n}.weight_error", e,
                    f"the factor reads {sorted(used - regs)} instead of the weight's variables")
    wj = a.view(n, "weight_jacobians_and_error")
    ps = [p for p in wj.func.params if p != "self"]
    pj, pe = (ps + ["jacobians", "error"])[:2]
    where = f"{n}.weight_jacobians_and_error"
    for e in wj.returns():
        t = wj.c(e.value)
        if t.kind != "tuple" or len(t.args[0]) != 2:
            r.skip("jacobians-and-error-agree", where, show(t)[:80])
            continue
        js, er = t.args[0]
        ferr = None
        leaf = next((x for x in subterms(er) if p_param(x, pe)), None)
        if is_call(er, "weight_error"):
            x = get_arg(er, 0, "error")
            r.check(x is not None and p_param(x, pe), "jacobians-and-error-agree", where, e, f"weights {show(x)[:60]}")
            ferr = fs[0][1] if fs else None
        elif leaf is None or er is leaf:
            r.check(False, "jacobians-and-error-agree", where, e, f"error returned is {show(er)[:60]}")
        else:
            ferr = factor(er, leaf)
            if ferr is None and strip_shape(er).kind == "bin" and strip_shape(er).args[0] not in ("*", "@"):
                r.check(False, "jacobians-and-error-agree", where, e, f"error returned is {show(er)[:60]}")
            elif ferr is None:
                r.skip("jacobians-and-error-agree", where, show(er)[:80])
            for _, f in fs if ferr is not None else []:
                r.check(ferr[0] == f[0] and strip_shape(ferr[1]) is strip_shape(f[1]), "jacobians-and-error-agree", where, e,
                        "the error is weighted differently from weight_error")
        es = entries(wj.c(js))
        if p_param(js, pj):
            r.check(False, "every-jacobian-weighted", where, e, "the given jacobians are returned unweighted")
            continue
        if es == []:
            r.check(False, "every-jacobian-weighted", where, e, "no jacobian is returned")
            continue
        if not es:
            r.skip("every-jacobian-weighted", where, show(js)[:80])
            continue
        for x in es:
            if not x.loops:
                r.check(False, "every-jacobian-weighted", where, e, "not one result per jacobian")
                continue
            src = x.loops[-1]
            s0 = iter_source(src)
            if not p_param(s0, pj):
                if is_call(s0, "reversed") or contains(src, lambda y: is_call(y, "reversed", "sorted")) or s0.kind == "sub":
                    r.check(False, "every-jacobian-weighted", where, e, f"iterates over {show(src)[:60]}")
                    continue
                if not contains(src, lambda y: p_param(y, pj)):
                    r.skip("every-jacobian-weighted", where, show(src)[:80])
                    continue
            r.check(len(x.loops) == 1 and not x.guards, "every-jacobian-weighted", where, e, "jacobians are left out")
            leaf = next((y for y in subterms(x.value) if y.kind == "elem" and contains(y, lambda z: p_param(z, pj))
                         or y.kind == "sub" and p_param(y.args[0], pj)), None)
            if leaf is None or strip_shape(x.value) is leaf:
                r.check(False, "every-jacobian-weighted", where, e, "a jacobian is not weighted")
                continue
            f = factor(x.value, leaf)
            if f is None:
                s0 = strip_shape(x.value)
                if s0.kind == "bin" and s0.args[0] not in ("*", "@") and any(strip_shape(y) is leaf for y in s0.args[1:]):
                    r.check(False, "same-factor", where, e, f"a jacobian is combined with the weight by {s0.args[0]}")
                    continue
                r.skip("same-factor", where, show(x.value)[:80])
                continue
            if f[0] == "*":
                ax = row_axis(f[1])
                if ax is None:
                    r.skip("factor-applies-to-rows", where, show(f[1])[:80])
                else:
                    r.check(ax == "rows", "factor-applies-to-rows", where, e, f"the factor {show(f[1])[:60]} scales columns")
            for g in ([ferr] if ferr else []) + [f2 for _, f2 in fs]:
                r.check(f[0] == g[0] and strip_shape(f[1]) is strip_shape(g[1]), "same-factor", where, e,
                        f"jacobians are multiplied by {show(strip_shape(f[1]))[-60:]} and the error by {show(strip_shape(g[1]))[-60:]}")
    for v, names in ((we, (err,)), (wj, (pj, pe))):
        bad = list(inplace(v, names))
        r.check(not bad, "inputs-unchanged", f"{n}.{v.func.name}", bad[0] if bad else v, "the given tensors are changed in place")
    # buffers have room for the batch of every parameter
    for v in (we, wj, a.view(n, "is_zero")):
        for e in v.events:
            if e.kind != "call" or not is_call(e.term, "empty", "zeros", "ones", "full", "new_zeros", "new_empty"):
                continue
            d = list(call_pos(e.term)) or list(call_kw(e.term).values())[:1]
            if not d:
                continue
            d = v.c(d[0])
            if d.kind in ("tuple", "list") and d.args[0]:
                d = d.args[0][0]
            used = self_reads(d) & regs
            if used:
                r.check(used == regs, "buffer-fits-every-parameter", f"{n}.{v.func.name}", e,
                        f"the batch size ignores {sorted(regs - used)}")
    # zero test
    z = a.view(n, "is_zero")
    where = f"{n}.is_zero"
    for e in z.returns():
        t = z.c(e.value)
        cmps = [x for x in subterms(t) if x.kind == "cmp" and any(is_const(y, 0) or is_const(y, 0.0) for y in x.args[1:])]
        other = [x for x in subterms(t) if x.kind == "cmp" and self_reads(x) & regs and any(is_const(y) for y in x.args[1:])]
        if not cmps and other:
            r.check(False, "zero-test", where, e, f"tests {show(other[0])[:60]}")
            continue
        if not cmps:
            if is_call(t, "zeros") or contains(t, lambda x: is_call(x, "zeros", "new_zeros", "full", "zeros_like")):
                # never zero: allowed only when the parameters cannot vanish
                r.check(n_never_zero(a, n), "zero-test", where, e, "never reports a zero weight")
            elif is_call(t, "logical_not") or t.kind == "un":
                x = call_recv(t) or (call_pos(t) or [None])[0] if t.kind == "call" else t.args[1]
                r.check(not is_call(x, "all"), "zero-test", where, e, "reports weights with any zero value")
            else:
                r.skip("zero-test", where, show(t)[:80])
            continue
        c = cmps[0]
        what = c.args[1] if not is_const(c.args[1]) else c.args[2]
        r.check(self_reads(what) & regs or not regs, "zero-test", where, e, f"tests {show(what)[:60]}")
        if t.kind == "un" and t.args[0] in ("~", "not") or is_call(t, "logical_not"):
            inner = t.args[1] if t.kind == "un" else (call_recv(t) or call_pos(t)[0])
            ok = c.args[0] == "!=" and contains(inner, lambda x: is_call(x, "any", "max", "amax"))
            r.check(ok, "zero-test", where + "/quantifier", e, "negated test")
            continue
        if contains(t, lambda x: x.kind == "un" and x.args[0] in ("~", "not") and x.args[1] is c) and c.args[0] == "==":
            r.check(False, "zero-test", where, e, "reports the nonzero weights")
            continue
        for x in subterms(t):
            if x.kind == "sub" and is_call(x.args[0], "min") and is_const(x.args[1]):
                r.check(is_const(x.args[1], 0), "zero-test", where + "/value", e, "takes the position of the minimum")
            if x.kind == "attr" and x.args[1] == "indices" and is_call(x.args[0], "min"):
                r.check(False, "zero-test", where + "/value", e, "takes the position of the minimum")
        many = contains(t, lambda x: is_call(x, "min", "all", "amin", "prod", "any", "max", "amax", "sum"))
        if c.args[0] == "==":
            r.check(not contains(t, lambda x: is_call(x, "any", "max", "amax")), "zero-test", where + "/quantifier", e,
                    "reports elements with any zero value")
            wide = is_wide(a, n, what)
            if not many and wide:
                r.check(False, "zero-test", where + "/quantifier", e, "values of one element are not combined")
            for x in subterms(t):
                if is_call(x, "min", "all", "amin"):
                    d = get_arg(x, 0, "dim")
                    r.check(d is not None and d.kind == "const" and d.args[0] in (1, -1), "zero-test", where + "/batch", e, "combines different batch elements")
        elif c.args[0] == "!=":
            r.check(False, "zero-test", where, e, "reports the nonzero weights")
        elif c.args[0] in ("<", "<=", ">", ">="):
            r.check(contains(what, lambda x: is_call(x, "abs")), "zero-test", where, e, "negative weights are reported as zero")


def is_wide(a, n, what):
    """the tested parameter has several values per batch element"""
    return not is_call(what, "squeeze", "view", "reshape") and n != "ScaleCostWeight"


def n_never_zero(a, n):
    """construction refuses parameters for which the weight vanishes"""
    v = a.view(n, "__init__")
    return bool(v.raises()) and any(e.kind == "call" and is_call(e.term, "cholesky") for e in v.events)


def blk(ix):
    """which half an index slice selects: 0 lower, 1 upper"""
    if ix.kind != "slice":
        return None
    lo, hi = ix.args[0], ix.args[1]
    if (is_const(lo, None) or is_const(lo, 0)) and not is_const(hi, None):
        return 0, hi
    if not is_const(lo, None) and is_const(hi, None):
        return 1, lo
    return None


def scal(t):
    """(coefficient, dt exponent) of a block: numbers and powers in a product"""
    c, ex = 1.0, 0
    rest = []

    def walk(x, inv=False):
        nonlocal c, ex
        if x.kind == "bin" and x.args[0] == "*":
            walk(x.args[1], inv)
            walk(x.args[2], inv)
        elif x.kind == "bin" and x.args[0] == "/":
            walk(x.args[1], inv)
            walk(x.args[2], not inv)
        elif x.kind == "un" and x.args[0] == "-":
            c = -c
            walk(x.args[1], inv)
        elif x.kind == "const" and isinstance(x.args[0], (int, float)) and x.args[0]:
            c = c / x.args[0] if inv else c * x.args[0]
        elif is_call(x, "pow") and call_recv(x) is not None and call_pos(x) and call_pos(x)[0].kind == "const" and "dt" in self_reads(x):
            k = call_pos(x)[0].args[0]
            ex += -k if inv else k
        elif x.kind == "bin" and x.args[0] == "**" and x.args[2].kind == "const" and "dt" in self_reads(x):
            k = x.args[2].args[0]
            ex += -k if inv else k
        elif is_call(x, "reciprocal") and "dt" in self_reads(x):
            ex += 1 if inv else -1
        elif self_reads(x) == {"dt"}:
            ex += -1 if inv else 1
        else:
            rest.append((x, inv))

    walk(t)
    return c, ex, rest


def check_gp(a, r):
    """information matrix of the constant velocity prior"""
    n = "GPCostWeight"
    if n not in {c.name for c in a.p.all_classes()}:
        return
    v = a.view(n, "weight_error")
    want = {(0, 0): (12, -3), (0, 1): (-6, -2), (1, 0): (-6, -2), (1, 1): (4, -1)}
    got = {}
    for e in v.setitems():
        ix = e.index.args[0] if e.index.kind == "tuple" else [e.index]
        if len(ix) != 3:
            continue
        b = blk(ix[1]), blk(ix[2])
        if None in b:
            continue
        r.check(b[0][1] is b[1][1], "gp-information-matrix", n + "/split", e, "rows and columns are split differently")
        c, ex, rest = scal(v.c(e.value))
        k = (b[0][0], b[1][0])
        got[k] = e
        if len(rest) != 1 or "Qc_inv" not in self_reads(rest[0][0]):
            r.skip("gp-information-matrix", n, show(e.value)[:80])
            continue
        r.check((round(c, 9), ex) == want[k] and not rest[0][1], "gp-information-matrix", n, e, f"block {k} is {c} dt^{ex}")
    if got:
        r.check(set(got) == set(want), "gp-information-matrix", n + "/complete", v, f"only the blocks {sorted(got)} are set")
    ch = [x for e in v.returns() for x in subterms(e.value) if is_call(x, "cholesky")]
    for x in ch[:1]:
        up = get_arg(x, 1, "upper")
        f = next(f for e in v.returns() for f in [factor(v.c(e.value), next(y for y in subterms(e.value) if p_param(y, "error")))])
        if f is None:
            continue
        flips = 0
        t = f[1]
        while t is not x and t.kind in ("call", "attr"):
            if is_call(t, "transpose", "swapaxes", "swapdims") or t.kind == "attr" and t.args[1] in ("mT", "mH", "T"):
                flips += 1
            t = call_recv(t) if t.kind == "call" else t.args[0]
            if t is None:
                break
        if t is x:
            lower = up is None or is_const(up, False)
            r.check((flips % 2 == 1) == lower, "gp-square-root", n, v, "the weight is the wrong triangular root of the information matrix")


def check(a, r):
    base = a.p.cls("CostWeight")
    for cls in sorted(a.p.subclasses(base, strict=True), key=lambda c: c.name):
        if a.p.is_abstract(cls):
            continue
        check_class(a, r, cls)
    check_gp(a, r)
    loc = partial(method_loc, a)
    r.parallel(a, [(weights.same_map, (loc,)), (weights.zero, (loc,))])
    # parameters keep one row per batch element
    for n, attr_, want in (("ScaleCostWeight", "scale", [-1, 1]), ("DiagonalCostWeight", "diagonal", [1, -1])):
        v = a.view(n, "__init__")
        for e in v.sets("tensor"):
            t = v.c(e.value)
            for gs, c in cases(t):
                if is_call(c, "view", "reshape") and len(call_pos(c)) == 2:
                    d = [x.args[0] if x.kind == "const" else None for x in call_pos(c)]
                    ok = d == want or d == [1, 1]
                    r.check(ok, "parameter-layout", f"{n}.__init__", e, f"{attr_} is reshaped to {d}")
