"""Error / jacobian contract of cost functions. For every concrete cost function
the terms returned by error() and jacobians() are derived (helpers inlined) and
compared: same error, one block per registered variable in registration order
(blocks are attributed to variables through the out-parameter convention of the
geometry library), no unregistered variable is read, nothing registered is
written, buffers have room for every variable. The weighted forms, the masked
evaluation and the three autograd modes are followed through the base classes."""
import ast
from sa.rules import *  # noqa: F401,F403

CORE = ("implies", "forall", "loopdone")
DELEGATING = ("RobustCostFunction", "_CostFunctionWrapper")


def core(gs):
    return [(g, p) for g, p in gs if g.kind not in CORE]


def registered(a, cls):
    """([optim names], [aux names]) when all registrations are literal, else None"""
    v = a.view(cls, "__init__", opaque=("register_optim_vars", "register_aux_vars", "register_optim_var", "register_aux_var", "register_vars"))
    opt, aux, lit = [], [], True
    for e in v.events:
        if e.kind != "call" or not is_call(e.term, "register_optim_vars", "register_aux_vars", "register_optim_var", "register_aux_var", "register_vars"):
            continue
        if is_call(e.term, "register_vars"):
            lit = False
            continue
        args = list(call_pos(e.term)) + list(call_kw(e.term).values())
        if not args:
            continue
        x = v.c(args[0])
        names = []
        if x.kind == "const":
            names = [x.args[0]]
        elif x.kind in ("tuple", "list") and all(is_const(y) for y in x.args[0]):
            names = [y.args[0] for y in x.args[0]]
        elif x.kind == "coll" and entries(x) is not None and all(is_const(y.value) and not y.loops and not y.guards for y in entries(x)):
            names = [y.value.args[0] for y in entries(x)]
        else:
            lit = False
        if any(e.loops for _ in (0,)) and e.loops:
            lit = False
        (opt if "optim" in call_name(e.term) else aux).extend(names)
    return (opt, aux) if lit and (opt or aux) else None


VARTYPES = ("Variable", "LieGroup", "Manifold", "Vector", "Point2", "Point3", "SE2", "SE3", "SO2", "SO3", "th.Vector", "th.SE3")


def variable_params(f):
    """parameters of a constructor that hold variables"""
    out = set()
    for n, p in f.param_nodes().items():
        an = ast.unparse(p.annotation) if p.annotation is not None else ""
        toks = set("".join(c if c.isalnum() or c == "_" else " " for c in an).split())
        if toks & set(VARTYPES) and not toks & {"Sequence", "List", "Dict", "Callable"}:
            out.add(n)
    return out


def strip_jac(t):
    """term with out-parameter lists removed, local() expanded"""
    def f(x):
        if x.kind == "call":
            kw = call_kw(x)
            if "jacobians" in kw:
                x = T("call", x.args[0], x.args[1], tuple(sorted((k, v) for k, v in kw.items() if k != "jacobians")))
            if is_call(x, "local") and call_recv(x) is not None:
                o = get_arg(x, 0, "variable2")
                if o is not None:
                    inv = T("call", T("attr", call_recv(x), "inverse"), (), ())
                    cmpn = T("call", T("attr", inv, "compose"), (), (("variable2", o),))
                    return T("call", T("attr", cmpn, "log_map"), (), ())
        return x
    return rebuild(t, f)


def self_reads(t):
    return {x.args[1] for x in subterms(t) if x.kind == "attr" and is_self(x.args[0])} | {x.args[1] for x in subterms(t) if x.kind == "hv"}


def skeleton(t, d=0):
    if d > 60:
        return "~"
    k = t.kind
    if k == "const":
        return "c"
    if k in ("param", "self"):
        return "p"
    if k == "attr":
        return ("attr", skeleton(t.args[0], d + 1))
    if k in ("bin", "cmp", "un"):
        return (k,) + tuple(skeleton(x, d + 1) for x in t.args[1:])
    if k == "call":
        return ("call", call_name(t), tuple(skeleton(x, d + 1) for x in call_pos(t)), tuple(skeleton(x, d + 1) for x in call_kw(t).values()))
    return (k,) + tuple(skeleton(x, d + 1) if hasattr(x, "kind") else (tuple(skeleton(y, d + 1) if hasattr(y, "kind") else "v" for y in x) if isinstance(x, tuple) else "v") for x in t.args)


def err_of(v, t):
    """error part of the pair returned by jacobians()"""
    if t.kind == "tuple" and len(t.args[0]) == 2:
        return t.args[0][0], t.args[0][1]
    return None, None


def unordered(t):
    """structure of a term up to the order of the operands of + and *"""
    memo = {}

    def go(x):
        if isinstance(x, (tuple, list)):
            return tuple(go(y) for y in x)
        if not hasattr(x, "kind"):
            return repr(x)
        k = id(x)
        if k not in memo:
            if x.kind == "bin" and x.args[0] in ("+", "*"):
                memo[k] = hash((x.kind, x.args[0], frozenset((go(x.args[1]), go(x.args[2])))))
            else:
                memo[k] = hash((x.kind,) + tuple(go(y) for y in x.args))
        return memo[k]
    return go(t)


def under(gs, known):
    return sat([*gs, *known])


# ------------------------------------------------------- attribution of blocks
def sources(v, t, depth=0):
    """set of operands a block differentiates with respect to: attribute names of
    registered variables, or '?' for anything not followed"""
    if depth > 40:
        return {"?"}
    k = t.kind
    if k == "sub" and t.args[0].kind in ("new", "coll") and is_const(t.args[1]) and isinstance(t.args[1].args[0], int):
        call = filled_by(v, t.args[0])
        if call is None:
            return {"?"}
        op = operand(call, t.args[1].args[0])
        return {op} if isinstance(op, str) else {"?"}
    if k == "sub":
        return sources(v, t.args[0], depth + 1)
    if k == "bin":
        if t.args[0] == "@":
            return sources(v, t.args[2], depth + 1)
        return sources(v, t.args[1], depth + 1) | sources(v, t.args[2], depth + 1)
    if k == "un":
        return sources(v, t.args[1], depth + 1)
    if k == "upd":
        return sources(v, t.args[0], depth + 1) | sources(v, t.args[2], depth + 1)
    if k == "phi":
        return sources(v, t.args[1], depth + 1) | sources(v, t.args[2], depth + 1)
    if k == "call":
        if is_call(t, "einsum", "bmm", "cat", "stack", "project"):
            return {"?"}
        if is_call(t, "zeros", "new_zeros", "zeros_like", "eye", "ones", "full"):
            return set()
        if is_call(t, "unsqueeze", "squeeze", "view", "permute", "transpose", "expand", "repeat", "clone", "contiguous", "reshape", "neg"):
            return sources(v, call_recv(t), depth + 1)
        return {"?"} if contains(t, lambda x: x.kind == "new" or x.kind == "coll") else set()
    return set()


def filled_by(v, lst):
    c = [e.term for e in v.events if e.kind == "call" and call_kw(e.term).get("jacobians") is lst]
    c += [e.term for e in v.events if e.kind == "call" and lst in call_pos(e.term) and not is_call(e.term, "len", "zip", "cat", "enumerate", "list", "tuple")]
    return c[0] if c and all(x is c[0] for x in c) else None


def operand(call, k):
    ops = []
    if call_recv(call) is not None and call_recv(call).kind != "module":
        ops.append(call_recv(call))
    ops += [x for x in call_pos(call)]
    kws = [(n, x) for n, x in call_kw(call).items() if n != "jacobians"]
    if len(kws) > 1 and not all(n.startswith("variable") for n, _ in kws):
        return None
    ops += [x for _, x in kws]
    if k < 0 or k >= len(ops):
        return None
    o = ops[k]
    if o.kind == "attr" and o.args[1] == "tensor":
        o = o.args[0]
    if o.kind == "attr" and is_self(o.args[0]):
        return o.args[1]
    return None


# ------------------------------------------------------------- concrete classes
def check_class(a, r, cls):
    n = cls.name
    reg = registered(a, n)
    init = a.p.method(cls, "__init__")
    ve, vj = a.view(n, "error"), a.view(n, "jacobians")
    where = f"{n}.jacobians"
    errs = [(list(core(e.guards)) + list(gs), strip_jac(ve.c(c)), c) for e in tops(ve) for gs, c in cases(e.value)]
    known = set(sum(reg, [])) if reg else None
    for e in tops(vj):
        for gs, c in cases(e.value):
            js, er = err_of(vj, c)
            if js is None:
                if is_call(c, "jacobians", "weighted_jacobians_error"):
                    r.ok("jacobians-return-pair", where)
                else:
                    r.skip("jacobians-return-pair", where, show(c)[:80])
                continue
            gg = list(core(e.guards)) + list(gs)
            r.ok("jacobians-return-pair", where)
            if is_call(er, "error") and call_recv(er) is not None and is_self(call_recv(er)):
                r.ok("same-error", where)
            else:
                for gs2, c2 in cases(er):
                    if not sat(gg + list(gs2)):
                        continue
                    same_error(r, vj, where, e, n, gg + list(gs2), c2, errs, known)
            blocks(r, vj, where, e, n, js, reg)
    # variables used without being registered
    if reg is not None:
        vp = variable_params(init)
        vi = a.view(n, "__init__")
        held = {}
        for s in vi.sets():
            if s.base is not None and is_self(s.base) and s.value is not None:
                t = vi.c(s.value)
                for _, c in cases(t):
                    src = [x.args[0] for x in subterms(c) if x.kind == "param" and x.args[0] in vp]
                    if src and (c.kind == "param" or is_call(c, "as_variable") or (call_name(c) or "").startswith("convert_")):
                        held[s.name] = s
        for v in (ve, vj):
            used = set()
            for x in tops(v):
                used |= self_reads(v.c(x.value))
            for h, s in held.items():
                if h in used:
                    r.check(h in known, "used-variables-registered", f"{n}.{h}", s, f"{h} is read by {v.func.name}() but is not registered")
        for h in known:
            if h not in held:
                st = [s for s in vi.sets(h) if s.base is not None and is_self(s.base)]
                r.check(st, "registered-names-exist", f"{n}.{h}", vi, f"{h} is registered but never stored")
    # nothing registered is written
    for v in (ve, vj):
        for x in v.events:
            b = None
            if x.kind in ("setitem", "aug", "setattr") or x.kind == "mutcall" or x.kind == "call" and x.name and x.base is not None and (
                    x.name.endswith("_") and not x.name.startswith("_") or x.name == "update"):
                b = x.base
            if b is None:
                continue
            if x.kind == "setattr" and x.name != "tensor":
                continue
            if x.kind == "aug" and b.kind not in ("attr", "sub", "hv"):
                continue
            while b.kind in ("sub", "upd") or b.kind == "attr" and not is_self(b.args[0]):
                b = b.args[0]
            nm = b.args[1] if b.kind == "attr" else None
            if nm and (known is None or nm in known) and not nm.startswith("_"):
                if known is None and n == "AutoDiffCostFunction":
                    continue
                r.check(False, "evaluation-does-not-write", f"{n}.{v.func.name}", x, f"changes {nm}")
        r.ok("evaluation-does-not-write", f"{n}.{v.func.name}")
    # buffers sized by one variable although the error depends on several
    ereads = set()
    for _, t, _ in errs:
        ereads |= self_reads(t)
    if known:
        for x in vj.events:
            if x.kind == "setitem" and x.base is not None:
                al = x.base
                while al.kind == "upd" or is_call(al, "zeros_like", "empty_like", "ones_like"):
                    al = al.args[0] if al.kind == "upd" else get_arg(al, 0, "input") or call_recv(al)
                if not is_call(al, "zeros", "new_zeros", "empty", "new_empty", "ones", "full", "repeat"):
                    continue
                d = [y for y in list(call_pos(al)) + list(call_kw(al).values()) if y.kind != "const" or isinstance(y.args[0], int)]
                if not d:
                    continue
                d0 = d[0]
                if d0.kind in ("tuple", "list") and d0.args[0]:
                    d0 = d0.args[0][0]
                if contains(d0, lambda y: y.kind == "attr" and y.args[1] in ("optim_vars", "aux_vars")):
                    r.ok("buffer-fits-every-variable", where)
                    continue
                have = self_reads(d0) & known
                need = (self_reads(vj.c(x.value)) | self_reads(vj.c(x.index)))
                for y in subterms(x.value):
                    if y.kind == "sub" and y.args[0].kind in ("new", "coll") and is_const(y.args[1]):
                        fc = filled_by(vj, y.args[0])
                        need |= self_reads(fc) if fc is not None else set()
                need &= known
                if have and d0.kind == "sub":
                    r.check(need <= have or need & ereads <= have, "buffer-fits-every-variable", where, x,
                            f"a buffer with the batch size of {sorted(have)} receives values made from {sorted(need - have)}")
    # dim
    vd = a.view(n, "dim")
    for e in tops(vd):
        t = vd.c(e.value)
        bad = [x for x in subterms(t) if x.kind == "attr" and x.args[1] == "tensor"]
        ok = all(contains(t, lambda y: y.kind == "attr" and y.args[1] in ("shape", "ndim") and y.args[0] is x) for x in bad)
        r.check(ok and not is_const(t, None), "dim-independent-of-values", f"{n}.dim", e, f"dim() is {show(t)[:60]}")
        for m in (x for x in subterms(t) if is_call(x, "size") or x.kind == "attr" and x.args[1] == "shape"):
            if contains(t, lambda y: y.kind == "sub" and y.args[0] is m and is_const(y.args[1], 0)):
                r.check(False, "dim-independent-of-values", f"{n}.dim", e, "dim() is a batch size")
    # memoised results
    memo(a, r, n, ve)
    memo(a, r, n, vj)


def tops(v):
    """returns of the function itself"""
    return v.returns()


def same_error(r, v, where, e, n, gg, er, errs, known):
    t = strip_jac(v.c(er))
    comp = [(g, x) for g, x, _ in errs if under(g, gg)]
    if not comp:
        r.skip("same-error", where, "no comparable case")
        return
    if any(x is t or unordered(x) == unordered(t) for _, x in comp):
        r.ok("same-error", where)
        return
    g, x = comp[0]
    if len(comp) == 1:
        rd, rj = self_reads(x), self_reads(t)
        if known:
            rd, rj = rd & known, rj & known
            if rd != rj and not opaque_self(x) and not opaque_self(t):
                r.check(False, "same-error", where, e, f"error() reads {sorted(rd)} and jacobians() returns an error made from {sorted(rj)}")
                return
        if skeleton(x) == skeleton(t):
            r.check(False, "same-error", where, e, f"returns the error {show(t)[:100]} where error() returns {show(x)[:100]}")
            return
    r.skip("same-error", where, show(t)[:100])


def opaque_self(t):
    return contains(t, lambda x: x.kind == "call" and call_recv(x) is not None and is_self(call_recv(x)))


def blocks(r, v, where, e, n, js, reg):
    for gs, c in cases(js):
        cc = v.c(c)
        es = entries(cc)
        if es is None and c.kind in ("tuple", "list"):
            es = None
            vals = list(c.args[0])
        elif es is not None:
            vals = [x.value for x in es] if all(not x.loops for x in es) else None
            if vals is None:
                ok = len(es) == 1 and contains(es[0].loops[-1], lambda x: x.kind == "attr" and x.args[1] == "optim_vars" or mentions_call(x, "jacobians"))
                r.check(not core(es[0].guards), "one-block-per-variable", where, e, "blocks are left out")
                if ok:
                    r.ok("one-block-per-variable", where)
                else:
                    r.skip("one-block-per-variable", where, show(cc)[:80])
                continue
            if any(core(x.guards) for x in es):
                r.skip("one-block-per-variable", where, "conditional blocks")
                continue
        else:
            r.skip("one-block-per-variable", where, show(c)[:80])
            continue
        if reg is None:
            continue
        opt = reg[0]
        r.check(len(vals) == len(opt), "one-block-per-variable", where, e, f"{len(vals)} blocks for {len(opt)} optimization variables {opt}")
        if len(vals) != len(opt):
            continue
        raw = raw_items(v, c) or vals
        for i, b in enumerate(raw if len(raw) == len(vals) else vals):
            s = sources(v, b)
            if len(s) == 1 and "?" not in s:
                nm = next(iter(s))
                if nm in opt or nm in reg[1]:
                    r.check(nm == opt[i], "blocks-in-registration-order", where, e, f"block {i} is the derivative for {nm}, variable {i} is {opt[i]}")


def raw_items(v, c):
    """items of a list literal with their original (uncanonicalised) terms"""
    if c.kind in ("tuple", "list"):
        return list(c.args[0])
    if c.kind == "new":
        items = v.e.new_items(c) if hasattr(v.e, "new_items") else None
        return items
    return None


def memo(a, r, n, v):
    """a result kept on the object is only reused when everything it was made from is the same"""
    for s in v.sets():
        if s.base is None or not is_self(s.base) or s.value is None or not s.name.startswith("_"):
            continue
        fresh = v.c(s.value)
        deps = {(x.args[0].args[1], x.args[1]) for x in subterms(fresh) if x.kind == "attr" and x.args[1] in ("shape", "dtype", "device") and x.args[0].kind == "attr" and is_self(x.args[0].args[0])}
        vals = {x.args[0].args[1] for x in subterms(fresh) if x.kind == "attr" and x.args[1] == "tensor" and x.args[0].kind == "attr" and is_self(x.args[0].args[0])
                and not contains(fresh, lambda y: y.kind == "attr" and y.args[1] in ("shape", "dtype", "device") and y.args[0] is x)}
        # guards under which the kept value is not recomputed
        if not core(s.guards):
            continue
        g = core(s.guards)
        atoms = set()
        for gg, _ in g:
            for x in subterms(gg):
                if x.kind == "cmp":
                    atoms.add(x)
        if not any(contains(x, lambda y: y.kind == "attr" and is_self(y.args[0]) and y.args[1] == s.name or y.kind == "hv" and y.args[1] == s.name) for x in atoms):
            continue
        r.check(not vals, "memo-valid", f"{n}.{s.name}", s, f"a value computed from {sorted(vals)} is kept")
        for var, prop in sorted(deps):
            ok = any(contains(x, lambda y: y.kind == "attr" and y.args[1] == prop and y.args[0].kind == "attr" and y.args[0].args[1] == var) for x in atoms)
            r.check(ok, "memo-valid", f"{n}.{s.name}/{prop}", s, f"the kept value is reused for another {prop} of {var}")


# ------------------------------------------------------------ weighted forms
def check_weighted(a, r):
    v = a.view("CostFunction", "weighted_error")
    where = "CostFunction.weighted_error"
    for e in v.returns():
        t = v.c(e.value)
        if not is_call(t, "weight_error"):
            r.check(not is_call(t, "error"), "weighted-error", where, e, "the error is not weighted")
            continue
        x = get_arg(t, 0, "error")
        r.check(own_weight(call_recv(t)) and x is not None and is_call(x, "error") and is_self(call_recv(x)), "weighted-error", where, e, f"returns {show(t)[:80]}")
    v = a.view("CostFunction", "weighted_jacobians_error")
    where = "CostFunction.weighted_jacobians_error"
    for e in v.returns():
        t = v.c(e.value)
        if not is_call(t, "weight_jacobians_and_error"):
            r.check(not is_call(t, "jacobians"), "weighted-jacobians", where, e, "the jacobians are not weighted")
            continue
        r.check(own_weight(call_recv(t)), "weighted-jacobians", where, e, "another weight is applied")
        j, er = get_arg(t, 0, "jacobians"), get_arg(t, 1, "error")
        for k, x in ((0, j), (1, er)):
            for gs, c in cases(x) if x is not None else []:
                if c.kind in ("undef", "unbound") or is_const(c, None):
                    continue
                src = c.args[0] if c.kind == "sub" else None
                ok = c.kind == "sub" and is_const(c.args[1], k) and (is_call(src, "jacobians") or masked(src))
                if c.kind == "sub" and not is_const(c.args[1], k) and (is_call(src, "jacobians") or masked(src)):
                    r.check(False, "weighted-jacobians", where, e, "error and jacobians are swapped")
                elif not ok:
                    r.skip("weighted-jacobians", where, show(c)[:80])
                else:
                    r.ok("weighted-jacobians", where)
    ms = [e for e in v.events if e.kind == "call" and masked(e.term)]
    for e in ms:
        m = get_arg(e.term, 1, "mask")
        m = v.c(m) if m is not None else None
        neg = m is not None and (m.kind == "un" and m.args[0] in ("~", "not") or is_call(m, "logical_not") or m.kind == "bin" and m.args[0] == "^")
        z = m is not None and mentions_call(m, "is_zero")
        r.check(z and neg, "mask-selects-nonzero-weights", where, e, f"evaluates only where {show(m)[:60]}")
        gs = [g for g, p in e.guards if p and (mentions_attr(g, "__supports_masking__") or mentions_attr(g, "_CostFunction__supports_masking__") or mentions_attr(g, "_supports_masking"))]
        r.check(gs, "masking-only-when-supported", where, e, "masked evaluation is used although the variables are not expanded")
        c = [g for g, p in core(e.guards) if contains(g, lambda x: is_call(x, "numel", "size", "len") or x.kind == "attr" and x.args[1] == "shape")]
        r.check(c, "mask-has-batch", where, e, "a mask of one element is used for a whole batch")
    fn = next((f for f in a.p.all_functions() if f.name == "masked_jacobians"), None)
    if fn is not None and ms:
        check_masked(a, r, fn)


def own_weight(t):
    return t is not None and t.kind == "attr" and t.args[1] in ("weight", "_weight") and is_self(t.args[0])


def masked(t):
    return t is not None and is_call(t, "masked_jacobians")


def check_masked(a, r, fn):
    v = a.view_of(fn)
    where = fn.name
    ctx = [e for e in v.events if e.kind == "with"]
    mk = [e for e in v.events if e.kind == "call" and is_call(e.term, "masked_variables")]
    for e in mk:
        vs = v.c(get_arg(e.term, 0, "vars") or NONE)
        r.check(mentions_attr(vs, "optim_vars") and mentions_attr(vs, "aux_vars"), "masked-variables-complete", where, e, "not every variable is masked")
        r.check(p_param(get_arg(e.term, 1, "mask") or NONE, "mask"), "masked-scatter", where, e, "variables are masked by something else")
    ev = [e for e in v.events if e.kind == "call" and is_call(e.term, "jacobians")]
    r.check(ev and all(e.ctxs for e in ev), "masked-variables-complete", where, ev[0] if ev else v, "evaluated on the unmasked variables")
    st = [e for e in v.setitems() if e.value is not None and mentions_call(e.value, "jacobians")]
    kinds = set()
    for e in st:
        r.check(p_param(e.index, "mask"), "masked-scatter", where, e, f"results are written to {show(e.index)[:60]}")
        kinds.add("J" if e.loops else "E")
        b = e.base
        while b.kind == "upd":
            b = b.args[0]
        if b.kind == "call":
            r.check(is_call(b, "new_zeros", "zeros", "zeros_like"), "masked-zero-elsewhere", where, e, "masked out elements are not zero")
        if e.loops:
            pair = e.loops[-1][1]
            r.check(e.value.kind == "elem", "masked-scatter", where + "/blocks", e, "blocks are written to the wrong place")
    if st:
        r.check(kinds == {"J", "E"}, "masked-scatter", where + "/both", v, "error or jacobians are not written")
    for e in v.events:
        if e.kind == "call" and is_call(e.term, "new_zeros", "zeros"):
            d = list(call_pos(e.term))
            if len(d) >= 2:
                r.check(is_call(d[1], "dim"), "masked-shape", where, e, f"rows {show(d[1])[:40]}")
            if len(d) == 3:
                r.check(is_call(d[2], "dof") and call_recv(d[2]).kind == "elem" and mentions_attr(d[2], "optim_vars"), "masked-shape", where, e, f"columns {show(d[2])[:40]}")
    # the context manager restores what it found
    cls = next((c for c in a.p.all_classes() if c.name == "masked_variables"), None)
    if cls is None:
        return
    i = a.view(cls, "__init__")
    x = a.view(cls, "__exit__")
    saved = None
    for s in i.sets():
        es = entries(i.c(s.value)) if s.value is not None else None
        if es and es[0].loops and es[0].value.kind == "attr" and es[0].value.args[1] == "tensor":
            saved = s.name
        elif es and es[0].loops and contains(es[0].value, lambda y: y.kind == "attr" and y.args[1] == "tensor"):
            saved = s.name
    if saved is None:
        r.skip("mask-restored", "masked_variables", "saved tensors not found")
        return
    back = [e for e in x.events if e.kind == "call" and is_call(e.term, "update") or e.kind == "setattr" and e.name == "tensor"]
    r.check(back, "mask-restored", "masked_variables.__exit__", x, "the variables keep the masked tensors")
    for e in back:
        t = get_arg(e.term, 0, "data") if e.kind == "call" else e.value
        t = t if t is not None else (call_pos(e.term) or list(call_kw(e.term).values()))[0]
        r.check(mentions_attr(t, saved) or contains(t, lambda y: y.kind == "hv" and y.args[1] == saved), "mask-restored", "masked_variables.__exit__", e, f"restores {show(t)[:60]}")
        r.check(e.loops and not core(e.guards), "mask-restored", "masked_variables.__exit__/all", e, "some variables are not restored")
    en = a.view(cls, "__enter__")
    for e in en.events:
        if e.kind == "call" and is_call(e.term, "update") or e.kind == "setattr" and e.name == "tensor":
            t = get_arg(e.term, 0, "data") if e.kind == "call" else e.value
            t = t if t is not None else (call_pos(e.term) or list(call_kw(e.term).values()))[0]
            if t.kind == "sub":
                r.check(mentions_attr(t.args[1], "_mask"), "masked-scatter", "masked_variables.__enter__", e, f"selects {show(t.args[1])[:60]}")
                r.check(mentions_attr(t.args[0], saved), "masked-scatter", "masked_variables.__enter__/source", e, "a variable listed twice is masked twice")


# ---------------------------------------------------------------- autodiff
def check_autodiff(a, r):
    n = "AutoDiffCostFunction"
    if n not in {c.name for c in a.p.all_classes()}:
        return
    cls = a.p.cls(n)
    v = a.view(n, "jacobians")
    where = f"{n}.jacobians"
    errc = [e for e in v.events if e.kind == "call" and is_call(e.term, "_err_fn")]
    for vv, m in ((a.view(n, "error"), "error"), (v, "jacobians")):
        for e in vv.events:
            if e.kind == "call" and is_call(e.term, "_err_fn"):
                for k in ("optim_vars", "aux_vars"):
                    t = get_arg(e.term, 0 if k == "optim_vars" else 1, k)
                    t = vv.c(t) if t is not None else NONE
                    r.check(contains(t, lambda x: x.kind == "attr" and x.args[1] == k and is_self(x.args[0])), "error-function-arguments", f"{n}.{m}/{k}", e,
                            f"the error function gets {show(t)[:60]} as {k}")
        r.check(any(e.kind == "raise" and any(mentions_call(g, "dim") for g, _ in e.guards) for e in vv.events), "declared-dimension-checked", f"{n}.{m}", vv,
                "an error of another dimension is accepted")
    VMAP = [x for e in v.events for g, _ in e.guards for x in subterms(g) if x.kind == "cmp" and contains(x, lambda y: y.kind == "attr" and y.args[1] == "VMAP")]
    # every mode evaluates at the current tensors of all optimization variables
    calls = [e for e in v.events if e.kind == "call" and (is_call(e.term, "jacobian") or is_vmap(e.term))]
    r.check(len(calls) >= 1, "autograd-modes", where, v, "no derivative is computed")
    for e in calls:
        vm = is_vmap(e.term)
        pos = [x for x in call_pos(e.term)]
        ots = pos[0] if vm else (pos[1] if len(pos) > 1 else call_kw(e.term).get("inputs"))
        t = v.c(ots) if ots is not None else NONE
        r.check(mentions_attr(t, "optim_vars"), "differentiates-optimization-variables", where, e, f"differentiates {show(t)[:60]}")
        if vm:
            t2 = v.c(pos[1]) if len(pos) > 1 else NONE
            r.check(mentions_attr(t2, "aux_vars"), "differentiates-optimization-variables", where + "/aux", e, f"auxiliary tensors are {show(t2)[:60]}")
            inner = e.term.args[0]
            jr = next((x for x in subterms(inner) if is_call(x, "jacrev", "jacfwd")), None)
            if jr is not None:
                an = get_arg(jr, 1, "argnums")
                r.check(an is None or is_const(an, 0), "differentiates-optimization-variables", where + "/argnums", e, "another argument is differentiated")
            for x in (t, t2):
                es = [y for y in subterms(x) if is_call(y, "expand", "repeat", "expand_as")]
                r.check(es, "vmap-expands-all", where, e, "tensors of batch size one are not expanded")
            for nm in ("_tmp_optim_vars", "_tmp_aux_vars"):
                r.check(any(mentions_attr(c, nm) for c in e.ctxs if hasattr(c, "kind")), "temporaries-restored", f"{where}/{nm}", e, f"{nm} keep tensors of the vmap call")
    # per element evaluation
    for e in v.events:
        if e.kind == "call" and is_call(e.term, "update") and e.loops and mentions_attr(call_recv(e.term) or NONE, "_tmp_aux_vars_for_loop"):
            rc = call_recv(e.term)
            t = (call_pos(e.term) or list(call_kw(e.term).values()))[0]
            el = [x for x in subterms(t) if x.kind == "elem" and mentions_attr(x, "aux_vars")]
            r.check(el and rc.kind == "sub" and rc.args[1].kind == "idx", "loop-updates-aux", where, e, f"{show(rc)[:40]} gets {show(t)[:60]}")
            r.check(len(e.loops) >= 2, "loop-updates-aux", where + "/batch", e, "auxiliary variables are not updated for every batch element")
            for gs, c in cases(t):
                if c.kind == "sub":
                    r.check(contains(c.args[1], lambda x: x.kind == "idx" and mentions_call(x, "range")) , "loop-element", where, e, f"uses element {show(c.args[1])[:60]}")
    rng = [l[1] for e in v.events for l in e.loops if is_call(l[1], "range") and mentions_call(l[1], "max")]
    for t in rng[:1]:
        tt = v.c(t)
        r.check(mentions_attr(tt, "optim_vars") and mentions_attr(tt, "aux_vars"), "loop-covers-batch", where, v, "the batch size ignores some variables")
    # results
    for e in tops(v):
        js, er = err_of(v, e.value)
        if js is None:
            continue
        es = entries(v.c(js))
        for x in es or []:
            if not is_call(x.value, "project"):
                r.check(False, "projected-to-tangent", where, e, "euclidean derivatives are returned unprojected")
                continue
            rc = call_recv(x.value)
            g = get_arg(x.value, 0, "euclidean_grad")
            r.check(rc.kind == "elem" and mentions_attr(rc, "optim_vars") and g is not None and g.kind == "elem", "projected-to-tangent", where, e, "derivatives are projected by another variable")
            sp = get_arg(x.value, 1, "is_sparse")
            r.check(sp is not None and is_const(sp, True), "projected-to-tangent", where + "/sparse", e, "per element derivatives are projected as dense ones")
            for gs, c in cases(g.args[0] if g is not None and g.kind == "elem" else NONE):
                for y in entries(c.args[0] if c.kind == "tuple1" else c) or entries_of_tuple(c):
                    s = y.value
                    if s.kind == "sub" and s.args[1].kind == "tuple" and len(s.args[1].args[0]) == 4:
                        ix = s.args[1].args[0]
                        if not full_slice(ix[0]) and not full_slice(ix[2]):
                            r.check(ix[0] is ix[2] and full_slice(ix[1]) and full_slice(ix[3]), "own-batch-element", where, e, f"selects {show(s.args[1])[:60]}")
                    if is_call(s, "cat"):
                        d = get_arg(s, 1, "dim")
                        r.check(d is None or is_const(d, 0), "own-batch-element", where + "/cat", e, "elements are joined along another dimension")
    # the functions handed to autograd
    for w in nested_views(a, cls, lambda nd: "_err_fn" in ast.unparse(nd) and ".update(" in ast.unparse(nd)):
        ups = [e for e in w.events if e.kind == "call" and is_call(e.term, "update")]
        two = sum(1 for p in w.func.params) >= 2
        seen = set()
        for e in ups:
            rc = call_recv(e.term)
            t = (call_pos(e.term) or list(call_kw(e.term).values()))[0]
            ok = e.loops and (rc.kind == "sub" and rc.args[1].kind == "idx" or rc.kind == "elem") and contains(t, lambda x: x.kind == "elem")
            r.check(ok and not [g for g, _ in core(e.guards) if contains(g, lambda x: x.kind in ("idx", "elem"))], "function-sets-every-variable", w.func.qual, e, f"{show(rc)[:40]} gets {show(t)[:60]}")
            seen.add("aux" if "aux" in show(rc) else "optim")
            if "aux" in show(rc) or "optim" in show(rc):
                same = ("aux" in show(rc)) == ("aux" in show(t))
                r.check(same, "function-sets-every-variable", w.func.qual + "/kind", e, f"{show(rc)[:40]} gets {show(t)[:60]}")
        r.check(seen >= ({"aux", "optim"} if two else {"optim"}), "function-sets-every-variable", w.func.qual + "/all", w, f"only {sorted(seen)} variables are set")
        for e in w.events:
            if e.kind == "call" and is_call(e.term, "_err_fn"):
                for k in ("optim_vars", "aux_vars"):
                    t = get_arg(e.term, 0, k)
                    if t is not None:
                        r.check(k.split("_")[0] in show(t), "error-function-arguments", f"{w.func.qual}/{k}", e, f"the error function gets {show(t)[:60]} as {k}")
                r.check(all(u.seq < e.seq for u in ups), "function-sets-every-variable", w.func.qual + "/order", e, "evaluated before the variables are set")


def entries_of_tuple(c):
    if c.kind == "call" and is_call(c, "tuple", "list") and call_pos(c):
        return entries(call_pos(c)[0]) or []
    return []


def is_vmap(t):
    return t is not None and t.kind == "call" and t.args[0].kind == "call" and is_call(t.args[0], "vmap")


def check_register(a, r):
    """registration keeps order and roles"""
    for m, attr_, other in (("register_optim_var", "_optim_vars_attr_names", "_aux_vars_attr_names"), ("register_aux_var", "_aux_vars_attr_names", "_optim_vars_attr_names")):
        v = a.view("TheseusFunction", m)
        where = f"TheseusFunction.{m}"
        ap = [e for e in v.events if e.kind in ("call", "mutcall") and e.name == "append" and e.base is not None and mentions_attr(e.base, attr_)]
        wrong = [e for e in v.events if e.kind in ("call", "mutcall") and e.name in ("append", "insert") and e.base is not None and mentions_attr(e.base, other)]
        r.check(ap and not wrong, "registered-in-own-role", where, v, f"{m} does not add to {attr_}")
        for e in ap:
            for nm in (attr_, other):
                ok = any(contains(g, lambda x: x.kind == "cmp" and x.args[0] in ("in", "not in") and mentions_attr(x.args[2], nm)) for g, _ in e.guards)
                r.check(ok, "registered-once", f"{where}/{nm}", e, f"a name already in {nm} is registered again")
    for m, attr_ in (("optim_vars", "_optim_vars_attr_names"), ("aux_vars", "_aux_vars_attr_names"), ("optim_var_at", "_optim_vars_attr_names"), ("aux_var_at", "_aux_vars_attr_names"),
                     ("num_optim_vars", "_optim_vars_attr_names"), ("num_aux_vars", "_aux_vars_attr_names")):
        v = a.view("TheseusFunction", m)
        for e in v.returns():
            t = v.c(e.value)
            names = {x.args[1] for x in subterms(t) if x.kind == "attr" and x.args[1].endswith("_attr_names")}
            r.check(names == {attr_}, "query-reads-own-role", f"TheseusFunction.{m}", e, f"reads {sorted(names)}")
            r.check(not contains(t, lambda x: is_call(x, "reversed", "sorted", "set")), "query-reads-own-role", f"TheseusFunction.{m}/order", e, "registration order is lost")
    for m in ("set_optim_var_at", "set_aux_var_at"):
        v = a.view("TheseusFunction", m)
        for e in v.events:
            if e.kind == "call" and is_call(e.term, "setattr"):
                ps = call_pos(e.term)
                want = "_optim_vars_attr_names" if "optim" in m else "_aux_vars_attr_names"
                if len(ps) == 3:
                    r.check(ps[1].kind == "sub" and mentions_attr(ps[1].args[0], want) and p_param(ps[1].args[1], "index") and p_param(ps[2], "variable"), "replaces-the-named-variable", f"TheseusFunction.{m}", e,
                            f"sets {show(ps[1])[:60]} to {show(ps[2])[:40]}")
    v = a.view("TheseusFunction", "register_vars")
    for e in v.events:
        if e.kind == "call" and is_call(e.term, "setattr"):
            ps = call_pos(e.term)
            r.check(len(ps) == 3 and ps[1].kind == "attr" and ps[1].args[1] == "name" and ps[1].args[0] is ps[2] and ps[2].kind == "elem", "registered-under-its-name", "TheseusFunction.register_vars", e, f"stored as {show(ps[1])[:40]}")
            r.check(any(mentions_call(g, "hasattr") for g, _ in e.guards), "registered-under-its-name", "TheseusFunction.register_vars/clash", e, "a variable replaces an attribute of the same name")


def check(a, r):
    base = a.p.cls("CostFunction")
    for cls in sorted(a.p.subclasses(base, strict=True), key=lambda c: c.name):
        if a.p.is_abstract(cls) or any(b.name in DELEGATING for b in a.p.mro(cls)) or "examples" in cls.qual:
            continue
        check_class(a, r, cls)
    check_weighted(a, r)
    check_autodiff(a, r)
    check_register(a, r)
