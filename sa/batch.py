"""Normal forms of per-batch expressions: vectors (one per batch element) and
scalars (one per batch element); sums over the last dimension become dot atoms,
matrix-vector products are linear."""
from .algebra import NotAlgebraic, add, alg, atom, freeze, mul, num, power
from .rules import call_kw, call_name, call_pos, call_recv, is_call, is_const

SHAPES = ("view", "reshape", "squeeze", "unsqueeze", "expand", "expand_as", "repeat", "to", "flatten", "type_as", "float", "double", "detach", "contiguous")


def vec(name):
    return atom(("v", name))


def sca(name):
    return atom(("s", name))


def is_vec(key):
    if key[0] == "v":
        return True
    if key[0] in ("sum", "exp", "log"):
        return any(is_vec(k) for m, _ in key[1] for k, _ in m)
    return False


def has_unknown(key):
    if key[0] == "t":
        return True
    if key[0] in ("sum", "exp", "log"):
        return any(has_unknown(k) for m, _ in key[1] for k, _ in m)
    return False


def linear(p, f):
    """apply f to the vector part of every monomial"""
    out = {}
    for m, c in p.items():
        s, v = [], []
        for k, e in m:
            if has_unknown(k):
                raise NotAlgebraic("unknown operand of a sum")
            (v if is_vec(k) else s).append((k, e))
        out = add(out, mul({tuple(s): c}, f(tuple(v))))
    return out


def total(p):
    return linear(p, lambda v: atom(("dot", v)) if v else atom(("width",)))


def matvec(p):
    return linear(p, lambda v: atom(("v", ("A", v))) if v else NOVEC())


def NOVEC():
    raise NotAlgebraic("matrix times a scalar")


def scaled_diag(p):
    """diagonal scaling: elementwise product with the diagonal"""
    return mul(p, vec("D"))


def over_last(t):
    kw = call_kw(t)
    d = kw.get("dim", kw.get("axis"))
    if d is None:
        d = next(iter(call_pos(t)[(0 if call_recv(t) is not None and call_recv(t).kind != "module" else 1):]), None)
    if d is None:
        return False
    if d.kind in ("tuple", "list"):
        return len(d.args[0]) == 1 and is_const(d.args[0][0]) and d.args[0][0].args[0] in (1, -1)
    return is_const(d) and d.args[0] in (1, -1)


class BatchForms:
    def __init__(self, leaf):
        self.user = leaf

    def alg(self, t):
        return alg(t, self.leaf, SHAPES)

    def leaf(self, t):
        x = self.user(t, self)
        if x is not None:
            return x
        if t.kind == "attr" and "EPS" in str(t.args[1]).upper():
            return {}
        if t.kind == "param" and "eps" in str(t.args[1]).lower():
            return {}
        if t.kind == "sub":
            from checks.C13 import shape_index
            if shape_index(t.args[1]):
                return self.alg(t.args[0])
        if is_call(t, "sum"):
            rc = call_recv(t)
            if rc is None or rc.kind == "module":
                rc = call_pos(t)[0] if call_pos(t) else None
            if rc is not None and over_last(t):
                return total(self.alg(rc))
            if rc is not None and not any(has_unknown(k) for m in self.alg(rc) for k, _ in m):
                return atom(("other", t.uid))
        if is_call(t, "mean", "prod", "max", "min", "amax", "amin", "cumsum") and call_recv(t) is not None and call_recv(t).kind != "module" and not over_last(t):
            rc = call_recv(t)
            if not any(has_unknown(k) for m in self.alg(rc) for k, _ in m):
                return atom(("other", t.uid))
        if is_call(t, "norm", "vector_norm"):
            rc = call_recv(t)
            if rc is None or rc.kind == "module":
                rc = call_pos(t)[0] if call_pos(t) else None
            if rc is not None and over_last(t):
                p = self.alg(rc)
                return power(total(mul(p, p)), "1/2")
        if t.kind == "bin" and t.args[0] == "@":
            a, b = self.alg(t.args[1]), self.alg(t.args[2])
            return total(mul(a, b))
        if is_call(t, "sqrt"):
            rc = call_recv(t)
            if rc is None or rc.kind == "module":
                rc = call_pos(t)[0]
            return power(self.alg(rc), "1/2")
        if is_call(t, "ones", "ones_like"):
            return num(1)
        return None
