"""Comparison of analytic jacobians with the derivative of the value, on normal forms."""
from .algebra import NotAlgebraic, add, mul
from . import geom as g
from . import normal as nf
from . import tensor as tn
from .comp import Malformed, Unknown
from .interp import Raised
from .cases import ten_of

TOL = 1e-7


class Wrong(Exception):
    pass


def entries(t):
    return t.arr().data


def shapes(F, Js, ins, dofs):
    """the jacobian list: one block (batch, outputs, tangent) per operand"""
    if not isinstance(Js, (list, tuple)):
        raise Wrong(f"jacobians are {type(Js).__name__}")
    if len(Js) != len(ins):
        raise Wrong(f"{len(Js)} jacobians for {len(ins)} operands")
    for n, J in zip(ins, Js):
        if not isinstance(J, tn.Ten):
            raise Wrong(f"jacobian for {n} is {type(J).__name__}")
        if len(J.shape) != 3 or J.shape[0] not in (1, F.shape[0]) or J.shape[2] != dofs[n]:
            raise Wrong(f"jacobian for {n} has shape {tuple(J.shape)}, tangent dimension {dofs[n]}, batch {F.shape[0]}")


def residuals(operands, F, Js, ins, outspace):
    """(output element, operand, direction, residual form)"""
    f = entries(F)
    for n, J in zip(ins, Js):
        sp, t, _ = operands[n]
        j = entries(J)
        nb = t.shape[0]
        for b in range(F.shape[0]):
            ib = b if nb > 1 else 0
            jb = b if J.shape[0] > 1 else 0
            fb = {i: v for i, v in f.items() if i[0] == b}
            for c in range(sp.dof):
                base = sp.derivation(n, ib, c)
                df = {i: nf.derive(v, base) for i, v in fb.items()}
                if outspace is None or outspace.kind == "vec":
                    if len(F.shape) != 2 or J.shape[1] != F.shape[1]:
                        raise Wrong(f"jacobian for {n} has {J.shape[1]} rows for a value of shape {tuple(F.shape)}")
                    for (_, r), d in df.items():
                        yield b, n, c, r, add(d, j[jb, r, c], -1)
                else:
                    if J.shape[1] != outspace.dof:
                        raise Wrong(f"jacobian for {n} has {J.shape[1]} rows for {outspace.dof} tangent components")
                    for r, (d, co) in enumerate(outspace.velocity(f, df, b)):
                        q = dict(d)
                        for m, cf in enumerate(co):
                            q = add(q, mul(cf, j[jb, m, c]), -1)
                        yield b, n, c, r, q


def vanish(forms, points, tol=TOL):
    """first form that does not vanish at one of the points: (tag, value)"""
    for tag, q in forms:
        for w in points:
            ok, v = g.close(q, w, tol)
            if not ok:
                return tag, v
    return None


def same(F, G, points, tol=TOL):
    """two tensors agree at the points"""
    if tuple(F.shape) != tuple(G.shape):
        return f"shape {tuple(F.shape)} instead of {tuple(G.shape)}"
    f, h = entries(F), entries(G)
    bad = vanish(((i, add(tn.poly(f[i]), tn.poly(h[i]), -1)) for i in f), points, tol)
    return None if bad is None else f"entry {bad[0]} differs by {bad[1]:.2g}"


def attempt(r, rule, construct, loc, fn):
    """run fn; what the interpreter cannot represent leaves the obligation undecided,
    an exception raised by the code or operands that do not fit violate it"""
    try:
        fn()
    except Wrong as e:
        r.check(False, rule, construct, loc, str(e))
    except Malformed as e:
        r.check(False, rule, construct, loc, f"operands do not fit: {e}"[:200])
    except Raised as e:
        if e.name in ("TypeError", "AttributeError", "NameError", "StopIteration", "IndexError"):
            return r.skip(rule, construct, f"raises {e}"[:160])
        r.check(False, rule, construct, loc, f"raises {e}"[:200])
    except (Unknown, NotAlgebraic) as e:
        r.skip(rule, construct, f"{type(e).__name__}: {e}"[:160])
    except (RecursionError, ZeroDivisionError, OverflowError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        r.skip(rule, construct, f"interpreter {type(e).__name__}: {e} (line {tb.tb_lineno} of {tb.tb_frame.f_code.co_filename[-20:]})"[:200])
    else:
        r.ok(rule, construct, loc)


__all__ = ["Wrong", "shapes", "residuals", "vanish", "same", "attempt", "entries", "ten_of", "TOL"]
