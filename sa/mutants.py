"""AST mutants of a function (development tool and sensitivity self-test)."""
import ast
import copy

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
SWAP = {"optim_vars": "aux_vars", "aux_vars": "optim_vars", "any": "all", "all": "any", "min": "max", "max": "min",
        "True": "False"}


def is_doc(st):
    return isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)


def mutants_of(fn):
    """Yields (description, lineno, new FunctionDef)."""
    base = fn
    nodes = [n for n in ast.walk(base)]
    idx = {id(n): i for i, n in enumerate(nodes)}

    def clone():
        c = copy.deepcopy(base)
        return c, list(ast.walk(c))

    out = []
    for i, n in enumerate(nodes):
        for field in ("body", "orelse", "finalbody"):
            blk = getattr(n, field, None)
            if not isinstance(blk, list):
                continue
            for j, st in enumerate(blk):
                if not isinstance(st, ast.stmt) or is_doc(st) or isinstance(st, (ast.FunctionDef, ast.Pass, ast.Import, ast.ImportFrom)):
                    continue
                c, ns = clone()
                b2 = getattr(ns[i], field)
                if len(b2) == 1:
                    b2[j] = ast.Pass()
                else:
                    del b2[j]
                out.append((f"delete: {ast.unparse(st)[:70]!r}", st.lineno, c))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) :
            c, ns = clone()
            ns[i].test = ast.UnaryOp(op=ast.Not(), operand=ns[i].test)
            out.append((f"negate: {ast.unparse(n.test)[:60]}", n.lineno, c))
        if isinstance(n, ast.If):
            c, ns = clone()
            ns[i].test = ast.Constant(value=True)
            out.append((f"if-true: {ast.unparse(n.test)[:60]}", n.lineno, c))
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            c, ns = clone()
            ns[i].ops[0] = CMP[type(n.ops[0])]()
            out.append((f"cmp: {ast.unparse(n)[:60]}", n.lineno, c))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            c, ns = clone()
            ns[i].op = BIN[type(n.op)]()
            out.append((f"binop: {ast.unparse(n)[:60]}", n.lineno, c))
        if isinstance(n, ast.BoolOp):
            c, ns = clone()
            ns[i].op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            out.append((f"boolop: {ast.unparse(n)[:60]}", n.lineno, c))
            for k in range(len(n.values)):
                c, ns = clone()
                del ns[i].values[k]
                out.append((f"boolop-drop{k}: {ast.unparse(n)[:60]}", n.lineno, c))
        if isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                c, ns = clone()
                del ns[i].keywords[k]
                out.append((f"drop-kw {kw.arg}: {ast.unparse(n)[:60]}", n.lineno, c))
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
                c, ns = clone()
                a = ns[i].args
                a[0], a[1] = a[1], a[0]
                out.append((f"swap-args: {ast.unparse(n)[:60]}", n.lineno, c))
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "copy", "detach", "abs", "to", "expand", "sqrt", "float", "any", "all", "transpose", "unsqueeze", "view"):
                c, ns = clone()
                par = None
                for q in ns:
                    for f2, v2 in ast.iter_fields(q):
                        if v2 is ns[i]:
                            setattr(q, f2, ns[i].func.value)
                            par = True
                        elif isinstance(v2, list):
                            for z, y in enumerate(v2):
                                if y is ns[i]:
                                    v2[z] = ns[i].func.value
                                    par = True
                if par:
                    out.append((f"unwrap {n.func.attr}: {ast.unparse(n)[:60]}", n.lineno, c))
        if isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.ctx, ast.Load):
            c, ns = clone()
            ns[i].attr = SWAP[n.attr]
            out.append((f"attr {n.attr}->{SWAP[n.attr]}: {ast.unparse(n)[:60]}", n.lineno, c))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            c, ns = clone()
            ns[i].value = not n.value
            out.append((f"const {n.value}", n.lineno, c))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            c, ns = clone()
            ns[i].value = n.value + 1
            out.append((f"const {n.value}+1", n.lineno, c))
        if isinstance(n, ast.With):
            c, ns = clone()
            w = ns[i]
            for q in ns:
                for f2 in ("body", "orelse", "finalbody"):
                    b = getattr(q, f2, None)
                    if isinstance(b, list) and w in b:
                        k = b.index(w)
                        b[k : k + 1] = w.body
            out.append((f"drop-with: {ast.unparse(n.items[0])[:60]}", n.lineno, c))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Invert)):
            c, ns = clone()
            for q in ns:
                for f2, v2 in ast.iter_fields(q):
                    if v2 is ns[i]:
                        setattr(q, f2, ns[i].operand)
                    elif isinstance(v2, list):
                        for z, y in enumerate(v2):
                            if y is ns[i]:
                                v2[z] = ns[i].operand
            out.append((f"drop-unary: {ast.unparse(n)[:60]}", n.lineno, c))
    return out


def apply(source, tree, fn, newfn):
    """Source text of the module with function node fn replaced."""
    lines = source.split("\n")
    start = min([fn.lineno] + [d.lineno for d in fn.decorator_list]) - 1
    end = fn.end_lineno
    indent = " " * fn.col_offset
    newfn = ast.fix_missing_locations(newfn)
    txt = ast.unparse(newfn)
    body = [indent + x if x else x for x in txt.split("\n")]
    return "\n".join(lines[:start] + body + lines[end:])
