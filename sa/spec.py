"""Reference values of the matrix Lie groups in plain arithmetic: what the operations of the
library are documented to compute."""
import math


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def mv(A, v):
    return [sum(A[i][k] * v[k] for k in range(len(v))) for i in range(len(A))]


def tr(A):
    return [list(x) for x in zip(*A)]


def eye(n):
    return [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]


def madd(A, B, s=1.0):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(A, B)]


def norm(v):
    return math.sqrt(sum(x * x for x in v))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def skew(v):
    return [[0.0, -v[2], v[1]], [v[2], 0.0, -v[0]], [-v[1], v[0], 0.0]]


def hat(kind, v):
    if kind == "SO2":
        return [[0.0, -v[0]], [v[0], 0.0]]
    if kind == "SE2":
        return [[0.0, -v[2], v[0]], [v[2], 0.0, v[1]], [0.0, 0.0, 0.0]]
    if kind == "SO3":
        return skew(v)
    S = skew(v[3:])
    return [S[i] + [v[i]] for i in range(3)] + [[0.0] * 4]


def vee(kind, M):
    if kind == "SO2":
        return [M[1][0]]
    if kind == "SE2":
        return [M[0][2], M[1][2], M[1][0]]
    w = [M[2][1], M[0][2], M[1][0]]
    return w if kind == "SO3" else [M[0][3], M[1][3], M[2][3]] + w


def expm(M):
    """matrix exponential by scaling and squaring of the series"""
    n = len(M)
    s = max(0, int(math.ceil(math.log2(max(1e-9, max(abs(x) for r in M for x in r)) * 4)))) if M else 0
    X = [[x / 2 ** s for x in r] for r in M]
    out, term = eye(n), eye(n)
    for k in range(1, 20):
        term = [[x / k for x in r] for r in mm(term, X)]
        out = madd(out, term)
    for _ in range(s):
        out = mm(out, out)
    return out


def inverse(kind, M):
    if kind in ("SO2", "SO3"):
        return tr(M)
    n = len(M) - 1
    Rt = tr([r[:n] for r in M[:n]])
    t = mv(Rt, [-M[i][n] for i in range(n)])
    return [Rt[i] + [t[i]] for i in range(n)] + [[0.0] * n + [1.0]]


def rotlog(R):
    w = [0.5 * (R[2][1] - R[1][2]), 0.5 * (R[0][2] - R[2][0]), 0.5 * (R[1][0] - R[0][1])]
    s, c = norm(w), 0.5 * (R[0][0] + R[1][1] + R[2][2] - 1)
    th = math.atan2(s, c)
    if s > 1e-4:
        return [x * th / s for x in w]
    if c > 0:
        return w
    # close to half a turn: axis from the symmetric part, sign from the antisymmetric one
    B = [[0.5 * (R[i][j] + R[j][i]) - (c if i == j else 0.0) for j in range(3)] for i in range(3)]
    k = max(range(3), key=lambda i: B[i][i])
    a = B[k]
    n = norm(a)
    a = [x / n for x in a]
    if sum(x * y for x, y in zip(a, w)) < 0:
        a = [-x for x in a]
    return [x * th for x in a]


def leftjac(w):
    th = norm(w)
    W = skew(w)
    W2 = mm(W, W)
    if th < 1e-3:
        a, b = 0.5 - th * th / 24, 1 / 6 - th * th / 120
    else:
        a, b = (1 - math.cos(th)) / th ** 2, (th - math.sin(th)) / th ** 3
    return madd(madd(eye(3), W, a), W2, b)


def solve(A, b):
    n = len(A)
    M = [list(r) + [x] for r, x in zip(A, b)]
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(M[k][i]))
        M[i], M[p] = M[p], M[i]
        for k in range(n):
            if k != i:
                f = M[k][i] / M[i][i]
                M[k] = [x - f * y for x, y in zip(M[k], M[i])]
    return [M[i][n] / M[i][i] for i in range(n)]


def logm(kind, M):
    if kind == "SO2":
        return [math.atan2(M[1][0], M[0][0])]
    if kind == "SO3":
        return rotlog(M)
    if kind == "SE2":
        th = math.atan2(M[1][0], M[0][0])
        if abs(th) < 1e-5:
            a, b = 1 - th * th / 6, th / 2
        else:
            a, b = math.sin(th) / th, (1 - math.cos(th)) / th
        return solve([[a, -b], [b, a]], [M[0][2], M[1][2]]) + [th]
    w = rotlog([r[:3] for r in M[:3]])
    return solve(leftjac(w), [M[i][3] for i in range(3)]) + w


def adjoint(kind, M):
    n = {"SO2": 1, "SE2": 3, "SO3": 3, "SE3": 6}[kind]
    cols = []
    for k in range(n):
        e = [1.0 if i == k else 0.0 for i in range(n)]
        cols.append(vee(kind, mm(mm(M, hat(kind, e)), inverse(kind, M))))
    return tr(cols)


def matrix(kind, get):
    """homogeneous matrix from the entries get(*index)"""
    if kind == "SO2":
        c, s = get(0), get(1)
        return [[c, -s], [s, c]]
    if kind == "SE2":
        c, s = get(2), get(3)
        return [[c, -s, get(0)], [s, c, get(1)], [0.0, 0.0, 1.0]]
    if kind == "SO3":
        return [[get(i, j) for j in range(3)] for i in range(3)]
    return [[get(i, j) for j in range(4)] for i in range(3)] + [[0.0, 0.0, 0.0, 1.0]]


def data(kind, M):
    """stored entries of the element with this matrix"""
    if kind == "SO2":
        return [M[0][0], M[1][0]]
    if kind == "SE2":
        return [M[0][2], M[1][2], M[0][0], M[1][0]]
    return M if kind == "SO3" else M[:3]


def act(kind, M, p):
    n = 2 if kind in ("SO2", "SE2") else 3
    return [sum(M[i][k] * p[k] for k in range(n)) + (M[i][n] if len(M) > n else 0.0) for i in range(n)]


def quat(q):
    """rotation of a unit quaternion (w, x, y, z)"""
    w, x, y, z = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
            [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
            [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]


def flat(x, idx=()):
    """nested lists -> (index, number)"""
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from flat(y, (*idx, i))
    else:
        yield idx, x


def shape(x):
    s = []
    while isinstance(x, (list, tuple)):
        s.append(len(x))
        x = x[0] if x else None
    return tuple(s)
