'''Independent reference mathematics: no code of the repository is used here.

Sets are { P z + c | A z <= b } with free z; every LP is solved by HiGHS (the repository uses GLPK).
'''

import numpy as np
from scipy.linalg import expm

INF = float('inf')

try:
    from scipy.optimize._highspy import _core as hs
except ImportError: # pragma: no cover
    hs = None

class ReferenceError_(Exception):
    'the reference cannot decide this case'

class LP():
    'max c z s.t. A z <= b, z free (optionally with equality rows E z = e)'

    def __init__(self, A, b, E=None, e=None):
        A = np.asarray(A, dtype=float)
        b = np.asarray(b, dtype=float)
        self.n = A.shape[1]

        if E is not None and len(E):
            E = np.asarray(E, dtype=float)
            e = np.asarray(e, dtype=float)
            rows = np.vstack([A, E])
            lo = np.concatenate([np.full(len(b), -INF), e])
            hi = np.concatenate([b, e])
        else:
            rows = A
            lo = np.full(len(b), -INF)
            hi = b

        self.rows, self.lo, self.hi = rows, lo, hi
        self.h = None

        if hs is not None:
            self._init_highs()

    def _init_highs(self):
        h = hs._Highs() # pylint: disable=protected-access
        h.setOptionValue('output_flag', False)
        h.setOptionValue('threads', 1)
        h.setOptionValue('primal_feasibility_tolerance', 1e-9)
        h.setOptionValue('dual_feasibility_tolerance', 1e-9)
        lp = hs.HighsLp()
        m, n = self.rows.shape
        lp.num_col_ = n
        lp.num_row_ = m
        lp.col_cost_ = np.zeros(n)
        lp.col_lower_ = np.full(n, -hs.kHighsInf)
        lp.col_upper_ = np.full(n, hs.kHighsInf)
        lp.row_lower_ = np.where(np.isinf(self.lo), -hs.kHighsInf, self.lo)
        lp.row_upper_ = np.where(np.isinf(self.hi), hs.kHighsInf, self.hi)
        mat = lp.a_matrix_
        mat.num_col_ = n
        mat.num_row_ = m
        mat.format_ = hs.MatrixFormat.kRowwise
        r, c = np.nonzero(self.rows)
        start = np.zeros(m + 1, dtype=np.int32)
        np.add.at(start, r + 1, 1)
        mat.start_ = np.cumsum(start).astype(np.int32)
        mat.index_ = c.astype(np.int32)
        mat.value_ = self.rows[r, c]

        if h.passModel(lp) == hs.HighsStatus.kError:
            raise RuntimeError('HiGHS rejected the model')

        self.h = h

    def solve(self, c):
        'returns (status, value, z) with status in optimal / infeasible / unbounded'

        c = np.asarray(c, dtype=float)

        if self.h is None:
            return self._solve_scipy(c)

        for j in range(self.n):
            self.h.changeColCost(j, -float(c[j]))

        self.h.run()
        st = self.h.getModelStatus()

        if st == hs.HighsModelStatus.kUnboundedOrInfeasible or st == hs.HighsModelStatus.kUnknown:
            return self._solve_scipy(c)

        if st == hs.HighsModelStatus.kOptimal:
            z = np.array(self.h.getSolution().col_value)
            return 'optimal', float(np.dot(c, z)), z

        if st == hs.HighsModelStatus.kInfeasible:
            return 'infeasible', None, None

        if st == hs.HighsModelStatus.kUnbounded:
            return 'unbounded', INF, None

        if st == hs.HighsModelStatus.kModelEmpty:
            return 'optimal', 0.0, np.zeros(self.n)

        return self._solve_scipy(c)

    def _solve_scipy(self, c):
        from scipy.optimize import linprog

        eq = np.isfinite(self.lo)
        args = {'A_ub': self.rows[~eq] if (~eq).any() else None, 'b_ub': self.hi[~eq] if (~eq).any() else None,
                'A_eq': self.rows[eq] if eq.any() else None, 'b_eq': self.hi[eq] if eq.any() else None}
        res = linprog(np.zeros(self.n), bounds=(None, None), method='highs', **args)

        if res.status == 2:
            return 'infeasible', None, None

        res = linprog(-c, bounds=(None, None), method='highs', **args)

        if res.status == 0:
            return 'optimal', float(-res.fun), res.x

        if res.status == 3 or res.status == 4:
            return 'unbounded', INF, None

        return 'infeasible', None, None

class RefSet():
    '{ P z + c | A z <= b }'

    def __init__(self, P, c, A, b):
        self.P = np.asarray(P, dtype=float)
        self.c = np.asarray(c, dtype=float)
        self.A = np.asarray(A, dtype=float).reshape(-1, self.P.shape[1])
        self.b = np.asarray(b, dtype=float)
        self._lp = None

    @property
    def dims(self):
        'dimension of the set'
        return self.P.shape[0]

    def lp(self):
        'lp over z'

        if self._lp is None:
            self._lp = LP(self.A, self.b)

        return self._lp

    def feasible(self):
        'non-empty?'

        return self.lp().solve(np.zeros(self.P.shape[1]))[0] != 'infeasible'

    def support(self, d):
        'max d x over the set (-inf when empty)'

        d = np.asarray(d, dtype=float)
        st, val, _ = self.lp().solve(d @ self.P)

        if st == 'infeasible':
            return -INF

        return val + float(d @ self.c)

    def extreme(self, d):
        'a point of the set maximising d, or None'

        st, _, z = self.lp().solve(np.asarray(d, dtype=float) @ self.P)

        return None if st != 'optimal' else self.P @ z + self.c

    def linear(self, M, G=None, U=None):
        'M x + G u with u in U = (C, rhs)'

        M = np.asarray(M, dtype=float)
        P = M @ self.P
        c = M @ self.c
        A, b = self.A, self.b

        if G is not None:
            G = np.asarray(G, dtype=float)
            C = np.asarray(U[0], dtype=float).reshape(-1, G.shape[1])
            P = np.hstack([P, G])
            A = np.block([[A, np.zeros((A.shape[0], G.shape[1]))], [np.zeros((C.shape[0], A.shape[1])), C]])
            b = np.concatenate([b, np.asarray(U[1], dtype=float)])

        return RefSet(P, c, A, b)

    def cut(self, rows, eps=0.0):
        'intersect with rows: list of [vec, rhs] over x; every rhs is moved by eps * ||vec||_1-ish scale'

        if not rows:
            return self

        V = np.asarray([r[0] for r in rows], dtype=float)
        rhs = np.asarray([r[1] for r in rows], dtype=float) - V @ self.c
        rhs = rhs + eps * np.maximum(1.0, np.abs(V).sum(axis=1))

        return RefSet(self.P, self.c, np.vstack([self.A, V @ self.P]), np.concatenate([self.b, rhs]))

def chull(s1, s2):
    'convex hull of two bounded sets (lifted)'

    n, m1, m2 = s1.dims, s1.P.shape[1], s2.P.shape[1]
    P = np.hstack([s1.P, s2.P, (s1.c - s2.c).reshape(n, 1)])
    A = np.zeros((len(s1.b) + len(s2.b) + 2, m1 + m2 + 1))
    b = np.zeros(len(A))
    k = len(s1.b)
    A[:k, :m1] = s1.A
    A[:k, -1] = -s1.b
    A[k:-2, m1:-1] = s2.A
    A[k:-2, -1] = s2.b
    b[k:-2] = s2.b
    A[-2, -1], A[-1, -1], b[-2] = 1.0, -1.0, 1.0

    return RefSet(P, s2.c, A, b)

def approx_set(x0, approx, A, B, U, h):
    '''documented approximation models: the set that covers the first step, and the per-step input term

    approx 1: convex hull of the sets at steps 0 and 1.  approx 2: equation (2) of Le Guernic and Girard, 2010,
    CH(X0, Phi X0 + h V + alpha B) with V = B U, and per step h V + beta B.  returns (set, G, U)
    '''

    M, G = step_matrices(A, B, h)

    if approx == 1:
        return chull(x0, x0.linear(M, G, U)), G, U

    A = np.asarray(A, dtype=float)
    n = len(A)
    norm = np.abs(A).sum(axis=1).max()
    rad = max(abs(x0.support(s * e)) for e in np.eye(n) for s in (1, -1))
    rv = 0.0
    nxt = x0.linear(M)

    if not np.isfinite(rad):
        raise ReferenceError_('borderline set in the reference')

    if B is not None:
        V = RefSet(np.asarray(B, dtype=float), np.zeros(n), *U)
        rv = max(abs(V.support(s * e)) for e in np.eye(n) for s in (1, -1))
        nxt = nxt.linear(np.eye(n), h * np.asarray(B, dtype=float), U)

    if norm == 0:
        return chull(x0, nxt), G, U

    f = np.exp(h * norm) - 1 - h * norm
    alpha, beta = f * (rad + rv / norm), f * rv / norm
    unit = np.vstack([np.eye(n), -np.eye(n)])

    if alpha > 0:
        nxt = nxt.linear(np.eye(n), alpha * np.eye(n), [unit, np.ones(2 * n)])

    if B is None:
        return chull(x0, nxt), None, None

    m = np.asarray(B).shape[1]
    C = np.asarray(U[0], dtype=float).reshape(-1, m)
    C = np.block([[C, np.zeros((len(C), n))], [np.zeros((2 * n, m)), unit]])

    return (chull(x0, nxt), np.hstack([h * np.asarray(B, dtype=float), beta * np.eye(n)]),
            [C, list(U[1]) + [1.0] * (2 * n)])

def lgg_beta(A, B, U, h):
    'beta of the LGG model (None without inputs or dynamics)'

    A = np.asarray(A, dtype=float)
    norm = np.abs(A).sum(axis=1).max()

    if B is None or norm == 0:
        return None

    V = RefSet(np.asarray(B, dtype=float), np.zeros(len(A)), *U)
    rv = max(abs(V.support(s * e)) for e in np.eye(len(A)) for s in (1, -1))

    return (np.exp(h * norm) - 1 - h * norm) * rv / norm

def box_set(box):
    'RefSet of a box'

    n = len(box)
    A = np.vstack([np.eye(n), -np.eye(n)])
    b = np.array([u for _, u in box] + [-l for l, _ in box], dtype=float)

    return RefSet(np.eye(n), np.zeros(n), A, b)

def cons_set(C, rhs):
    'RefSet of a polytope'

    C = np.asarray(C, dtype=float)

    return RefSet(np.eye(C.shape[1]), np.zeros(C.shape[1]), C, rhs)

def zono_set(center, gens):
    'RefSet of a zonotope'

    k = len(gens)
    n = len(center)

    if k == 0:
        return RefSet(np.zeros((n, 1)), center, [[1.0], [-1.0]], [0.0, 0.0])

    G = np.array(gens, dtype=float).T.reshape(n, k)

    return RefSet(G, center, np.vstack([np.eye(k), -np.eye(k)]), np.ones(2 * k))

def init_set(spec):
    'RefSet of an initial-set specification'

    if spec['type'] == 'box':
        return box_set(spec['box'])

    if spec['type'] == 'cons':
        return cons_set(spec['C'], spec['rhs'])

    return zono_set(spec['c'], spec['g'])

def step_matrices(A, B, h):
    'exact discretisation: (e^{Ah}, int_0^h e^{As} ds B)'

    A = np.asarray(A, dtype=float)
    n = A.shape[0]

    if B is None:
        return expm(A * h), None

    B = np.asarray(B, dtype=float)
    m = B.shape[1]
    big = np.zeros((n + m, n + m))
    big[:n, :n] = A * h
    big[:n, n:] = B * h
    E = expm(big)

    return E[:n, :n], E[:n, n:]

def poly_from_lp(csr, rhs, types, cur, dims):
    '''RefSet from raw lp data (rows with types: 'ub', 'lb', 'eq') where columns cur..cur+dims are the set'''

    M = csr
    A, b = [], []

    for row, r, t in zip(M, rhs, types):
        if t == 'ub' or t == 'eq':
            A.append(row)
            b.append(r)

        if t == 'lb' or t == 'eq':
            A.append(-row)
            b.append(-r)

    P = np.zeros((dims, M.shape[1]))

    for i in range(dims):
        P[i, cur + i] = 1.0

    return RefSet(P, np.zeros(dims), np.array(A).reshape(-1, M.shape[1]), b)

def distance(rset, pt):
    'smallest t with some x in the set, ||x - pt||_inf <= t (inf if empty)'

    P, c, A, b = rset.P, rset.c, rset.A, rset.b
    m = P.shape[1]
    n = P.shape[0]
    pt = np.asarray(pt, dtype=float) - c
    rows = np.block([[A, np.zeros((A.shape[0], 1))], [P, -np.ones((n, 1))], [-P, -np.ones((n, 1))],
                     [np.zeros((1, m)), -np.ones((1, 1))]])
    rhs = np.concatenate([b, pt, -pt, [0.0]])
    obj = np.zeros(m + 1)
    obj[m] = -1.0
    st, val, _ = LP(rows, rhs).solve(obj)

    return INF if st != 'optimal' else max(0.0, -val)

def directions(dims, extra=(), seed=0, num_random=3):
    'a fixed set of directions: +-axes, some diagonals (deterministic), plus the given ones'

    rv = []

    for i in range(dims):
        for s in (1.0, -1.0):
            d = np.zeros(dims)
            d[i] = s
            rv.append(d)

    rng = np.random.default_rng(seed)

    for _ in range(num_random):
        d = rng.normal(size=dims)
        d /= np.abs(d).max()
        rv += [d, -d]

    for d in extra:
        rv.append(np.asarray(d, dtype=float))

    return rv
