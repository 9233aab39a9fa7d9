'''Hypothesis strategies for hybrid automaton specifications.

Guards and invariants are placed relative to nominal trajectories, so that most generated models have several jumps.
Every random choice is made through Hypothesis; all numbers end up on a 4-decimal grid inside the JSON case.
'''

import numpy as np
from hypothesis import strategies as st

from pbt import ref

def q(x):
    'round to the grid'

    return round(float(x), 4) + 0.0

def ints(lo, hi):
    'short name'

    return st.integers(lo, hi)

def chance(draw, num, den):
    'true with probability num / den; shrinks towards False'

    return draw(ints(0, den - 1)) >= den - num

@st.composite
def a_matrix(draw, n, scale=1.0):
    'dynamics matrix of one of several families'

    kind = draw(st.sampled_from(['int', 'diag', 'rot', 'clock', 'rand', 'zero', 'stable', 'affine']))
    A = np.zeros((n, n))

    if kind == 'int':
        for i in range(n):
            for j in range(n):
                A[i, j] = draw(ints(-1, 1))
    elif kind == 'diag':
        for i in range(n):
            A[i, i] = draw(ints(-4, 2)) / 2
    elif kind == 'rot':
        w = draw(ints(1, 6)) / 2
        if n >= 2:
            A[0, 1], A[1, 0] = w, -w
            d = draw(ints(-1, 1)) / 4
            A[0, 0] = A[1, 1] = d
        else:
            A[0, 0] = -w / 2
        if n >= 3:
            A[2, 2] = draw(ints(-2, 1)) / 2
            A[2, 0] = draw(ints(-1, 1)) / 2
    elif kind == 'clock':
        # x' = y, y' = 0 chains: nilpotent, polynomial trajectories
        for i in range(n - 1):
            A[i, i + 1] = draw(ints(-2, 2)) / 2
    elif kind == 'rand':
        for i in range(n):
            for j in range(n):
                A[i, j] = draw(ints(-8, 8)) / 5
    elif kind == 'stable':
        for i in range(n):
            A[i, i] = -draw(ints(1, 4)) / 2
            for j in range(i):
                A[i, j] = draw(ints(-3, 3)) / 4
    elif kind == 'affine' and n >= 2:
        # last variable is the constant
        for i in range(n - 1):
            for j in range(n):
                A[i, j] = draw(ints(-2, 2)) / 2

    return [[q(x * scale) for x in row] for row in A]

@st.composite
def input_set(draw, n):
    'B matrix and input polytope, or (None, None)'

    m = draw(ints(1, 2))
    B = [[q(draw(ints(-2, 2)) / 2) for _ in range(m)] for _ in range(n)]
    C, rhs = [], []
    kind = draw(st.sampled_from(['box', 'box', 'diamond', 'tri']))

    if kind == 'box' or m == 1:
        for i in range(m):
            lo = draw(ints(-4, 4)) / 8
            w = draw(ints(0, 4)) / 8
            C.append([1.0 if j == i else 0.0 for j in range(m)])
            rhs.append(q(lo + w))
            C.append([-1.0 if j == i else 0.0 for j in range(m)])
            rhs.append(q(-lo))
    elif kind == 'diamond':
        r = draw(ints(1, 4)) / 8
        for s in (1.0, -1.0):
            for t in (1.0, -1.0):
                C.append([s, t])
                rhs.append(q(r))
    else:
        lo0, lo1 = draw(ints(-2, 2)) / 8, draw(ints(-2, 2)) / 8
        w = draw(ints(1, 4)) / 8
        C += [[-1.0, 0.0], [0.0, -1.0], [1.0, 1.0]]
        rhs += [q(-lo0), q(-lo1), q(lo0 + lo1 + w)]

    return B, [C, rhs]

@st.composite
def init_spec(draw, n, kinds=('box', 'box', 'box', 'cons', 'zono')):
    'an initial set and its nominal point'

    kind = draw(st.sampled_from(kinds))
    c = [draw(ints(-8, 8)) / 4 for _ in range(n)]

    if kind == 'box':
        w = [draw(st.sampled_from([0.25, 0.0, 0.1, 0.5, 1.0])) for _ in range(n)]
        return {'type': 'box', 'box': [[q(x - v / 2), q(x + v / 2)] for x, v in zip(c, w)]}, c

    if kind == 'cons':
        C, rhs = [], []

        for i in range(n):
            C.append([-1.0 if j == i else 0.0 for j in range(n)])
            rhs.append(q(-(c[i] - 0.25)))

        w = draw(ints(1, 4)) / 4
        C.append([1.0] * n)
        rhs.append(q(sum(c) - 0.25 * n + w))

        if draw(st.booleans()): # another, possibly redundant, row
            v = [draw(ints(-2, 2)) for _ in range(n)]
            C.append([float(x) for x in v])
            rhs.append(q(np.dot(v, c) + 0.25))

            if not ref.cons_set(C, rhs).feasible():
                C.pop()
                rhs.pop()

        return {'type': 'cons', 'C': C, 'rhs': rhs}, c

    k = draw(ints(0, n + 1))
    g = [[q(draw(ints(-2, 2)) / 8) for _ in range(n)] for _ in range(k)]

    return {'type': 'zono', 'c': [q(x) for x in c], 'g': g}, c

def _vec(draw, n):
    'a non-zero direction with small integer entries'

    v = [draw(ints(-1, 1)) for _ in range(n)]

    if not any(v):
        v[draw(ints(0, n - 1))] = 1

    if chance(draw, 1, 4):
        s = draw(st.sampled_from([0.5, 2.0, 3.0]))
        v = [x * s for x in v]

    return [float(x) for x in v]

def nominal(A, B, U, h, x0, k):
    'nominal trajectory (inputs at a fixed point of the input set)'

    M, G = ref.step_matrices(A, B, h)
    u = None

    if B is not None:
        us = ref.cons_set(U[0], U[1])
        u = us.extreme([1.0] * us.dims)

    xs = [np.array(x0, dtype=float)]

    for _ in range(k):
        x = M @ xs[-1]

        if u is not None:
            x = x + G @ u

        xs.append(x)

    return xs

@st.composite
def reset_spec(draw, n1, n2):
    '(R, mink) of a reset from n1 to n2 dimensions'

    shift = chance(draw, 1, 4) # identity plus an uncertain or fixed offset
    kind = 'id' if shift else draw(st.sampled_from(['id', 'perm', 'scale', 'rand', 'proj']))
    R = np.zeros((n2, n1))

    for i in range(min(n1, n2)):
        R[i, i] = 1.0

    if kind == 'perm':
        R = R[:, ::-1].copy()
    elif kind == 'scale':
        for i in range(min(n1, n2)):
            R[i, i] = draw(st.sampled_from([1.0, 0.5, -1.0, -0.5, 0.0]))
    elif kind == 'rand':
        for i in range(n2):
            for j in range(n1):
                R[i, j] = draw(ints(-2, 2)) / 2
    elif kind == 'proj':
        R[draw(ints(0, n2 - 1)), :] = 0.0

    mink = None

    if shift or chance(draw, 1, 2):
        k = draw(ints(1, 2))
        use_m = k != n2 or draw(st.booleans())
        M = [[q(draw(ints(-2, 2)) / 2) for _ in range(k)] for _ in range(n2)] if use_m else None
        C, rhs = [], []

        for i in range(k):
            lo = draw(ints(-4, 4)) / 4
            w = draw(ints(0, 2)) / 4
            C.append([1.0 if j == i else 0.0 for j in range(k)])
            rhs.append(q(lo + w))
            C.append([-1.0 if j == i else 0.0 for j in range(k)])
            rhs.append(q(-lo))

        # more or fewer conditions than two per variable
        shape = draw(st.sampled_from(['box', 'box', 'cut', 'simplex', 'cuts']))

        if shape in ('cut', 'cuts'):
            for _ in range(1 if shape == 'cut' else 2):
                v = _vec(draw, k)
                hi = sum(max(x * rhs[2 * i], -x * rhs[2 * i + 1]) for i, x in enumerate(v))
                low = sum(min(x * rhs[2 * i], -x * rhs[2 * i + 1]) for i, x in enumerate(v))
                C.append(v)
                rhs.append(q(low + draw(st.sampled_from([0.75, 1.0, 1.5])) * (hi - low) + 0.001))
        elif shape == 'simplex':
            lows = [-rhs[2 * i + 1] for i in range(k)]
            w = draw(ints(1, 4)) / 4
            C = [[-1.0 if j == i else 0.0 for j in range(k)] for i in range(k)] + [[1.0] * k]
            rhs = [q(-x) for x in lows] + [q(sum(lows) + w)]

        mink = {'M': M, 'C': C, 'rhs': rhs}

    if mink is not None and kind == 'id' and n1 == n2 and draw(st.booleans()):
        return None, mink # the identity is the default

    return [[q(x) for x in row] for row in R], mink

@st.composite
def automaton(draw, max_dims=3, max_modes=3, max_steps=7, max_trans=4, inputs=True, resets=True, error=True,
              zono=True, zero_modes=True, same_dims=False, init_kinds=None, max_inv=2, max_init=2, self_loops=True,
              min_error=0, min_trans=0, pad=True):
    '''a hybrid automaton specification (without settings)

    min_error = 1: there is always an error mode, mostly reachable only after a jump
    '''

    h = draw(st.sampled_from([0.25, 0.1, 0.5, 1.0]))
    num_steps = draw(ints(1, max_steps))
    large = draw(st.sampled_from(['long', 'wide'])) if pad and chance(draw, 1, 10) else None

    if large == 'long': # many steps, in about the same total time
        num_steps = draw(ints(12, 40))
        h = draw(st.sampled_from([0.05, 0.1, 0.02]))
        max_dims = min(max_dims, 2)
        max_trans = min(max_trans, 2)
    elif large == 'wide': # many variables
        num_steps = min(num_steps, 5)
        max_dims = 7
        max_trans = min(max_trans, 2)

    nm = draw(st.sampled_from([n for n in (2, 1, 3, 2, 3) if n <= max_modes]))
    deep = min_error and max_trans > 1 and chance(draw, 3, 4)

    if deep:
        nm = max(nm, 2)

    n0 = draw(ints(4 if large == 'wide' else 1, max_dims))
    dims = [n0]

    for _ in range(nm - 1):
        dims.append(n0 if same_dims or not resets or chance(draw, 3, 4) else draw(ints(1, max_dims)))

    modes = []

    for i in range(nm):
        A = draw(a_matrix(dims[i]))

        if not zero_modes and not np.any(A):
            A[0][0] = 0.5

        B = U = None

        if inputs and chance(draw, 1, 3):
            B, U = draw(input_set(dims[i]))

        # names are deliberately not in index order
        modes.append({'name': draw(st.sampled_from(['m', 'a', 'z'])) + str(i), 'A': A, 'B': B, 'U': U, 'inv': []})

    num_err = 0

    if error:
        num_err = draw(ints(min_error, 1))

    if num_err:
        modes.append({'name': 'error', 'A': None, 'B': None, 'U': None, 'inv': []})

    # initial sets
    init = []
    points = {}
    kinds = init_kinds or (('box', 'box', 'box', 'cons', 'zono') if zono else ('box',))

    for i in range(draw(ints(1, max_init))):
        m = 0 if i == 0 else draw(ints(0, nm - 1))
        s, c = draw(init_spec(dims[m], kinds))
        s['mode'] = m
        init.append(s)
        points.setdefault(m, (c, 0))

    # transitions
    trans = []
    nt = draw(ints(max(min_trans, 2 if deep else min_error), max_trans))

    for ti in range(nt):
        src = draw(st.sampled_from(sorted(points)))

        if deep and ti == nt - 1 and len(points) > 1: # the last transition leads from a successor to the error
            src = draw(st.sampled_from([p for p in sorted(points) if p != 0]))

        if deep and ti == 0:
            dst = draw(ints(1, nm - 1))
        elif deep and ti == nt - 1:
            dst = nm
        elif ti == 0 and min_error and nt == 1:
            dst = nm
        elif num_err and chance(draw, 1, 3 if ti < nt - 1 else 2):
            dst = nm
        else:
            dst = draw(ints(0, nm - 1))

            # most jumps lead to another mode, preferably one that was not used yet
            if dst == src and nm > 1 and (not self_loops or chance(draw, 3, 4)):
                dst = draw(st.sampled_from([i for i in range(nm) if i not in points] or [i for i in range(nm) if i != src]))

            if dst == src and not self_loops: # a single mode
                continue

        x0, t0 = points[src]
        m = modes[src]
        left = max(1, num_steps - t0)
        k = draw(ints(1, left))
        xs = nominal(m['A'], m['B'], m['U'], h, x0, k)
        guard = []

        for _ in range(draw(st.sampled_from([1, 1, 2, 0 if chance(draw, 1, 6) else 1]))):
            v = _vec(draw, dims[src])
            prev = xs[k - 1]
            # halfway between the nominal step before and the nominal step, or around the nominal point
            off = draw(st.sampled_from([0.05, 0.0, -0.05, 0.2, -0.2, None]))
            val = np.dot(v, xs[k])
            rhs = val + off if off is not None else (val + np.dot(v, prev)) / 2
            guard.append([v, q(rhs)])

            # sometimes an equality-like slab
            if chance(draw, 1, 8):
                guard.append([[-x for x in v], q(-rhs + 0.1)])

        R = mink = None
        n2 = dims[src] if dst == nm else dims[dst]

        if dims[src] != n2 or (resets and chance(draw, 1, 3)):
            R, mink = draw(reset_spec(dims[src], n2))

        if guard and not ref.cons_set([g[0] for g in guard], [g[1] for g in guard]).feasible():
            guard = guard[:1]

        trans.append({'src': src, 'dst': dst, 'guard': guard, 'R': R, 'mink': mink})

        if dst != nm and dst not in points:
            x = xs[k] if R is None else np.array(R) @ xs[k]

            if mink is not None:
                C = ref.cons_set(mink['C'], mink['rhs'])
                y = C.extreme([1.0] * C.dims)
                M = np.eye(len(y)) if mink['M'] is None else np.array(mink['M'])
                x = x + M @ y

            points[dst] = (list(x), t0 + k)

    # invariants: the nominal trajectory satisfies them for some steps
    for i in range(nm):
        if i not in points:
            continue

        x0, t0 = points[i]
        k = draw(ints(0, max(1, num_steps - t0)))
        xs = nominal(modes[i]['A'], modes[i]['B'], modes[i]['U'], h, x0, k)

        for _ in range(draw(st.sampled_from([0, 1, max_inv]))):
            v = _vec(draw, dims[i])
            off = draw(st.sampled_from([0.3, 0.05, 0.0, 1.0, -0.05]))
            rhs = max(np.dot(v, x) for x in xs) + off
            modes[i]['inv'].append([v, q(rhs)])

        inv = modes[i]['inv']

        if inv and not ref.cons_set([g[0] for g in inv], [g[1] for g in inv]).feasible():
            modes[i]['inv'] = inv[:1]

    spec = {'step': h, 'num_steps': num_steps, 'modes': modes, 'trans': trans, 'init': init, 'settings': {}}

    if pad and chance(draw, 1, 16):
        pad_modes(spec, draw(ints(8, 11)))

    if pad and chance(draw, 1, 16) and trans:
        pad_transitions(spec, draw(st.sampled_from([t['src'] for t in trans])), draw(ints(9, 11)))

    return spec

def pad_modes(spec, count):
    'unused modes in front of the others: two-digit mode numbers'

    spec['modes'] = [{'name': f'p{i}', 'A': [[0.5]], 'B': None, 'U': None, 'inv': []} for i in range(count)] + spec['modes']

    for t in spec['trans']:
        t['src'] += count
        t['dst'] += count

    for s in spec['init']:
        s['mode'] += count

def pad_transitions(spec, src, count):
    'transitions which are never enabled in front of the others: two-digit transition numbers'

    n = len(spec['modes'][src]['A'])
    g = [[1.0 if i == 0 else 0.0 for i in range(n)], -20000.0]
    spec['trans'] = [{'src': src, 'dst': src, 'guard': [g], 'R': None, 'mink': None} for _ in range(count)] + spec['trans']

@st.composite
def agg_settings(draw, kinds=('none', 'box', 'arnoldi', 'chull'), deagg=False):
    'aggregation settings'

    s = {'agg': draw(st.sampled_from(kinds))}

    if s['agg'] != 'none':
        s['pop'] = draw(ints(0, 2))
        s['guard_dirs'] = draw(st.booleans())
        s['same_path'] = draw(st.booleans())
        s['deagg'] = deagg
        s['deagg_pref'] = draw(ints(0, 2))

    return s
