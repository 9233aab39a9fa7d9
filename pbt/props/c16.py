'''C16: vertices for plotting'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sets
from pbt.runner import Discard, Violation

ID = 'C16'
QUICK = 3000
THOROUGH = 20000
RULE = ('random symbolic sets (recipes of steps, cuts, resets) projected on dimension numbers, direction vectors and time '
        '(single instants and intervals), and random, partly degenerate polytopes in 1-4 dimensions given by support '
        'functions; oracle: independent supports; the vertices lie in the set, the polygon is closed, convex and covers the '
        'projection up to the stated accuracy; non-trivial: polygon with at least 4 vertices, or a lower-dimensional set')

@st.composite
def axis(draw, n):
    'dimension number, direction or time'

    kind = draw(st.sampled_from(['int', 'int', 'vec', 'time']))

    if kind == 'int':
        return draw(gen.ints(0, n - 1))

    return None if kind == 'time' else gen._vec(draw, n) # pylint: disable=protected-access

@st.composite
def _case(draw):
    kind = draw(st.sampled_from(['lpi', 'lpi', 'lpi', 'lpi', 'lpi', 'kam', 'kam', 'bound', 'pt']))

    if kind == 'pt':
        n = draw(gen.ints(1, 3))
        return {'kind': 'pt', 'pt': [draw(gen.ints(-40, 40)) / 8 for _ in range(n)], 'x': draw(axis(n)), 'y': draw(axis(n)),
                'time': draw(gen.ints(0, 20)) / 4}

    if kind == 'kam':
        n = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
        k = draw(gen.ints(2, 9))
        rank = draw(gen.ints(0, n)) if gen.chance(draw, 1, 2) else n
        M = [[draw(gen.ints(-2, 2)) for _ in range(rank)] for _ in range(n)]

        if rank == n and draw(st.booleans()):
            M = np.eye(n).tolist()

        pts = [[draw(gen.ints(-4, 4)) / 2 for _ in range(rank)] for _ in range(k)]
        off = [draw(gen.ints(-4, 4)) for _ in range(n)]
        pts = [[gen.q(sum(M[i][j] * p[j] for j in range(rank)) + off[i]) for i in range(n)] for p in pts]

        return {'kind': 'kam', 'pts': pts}

    n = draw(st.sampled_from([2, 2, 3, 3, 1]))
    rec = draw(sets.recipe(n, max_ops=4, resets=gen.chance(draw, 1, 2)))
    m = len(rec['modes'][-1]['A'])
    x, y = draw(axis(m)), draw(axis(m))

    if x == y and m > 1:
        y = (x + 1) % m if isinstance(x, int) else 0

    return {'kind': kind, 'rec': rec, 'x': x, 'y': y,
            'time': draw(st.sampled_from([0.0, 1, 2.5, [0.5, 2.0], [1.0, 1.0], [0.0, 3.0]])),
            'angles': draw(st.sampled_from([3, 4, 7, 16, 33]))}

def strategy():
    'cases'
    return _case()

def to_arg(a):
    'what the caller passes'

    return np.array(a, dtype=float) if isinstance(a, list) else a

def vec(a, n):
    'direction of an axis'

    return [1.0 if i == a else 0.0 for i in range(n)] if isinstance(a, int) else a

def check_polygon(verts, proj, tol_point, tol_edge):
    'closed convex polygon inside proj, covering it up to tol_edge'

    verts = np.array(verts, dtype=float)

    if len(verts) < 2 or not np.allclose(verts[0], verts[-1], atol=1e-12, rtol=0):
        raise Violation('not_closed', f'first and last vertex differ: {verts}')

    v = verts[:-1]

    for p in v:
        if ref.distance(proj, p) > tol_point:
            raise Violation('vertex_outside', f'vertex {p} is {ref.distance(proj, p):g} outside of the projected set')

    if len(v) == 1:
        for d in ([1, 0], [0, 1], [-1, 0], [0, -1]):
            if proj.support(d) - np.dot(d, v[0]) > tol_edge * 1.5:
                raise Violation('not_covered', f'single point {v[0]}, but the set extends to {proj.support(d)} in {d}')
        return

    if len(v) == 2:
        u = (v[1] - v[0]) / np.linalg.norm(v[1] - v[0])
        w = np.array([-u[1], u[0]])

        for d in (u, -u, w, -w):
            if proj.support(d) - max(np.dot(v, d)) > tol_edge * 1.5:
                raise Violation('not_covered', f'segment {v.tolist()}, but the set exceeds it in direction {d}')
        return

    area = 0.5 * sum(v[i][0] * v[i - 1][1] - v[i - 1][0] * v[i][1] for i in range(len(v)))
    sign = -1.0 if area > 0 else 1.0

    for i in range(len(v)): # pylint: disable=consider-using-enumerate
        e = v[(i + 1) % len(v)] - v[i]
        length = np.linalg.norm(e)

        if length < 1e-12:
            continue

        nrm = sign * np.array([e[1], -e[0]]) / length

        if max(np.dot(v, nrm)) - np.dot(v[i], nrm) > 1e-9 + tol_point:
            raise Violation('not_convex', f'vertices are not in convex position / order: {v.tolist()}')

        gap = proj.support(nrm) - np.dot(v[i], nrm)

        if gap > tol_edge:
            raise Violation('not_covered', f'edge {i} of {v.tolist()}: the set extends {gap:g} beyond it (limit {tol_edge:g})')

def same_points(a, b, tol):
    'equal as sets of points'

    far = [p for p in a if min(np.abs(np.array(p) - q).max() for q in b) > tol]
    far += [p for p in b if min(np.abs(np.array(p) - q).max() for q in a) > tol]

    return not far

def run_lpi(case):
    'get_verts'

    from hylaa import lpplot

    rset = sets.build_ref(case['rec'])

    if not rset.feasible() or not rset.cut([]).feasible():
        raise Discard('empty set')

    n = rset.dims
    scale = max(abs(rset.support(s * e)) for e in np.eye(n) for s in (1, -1))

    if scale > 1e4:
        raise Discard('large values')

    x, y, t = case['x'], case['y'], case['time']
    ts = t if isinstance(t, list) else [t, t]
    lpi = sets.build_state(case['rec']).lpi
    before = lpi.get_full_constraints().toarray().copy()
    verts = lpplot.get_verts(lpi, xdim=to_arg(x), ydim=to_arg(y), cur_time=t if not isinstance(t, list) else tuple(t))
    tol = 1e-6 * max(1.0, scale)

    if not np.array_equal(before, lpi.get_full_constraints().toarray()):
        raise Violation('set_modified', 'get_verts changed the constraints')

    return check_verts(rset, *[None if a is None else np.array(vec(a, n), dtype=float) for a in (x, y)], ts, verts, scale)

def check_verts(rset, x, y, ts, verts, scale):
    'vertices of the projection on two directions (None: time, an interval)'

    n = rset.dims
    tol = 1e-6 * max(1.0, scale)

    if x is None or y is None:
        def interval(a):
            'range of one axis'
            if a is None:
                return float(ts[0]), float(ts[1])
            return -rset.support(-a), rset.support(a)

        want = {(a, b) for a in interval(x) for b in interval(y)}

        if not same_points([list(map(float, v)) for v in verts], [np.array(w) for w in want], tol):
            raise Violation('time_plot', f'vertices {verts}, expected the rectangle {interval(x)} x {interval(y)}')

        if list(verts[0]) != list(verts[-1]):
            raise Violation('not_closed', f'first and last vertex differ: {verts}')

        for a, b in zip(verts, verts[1:]):
            if abs(a[0] - b[0]) > tol and abs(a[1] - b[1]) > tol:
                raise Violation('not_convex', f'rectangle has a diagonal edge: {verts}')

        return ['kind:time'] + (['nt:rectangle'] if len(verts) == 5 else [])

    proj = rset.linear(np.array([x, y]))
    widths = [max(1e-5, proj.support(d) + proj.support(-np.array(d))) for d in np.eye(2)]
    eps = min(widths) / 1000
    flat = max(1e-5, 1e-4 * scale) # sets thinner than that may be drawn as points or lines

    try:
        thin = min(proj.support(d) + proj.support(-np.array(d)) for d in directions2(proj)) < flat
    except Discard:
        thin = True

    check_polygon(verts, proj, tol, flat if thin else eps * 1.01 + tol)

    return ['kind:2d', f'verts:{min(len(verts), 6)}'] + (['nt:polygon'] if len(verts) > 4 else []) + \
        (['nt:degenerate'] if len(verts) <= 3 else [])

def directions2(proj):
    'directions in which a two-dimensional set may be thin'

    p = [proj.extreme(d) for d in ([1, 0], [-1, 0], [0, 1], [0, -1], [1, 1], [-1, -1], [1, -1], [-1, 1])]
    rv = [np.array([1.0, 0.0]), np.array([0.0, 1.0])]

    for i, a in enumerate(p):
        for b in p[:i]:
            d = np.array([-(b - a)[1], (b - a)[0]])

            if np.linalg.norm(d) > 1e-9:
                rv.append(d / np.linalg.norm(d))

    return rv

def run_kam(case):
    'kamenev.get_verts'

    from hylaa import kamenev

    pts = np.array(case['pts'], dtype=float)
    n = pts.shape[1]

    def supp(d):
        'support point'
        return pts[int(np.argmax(pts @ np.asarray(d, dtype=float)))].copy()

    eps = 1e-5
    verts = np.array(kamenev.get_verts(n, supp, epsilon=eps), dtype=float)

    if verts.ndim != 2 or verts.shape[1] != n or len(verts) == 0:
        raise Violation('shape', f'vertices of shape {verts.shape}')

    for v in verts:
        if np.abs(pts - v).max(axis=1).min() > 1e-6:
            raise Violation('vertex_outside', f'{v} is not a vertex of the set')

    rank = np.linalg.matrix_rank(pts - pts[0], tol=1e-9) if len(pts) > 1 else 0
    # every point must lie in the hull of the vertices
    hull = ref.cons_set([[1.0] * len(verts)] + [[-1.0 if i == j else 0.0 for i in range(len(verts))] for j in range(len(verts))] +
                        [[-1.0] * len(verts)], [1.0] + [0.0] * len(verts) + [-1.0]).linear(verts.T)

    for p in pts:
        if ref.distance(hull, p) > 50 * eps:
            raise Violation('not_covered', f'{p} is {ref.distance(hull, p):g} outside of the hull of the vertices {verts.tolist()}')

    return [f'kam:{n}', f'rank:{rank}'] + (['nt:flat'] if rank < n else []) + (['nt:polytope'] if rank >= 2 else [])

def run_bound(case):
    'make_plot_vecs and find_boundary_pts'

    from hylaa import lpplot

    rset = sets.build_ref(case['rec'])
    n = rset.dims

    if not rset.feasible():
        raise Discard('empty set')

    scale = max(abs(rset.support(s * e)) for e in np.eye(n) for s in (1, -1))
    x, y = case['x'], case['y']

    if scale > 1e4 or (x is None and y is None):
        raise Discard('large values')

    vecs = lpplot.make_plot_vecs(case['angles'])

    if len(vecs) != case['angles']:
        raise Violation('plot_vecs', f'{len(vecs)} directions instead of {case["angles"]}')

    for i, v in enumerate(vecs):
        a = 2 * np.pi * i / case['angles']

        if abs(v[0] - np.cos(a)) + abs(v[1] - np.sin(a)) > 1e-9:
            raise Violation('plot_vecs', f'direction {i} is {v}')

    lpi = sets.build_state(case['rec']).lpi
    pts = np.array(lpplot.find_boundary_pts(lpi, to_arg(x), to_arg(y), vecs, [1.0, 1.0]))
    D = np.array([np.zeros(n) if a is None else np.array(vec(a, n)) for a in (x, y)])
    proj = rset.linear(D)
    tol = 1e-4 * max(1.0, scale)

    for p in pts:
        if ref.distance(proj, p) > tol:
            raise Violation('vertex_outside', f'boundary point {p} is outside of the set')

    for v in vecs:
        if np.dot(pts, v).min() - (-proj.support(-v)) > tol:
            raise Violation('not_covered', f'no boundary point is minimal in direction {v}')

    return ['kind:bound'] + (['nt:boundary'] if len(pts) > 2 else [])

def run_pt(case):
    'pt_to_plot_xy'

    from hylaa import lpplot

    pt = np.array(case['pt'])
    got = lpplot.pt_to_plot_xy(pt, to_arg(case['x']), to_arg(case['y']), case['time'])
    want = [case['time'] if a is None else float(np.dot(vec(a, len(pt)), pt)) for a in (case['x'], case['y'])]

    if np.abs(np.array(got, dtype=float) - want).max() > 1e-9:
        raise Violation('point', f'{case}: got {got}, expected {want}')

    return ['kind:pt', 'nt:point']

def run_case(case):
    'one case'

    return {'lpi': run_lpi, 'kam': run_kam, 'bound': run_bound, 'pt': run_pt}[case['kind']](case)
