'''C22: the stored plot data is what the analysis computed'''

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.props import c05, c16
from pbt.runner import Discard, Violation

ID = 'C22'
QUICK = 480
THOROUGH = 8000
RULE = ('random hybrid automata x aggregation strategies x one to three subplots over dimension numbers, directions, '
        'per-mode directions and time; oracle: a second run of the analysis in which every visited set is read back; the '
        'stored objects must match the visited sets one to one in every subplot (mode, step, polygon), the drawn polygons '
        'must be the stored ones, point queries must return a stored object around the point; random histories of stored and removed polygons against a list; with deaggregation the stored '
        'polygons still cover all reachable sets; non-trivial: at least 3 objects in more than one mode or subplot')
ASSUMPTIONS = ['polygons are compared with the accuracy stated for C16']

@st.composite
def _axis(draw, spec, both):
    'axis of a subplot'

    n = min(len(m['A']) for m in spec['modes'] if m['A'] is not None)
    kind = draw(st.sampled_from(['int', 'int', 'int', 'vec', 'dict', 'time']))

    if kind == 'time' and both:
        kind = 'int'

    if kind == 'int':
        return draw(gen.ints(0, n - 1))

    if kind == 'time':
        return None

    if kind == 'vec' and len({len(m['A']) for m in spec['modes'] if m['A'] is not None}) == 1:
        return gen._vec(draw, n) # pylint: disable=protected-access

    rv = {m['name']: gen._vec(draw, n if m['A'] is None else len(m['A'])) for m in spec['modes']} # pylint: disable=protected-access

    for name, v in rv.items():
        if gen.chance(draw, 1, 3): # constant in this mode
            rv[name] = [0.0] * len(v)

    return rv

@st.composite
def _history(draw):
    'operations on a PlotData object'

    ops = []

    for _ in range(draw(gen.ints(1, 10))):
        if gen.chance(draw, 1, 4):
            ops.append(['remove', draw(gen.ints(0, 9))])
        else:
            pts = [[draw(gen.ints(-4, 4)) / 2, draw(gen.ints(-4, 4)) / 2] for _ in range(draw(st.sampled_from([1, 2, 3, 3, 4, 6])))]
            ops.append(['add', draw(gen.ints(0, 2)), draw(gen.ints(0, 3)), pts, draw(st.booleans())])

    return {'ops': ops, 'subplots': draw(gen.ints(1, 3)),
            'queries': [[draw(gen.ints(-8, 8)) / 4 + 0.03, draw(gen.ints(-8, 8)) / 4 - 0.05, draw(gen.ints(0, 2))] for _ in range(3)]}

@st.composite
def _case(draw):
    if gen.chance(draw, 1, 6):
        return {'history': draw(_history())}

    return draw(analysis())

@st.composite
def analysis(draw):
    'an automaton and plot settings'

    deagg = gen.chance(draw, 1, 3)
    spec = draw(gen.automaton(min_error=int(deagg), max_trans=3 + deagg, max_steps=6, pad=False))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()), 'skip_zero': draw(st.booleans()),
                        'stop_concrete': draw(st.booleans()) and not deagg}
    spec['settings'].update(draw(gen.agg_settings(('box', 'arnoldi', 'chull') + (() if deagg else ('none',)), deagg=deagg)))

    if deagg and draw(st.booleans()):
        c05.exclude_errors(spec, draw(st.sampled_from([0.01, 0.05, 0.002])))

    plots = []

    for _ in range(draw(st.sampled_from([1, 2, 3]))):
        x = draw(_axis(spec, False))
        plots.append([x, draw(_axis(spec, x is None))])

    if draw(gen.ints(0, 2)) == 2 and plots:
        plots[-1] = [None, draw(gen.ints(0, min(len(m['A']) for m in spec['modes'] if m['A'] is not None) - 1))]

    return {'spec': spec, 'plots': plots, 'single': len(plots) == 1 and draw(st.booleans()),
            'image': gen.chance(draw, 1, 3 if deagg else 12), 'markers': draw(st.booleans()), 'query': gen.chance(draw, 1, 8),
            'query_at': [draw(gen.ints(0, 20)), draw(gen.ints(0, 12)) / 10, draw(gen.ints(0, 12)) / 10]}

def strategy():
    'cases'
    return _case()

def to_arg(a):
    'axis as given by the user'

    if isinstance(a, dict):
        return {k: np.array(v, dtype=float) for k, v in a.items()}

    return c16.to_arg(a)

def set_plot(case, settings, tmp, image):
    'plot settings of a case'

    from hylaa.settings import PlotSettings

    p = settings.plot
    p.store_plot_result = True
    p.xdim_dir = [to_arg(x) for x, _ in case['plots']]
    p.ydim_dir = [to_arg(y) for _, y in case['plots']]

    if case['single']:
        p.xdim_dir, p.ydim_dir = p.xdim_dir[0], p.ydim_dir[0]

    p.use_markers_for_small = case['markers']
    p.num_angles = 16
    p.plot_size = (4, 4)
    p.filename = os.path.join(tmp, 'plot.png')
    p.plot_mode = PlotSettings.PLOT_IMAGE if image else PlotSettings.PLOT_NONE

def run(case, image, tmp):
    'plot data of a run (None if there is no initial state), and what was drawn: a list of polygons and points per subplot'

    import matplotlib.pyplot as plt

    core, init, _, _, _ = model.build(case['spec'])
    # plot settings are given before the Core object is made
    set_plot(case, core.settings, tmp, image)
    core = model.bounded_core(core.hybrid_automaton, core.settings)
    core.steps_left = 200
    drawn = None

    try:
        result = core.run(init)

        if image:
            drawn = []

            for ax in plt.gcf().axes:
                polys = [np.array(p.vertices) for c in ax.collections if c.get_alpha() == 0.5 for p in c.get_paths()]
                points = [[float(x), float(y)] for l in ax.lines if l.get_alpha() == 0.5
                          for x, y in zip(l.get_xdata(), l.get_ydata())]
                drawn.append((polys, points))

            if not os.path.exists(os.path.join(tmp, 'plot.png')):
                raise Violation('no_image', 'no image was written')
    except RuntimeError as e:
        if 'feasible initial states' in str(e):
            return None, None

        raise
    finally:
        plt.close('all')

    return result.plot_data, drawn

def visited(spec):
    'all state sets of a run: (mode name, step in mode, interval of steps, set)'

    core, init, _, _, _ = model.build(spec)

    try:
        core.setup(init)
    except RuntimeError as e:
        if 'feasible initial states' in str(e):
            return None

        raise

    rv = []

    while not core.is_finished():
        core.do_step()
        state = core.aggdag.get_cur_state()

        if state is not None:
            r = model.Record(state)
            rv.append((r.mode, r.step_in_mode, (r.lo, r.hi), r.set))

        if len(rv) > 400:
            raise Discard('too many sets')

    return rv

def axis_of(a, mode, n):
    'direction in a mode, None for time'

    if isinstance(a, dict):
        a = a[mode]

    return None if a is None else np.array(c16.vec(a, n), dtype=float)

def judge(case, plot, rec, verts):
    'raises Violation if the polygon is not the one of the visited set'

    mode, _, (lo, hi), rset = rec
    n = rset.dims
    h = case['spec']['step']
    x, y = [axis_of(a, mode, n) for a in plot]
    scale = max(abs(rset.support(s * e)) for e in np.eye(n) for s in (1, -1))

    if scale > model.MAX_VALUE:
        raise Discard('large values')

    c16.check_verts(rset, x, y, [lo * h, hi * h], verts, scale)

def objects(plot_data, i):
    'list of (mode, step, verts, description)'

    return [(mode, o[2], o[0], o[3]) for mode, l in plot_data.mode_to_obj_list[i].items() for o in l]

def match(case, plot, objs, recs, sub):
    'one to one'

    groups = {}

    for r in recs:
        groups.setdefault((r[0], r[1]), []).append(r)

    for mode, step, verts, desc in objs:
        if mode not in desc or str(step) not in desc:
            raise Violation('description', f'{mode} step {step} is described as {desc}')

        cand = groups.get((mode, step), [])
        first = None

        for i, r in enumerate(cand):
            try:
                judge(case, plot, r, verts)
                cand.pop(i)
                break
            except Violation as v:
                first = first or v
        else:
            if first is None:
                raise Violation('extra', f'subplot {sub}: object in {mode} at step {step}, but no such set was visited')

            raise Violation('polygon_' + first.sig, f'subplot {sub}, {mode} at step {step}: {first.args}')

    left = [(r[0], r[1]) for l in groups.values() for r in l]

    if left:
        raise Violation('missing', f'subplot {sub}: sets which are not in the plot data (mode, step): {left}')

def inside(verts, p, margin):
    'is p inside of the convex polygon, at least margin away from its border? (False for fewer than 3 corners)'

    v = np.array(verts, dtype=float)
    area = 0.5 * sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(v, v[1:]))
    s = 1.0 if area > 0 else -1.0

    for a, b in zip(v, v[1:]):
        e = b - a
        l = np.linalg.norm(e)

        if l > 1e-12 and s * (e[0] * (p[1] - a[1]) - e[1] * (p[0] - a[0])) / l < margin:
            return False

    return True

def query(case, data):
    'get_plot_data'

    i = case['query_at'][0] % len(case['plots'])
    objs = [o for o in objects(data, i) if len(o[2]) >= 4]

    if not objs or len(objs) > 20:
        return []

    corner = np.array(objs[case['query_at'][0] % len(objs)][2], dtype=float)
    lo, hi = corner.min(axis=0), corner.max(axis=0)
    p = lo + (hi - lo) * np.array(case['query_at'][1:])
    margin = 1e-6 * (1 + np.abs(corner).max())
    got = data.get_plot_data(float(p[0]), float(p[1]), i)
    inner = [o for o in objs if inside(o[2], p, margin)]

    if got is None:
        if inner:
            raise Violation('query_missed', f'no object found at {p.tolist()}, which lies in {inner[0]}')

        return ['query:outside']

    if not inside(got[0], p, -margin):
        raise Violation('query_wrong', f'object {got[0]} returned for {p.tolist()}')

    return ['nt:query']

def check_drawn(data, drawn):
    'the image shows what was stored'

    if len(drawn) != len(data.mode_to_obj_list):
        raise Violation('subplots', f'{len(drawn)} subplots are drawn, {len(data.mode_to_obj_list)} stored')

    for i, (polys, points) in enumerate(drawn):
        polys = [p for p in polys if not (p.shape == (2, 2) and not p.any())] # deleted ones
        todo = [np.array(o[2], dtype=float) for o in objects(data, i)]
        num = len(todo)

        for p in polys:
            for j, q in enumerate(todo):
                if p.shape == q.shape and np.array_equal(p, q):
                    todo.pop(j)
                    break
            else:
                raise Violation('drawn_extra', f'subplot {i}: polygon {p.tolist()} is drawn, but not stored')

        # what is left must be small sets, drawn as markers
        for q in todo:
            if len(q) <= 2 and (not q.any() or any(list(q[0]) == pt for pt in points)):
                continue

            raise Violation('drawn_missing', f'subplot {i}: {q.tolist()} is stored, but not drawn ({num} objects)')

def check_cover(case, data):
    'all reachable sets are covered by the stored polygons'

    spec = case['spec']
    tree = model.ref_tree(spec, -1e-6)
    count = 0

    for i, plot in enumerate(case['plots']):
        if plot[0] is None or plot[1] is None:
            continue

        got = {}

        for mode, step, verts, _ in objects(data, i):
            got.setdefault((mode, step), []).append(np.array(verts, dtype=float))

        for node in tree.nodes:
            name = spec['modes'][node.mode]['name']

            for k, s in enumerate(node.sets):
                D = np.array([axis_of(a, name, s.dims) for a in plot])

                for d in ([1, 0], [-1, 0], [0, 1], [0, -1], [1, 1]):
                    p = D @ s.extreme(np.array(d) @ D)

                    if np.abs(p).max() > model.MAX_VALUE:
                        raise Discard('large values')

                    count += 1

                    if not any(in_hull(v, p) for v in got.get((name, k), [])):
                        raise Violation('not_covered', f'subplot {i}: {p.tolist()} is reachable in {name} at step {k} (path '
                                        f'{node.path}), but no stored polygon contains it')

    return count

def in_hull(v, p):
    'p in the convex polygon up to the drawing accuracy?'

    tol = 2e-3 * (1e-2 + (v.max(axis=0) - v.min(axis=0)).max()) + 1e-4 * (1 + np.abs(p).max())

    if len(v) >= 4:
        return inside(v, p, -tol)

    lo, hi = v.min(axis=0), v.max(axis=0)

    return bool((p >= lo - tol).all() and (p <= hi + tol).all())

class FakeState(): # pylint: disable=too-few-public-methods
    'what PlotData needs of a state'

    def __init__(self, mode, step):
        self.mode = type('FakeMode', (), {'name': mode})
        self.cur_step_in_mode = step

def hull(pts):
    'convex hull as a closed list of corners, a point twice for a single one'

    pts = sorted({tuple(p) for p in pts})

    def half(seq):
        'one side'

        rv = []

        for p in seq:
            while len(rv) > 1 and (rv[-1][0] - rv[-2][0]) * (p[1] - rv[-2][1]) <= (rv[-1][1] - rv[-2][1]) * (p[0] - rv[-2][0]):
                rv.pop()
            rv.append(p)

        return rv[:-1]

    rv = half(pts) + half(pts[::-1]) if len(pts) > 1 else pts

    return [list(p) for p in rv + rv[:1]]

def run_history(h):
    'PlotData against a list'

    from hylaa.result import PlotData

    data = PlotData(h['subplots'])
    items = []
    removed = 0

    for op in h['ops']:
        if op[0] == 'add':
            s = FakeState(f'm{op[1]}', op[2])
            verts = []

            for i in range(h['subplots']):
                v = hull([[x + 0.25 * i, y * (1 + i)] for x, y in op[3]])
                verts.append(v[::-1] if op[4] else v)
                data.add_state(s, verts[i], i)

            items.append((s, op[2], verts))
            s.cur_step_in_mode += 1 # the state moves on
        elif items:
            s, step, _ = items.pop(op[1] % len(items))
            data.remove_state(s, step)
            removed += 1

    for i in range(h['subplots']):
        for m in ('m0', 'm1', 'm2'):
            if data.get_verts_list(m, i) != [v[i] for s, _, v in items if s.mode.name == m]:
                raise Violation('history_verts', f'subplot {i}, {m}: {data.get_verts_list(m, i)}')

    for x, y, i in h['queries']:
        i %= h['subplots']
        got = data.get_plot_data(x, y, i)
        inner = [(s, step) for s, step, v in items if len(v[i]) >= 4 and inside(v[i], (x, y), 1e-9)]
        border = [(s, step) for s, step, v in items if len(v[i]) >= 4 and inside(v[i], (x, y), -1e-9)]

        if got is None and inner:
            raise Violation('history_missed', f'nothing found at {[x, y]} in subplot {i}, although it lies in {len(inner)} sets')

        if got is not None and (got[1], got[2]) not in border:
            raise Violation('history_wrong', f'{got} returned for {[x, y]}')

    return ['nt:history'] if len(items) > 1 and removed else ['history']

def run_case(case):
    'one case'

    if 'history' in case:
        return run_history(case['history'])

    spec = case['spec']
    deagg = spec['settings'].get('deagg', False)
    tmp = tempfile.mkdtemp(prefix='hylaa-plot-')

    try:
        data, drawn = run(case, case['image'], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    recs = visited(spec)

    if data is None or recs is None:
        if data is not None or recs is not None:
            raise Violation('init', 'the analysis has an initial state with or without plotting only')
        return ['empty_init']

    if len(data.mode_to_obj_list) != len(case['plots']):
        raise Violation('subplots', f'{len(data.mode_to_obj_list)} stored subplots instead of {len(case["plots"])}')

    objs = [objects(data, i) for i in range(len(case['plots']))]

    if any(sorted(o[:2] for o in l) != sorted(o[:2] for o in objs[0]) for l in objs):
        raise Violation('subplots_differ', 'the subplots contain different (mode, step) objects')

    for m in spec['modes']:
        for i in range(len(objs)):
            if data.get_verts_list(m['name'], i) != [o[2] for o in objs[i] if o[0] == m['name']]:
                raise Violation('verts_list', f'get_verts_list({m["name"]}, {i}) differs from the stored objects')

    labels = ['agg:' + spec['settings']['agg'], f'plots:{len(objs)}']

    if not deagg:
        for i, plot in enumerate(case['plots']):
            match(case, plot, objs[i], recs, i)
    elif not spec['settings']['stop_concrete'] and check_cover(case, data):
        labels.append('nt:cover')

    if drawn is not None:
        check_drawn(data, drawn)
        labels.append('nt:drawn')

    if case['query']:
        labels += query(case, data)

    if len(objs[0]) >= 3 and (len({o[0] for o in objs[0]}) > 1 or len(objs) > 1):
        labels.append('nt:objects')

    return labels
