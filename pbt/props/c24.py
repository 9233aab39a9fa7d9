'''C24: the results do not depend on how a model is written down'''

import copy

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching

from pbt import gen, model, ref
from pbt.runner import Discard, Violation

ID = 'C24'
QUICK = 900
THOROUGH = 12000
RULE = ('pairs of random hybrid automata (also with up to 7 variables or 40 steps) which are the same model written '
        'differently: variables permuted, measured in other units or from another origin, an independent variable added, '
        'another unit of time, inputs split, permuted, rescaled or with their constant part moved to an affine variable, '
        'conditions permuted, scaled, repeated or relaxed copies added, identity resets and other sparse formats spelled out, '
        'initial sets given in another form, modes renamed and created in another order, transitions created in another order; '
        'both are analysed with the same settings (all aggregation strategies, approximation models); oracle: the same '
        'sequence of visited state sets, related by the change of coordinates (support functions), and the same verdict and '
        'counterexample; non-trivial: at least one jump or an aggregated set')
ASSUMPTIONS = ['guards/invariants within 1e-6 of touching may go either way (such models are skipped when the results differ)',
               'template directions which by design depend on the coordinates are not compared (Arnoldi: no change of '
               'variables; box with guard directions and resets: no change of units)']

EPS = 1e-6
TOL = 1e-5
UNIT = 2.0 ** -12

KINDS = ('perm', 'scale', 'units', 'shift', 'extra', 'time', 'inputs', 'const', 'rows', 'reset', 'init', 'names',
         'order')

@st.composite
def _case(draw):
    spec = draw(gen.automaton(max_trans=3))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()), 'skip_zero': draw(st.booleans()),
                        'approx': draw(st.sampled_from([0, 0, 0, 1, 2]))}
    spec['settings'].update(draw(gen.agg_settings(('none', 'box', 'arnoldi', 'chull'), deagg=gen.chance(draw, 1, 3))))
    changes = draw(st.lists(st.sampled_from(KINDS), min_size=2, max_size=4, unique=True))

    return {'spec': spec, 'changes': changes, 'rand': [draw(gen.ints(0, 11)) for _ in range(24)]}

def strategy():
    'cases'
    return _case()

class Choices():
    'deterministic small numbers from the case'

    def __init__(self, nums):
        self.nums, self.i = nums, 0

    def pick(self, options):
        'next choice'

        self.i += 1

        return options[(self.nums[self.i % len(self.nums)] + self.i // len(self.nums)) % len(options)]

    def perm(self, n):
        'a permutation'

        rv = list(range(n))

        for i in range(n - 1, 0, -1):
            j = self.pick(range(i + 1))
            rv[i], rv[j] = rv[j], rv[i]

        return rv

def allowed(spec, changes):
    'changes for which the result is meant to stay the same'

    o = spec['settings']
    rv = list(changes)

    def drop(*kinds):
        for k in kinds:
            if k in rv:
                rv.remove(k)

    if o['agg'] == 'arnoldi':
        drop('perm', 'scale', 'units', 'shift', 'extra', 'const')
    if o['agg'] == 'box' and o.get('guard_dirs') and any(t['R'] is not None for t in spec['trans']):
        drop('scale', 'units')
    if o['approx'] == 2: # bloats by norms
        drop('scale', 'units', 'shift', 'extra', 'const', 'inputs')
    if o['agg'] == 'chull': # rank decisions with absolute tolerances
        drop('units')
    if o['agg'] != 'none':
        drop('order')
    if 'units' in rv:
        drop('scale', 'shift', 'const')

    return rv

class Rewriter():
    'writes a specification differently'

    def __init__(self, spec, changes, nums):
        self.spec = spec
        self.ch = changes
        self.c = Choices(nums)
        self.maps = [] # per mode: (E, t) with x2 = E x1 + t (+ independent components)
        self.const = 'shift' in changes or 'const' in changes
        self.extra = self.const or 'extra' in changes

    def make_maps(self):
        'one map per mode'

        dims_units = {}

        for m in self.spec['modes']:
            if m['A'] is None:
                self.maps.append(None)
                continue

            n = len(m['A'])
            E = np.eye(n)

            if 'perm' in self.ch:
                E = E[self.c.perm(n)]

            if 'scale' in self.ch:
                if n not in dims_units:
                    dims_units[n] = np.diag([2.0 ** self.c.pick([1, 0, -1, 2, -2, 3]) for _ in range(n)])

                E = E @ dims_units[n]

            if 'units' in self.ch: # everything is very small
                E = E * UNIT

            t = np.zeros(n)

            if 'shift' in self.ch:
                t = np.array([self.c.pick([0.5, 0, -1, 2, -0.25]) for _ in range(n)], dtype=float)

            if self.extra: # the additional variable comes last
                E = np.vstack([E, np.zeros((1, n))])
                t = np.append(t, 0.0)

            self.maps.append((E, t))

        self.extra_rate = 0.0

        if self.extra and not self.const and not self.spec['settings']['skip_zero']:
            self.extra_rate = self.c.pick([0.0, -0.5, 0.25])

    def inverse(self, i):
        'left inverse of the linear part'

        E, _ = self.maps[i]

        return np.linalg.pinv(E)

    def rows(self, rows, i):
        'conditions on the variables of mode i'

        if not rows:
            return []

        F = self.inverse(i)
        _, t = self.maps[i]
        rv = []

        for v, r in rows:
            g = np.array(v, dtype=float) @ F
            f = self.c.pick([UNIT, 1.0]) if 'units' in self.ch else 1.0
            rv.append([g * f, (r + float(g @ t)) * f])

        return self.vary(rv)

    def vary(self, rv):
        'other forms of the same conditions'

        if 'rows' in self.ch and rv:
            rv = [rv[j] for j in self.c.perm(len(rv))]

            for j, row in enumerate(list(rv)):
                how = self.c.pick(['scale', 'none', 'copy', 'relaxed', 'scale'])

                if how == 'scale':
                    f = 2.0 ** self.c.pick([1, -1, 2])
                    rv[j] = [row[0] * f, row[1] * f]
                elif how == 'copy':
                    rv.append([row[0].copy(), row[1]])
                elif how == 'relaxed':
                    rv.insert(0, [row[0].copy(), row[1] + 0.5])

                    if len(rv) > j + 2:
                        break

        return [[list(map(float, v)), float(r)] for v, r in rv]

    def cons(self, C, rhs):
        'conditions on inputs or fresh variables'

        rows = self.vary([[np.array(v, dtype=float), r] for v, r in zip(C, rhs)])

        return [r[0] for r in rows], [r[1] for r in rows]

    def mode(self, i, m):
        'one mode'

        if m['A'] is None:
            return copy.deepcopy(m)

        E, t = self.maps[i]
        F = self.inverse(i)
        n1 = E.shape[1]
        A = np.array(m['A'], dtype=float).reshape(n1, n1)
        A2 = E @ A @ F
        B2, U2 = None, None

        if m['B'] is not None:
            B = np.array(m['B'], dtype=float)
            C, rhs = np.array(m['U'][0], dtype=float), np.array(m['U'][1], dtype=float)

            if 'const' in self.ch: # u = u0 + u'
                u0 = np.array([self.c.pick([0.5, -1, 0.25]) for _ in range(B.shape[1])], dtype=float)
                A2[:, -1] += E @ B @ u0
                rhs = rhs - C @ u0

            if 'inputs' in self.ch:
                how = self.c.pick(['split', 'perm', 'scale'])
                p = B.shape[1]

                if how == 'split': # u = u1 / 4 + 3 u2 / 4 with both in the (convex) set
                    B = np.hstack([B * 0.25, B * 0.75])
                    C = np.vstack([np.hstack([C, np.zeros(C.shape)]), np.hstack([np.zeros(C.shape), C])])
                    rhs = np.concatenate([rhs, rhs])
                elif how == 'perm':
                    q = self.c.perm(p)
                    B, C = B[:, q], C[:, q]
                else:
                    B, C = B * 4.0, C * 4.0

            C, rhs = self.cons(C.tolist(), rhs.tolist())
            B2, U2 = (E @ B).tolist(), [C, rhs]

        if self.const: # the additional variable is 1
            A2[:, -1] -= A2[:, :-1] @ t[:-1]
        elif self.extra:
            A2[-1, -1] = self.extra_rate

        if 'time' in self.ch:
            A2 = A2 * self.time
            B2 = None if B2 is None else (np.array(B2) * self.time).tolist()

        return {'name': m['name'], 'A': (A2 + 0.0).tolist(), 'B': B2, 'U': U2, 'inv': self.rows(m['inv'], i)}

    def transition(self, t):
        'one transition'

        i, j = t['src'], t['dst']
        rv = {'src': i, 'dst': j, 'guard': self.rows(t['guard'], i), 'R': None, 'mink': None}

        if model.is_error(self.spec, j):
            # the reset into an error mode only has to keep the dimensions
            R2 = None if t['R'] is None else np.eye(self.maps[i][0].shape[0])
            rv['R'] = None if R2 is None else R2.tolist()

            return rv

        (E1, t1), (E2, t2) = self.maps[i], self.maps[j]
        F1 = self.inverse(i)
        same = t['R'] is None and E1.shape == E2.shape and np.array_equal(E1, E2) and np.array_equal(t1, t2)

        if not same or 'reset' in self.ch:
            R = np.eye(E1.shape[1]) if t['R'] is None else np.array(t['R'], dtype=float)
            R2 = E2 @ R @ F1

            if self.extra:
                R2[-1, -1] = 1.0

            if self.const:
                R2[:-1, -1] = (t2 - (E2 @ R @ F1) @ t1)[:-1]

            rv['R'] = (R2 + 0.0).tolist()

        mk = t['mink']

        if mk is not None:
            k = len(mk['C'][0])
            M = np.eye(k) if mk.get('M') is None else np.array(mk['M'], dtype=float)
            M2 = E2 @ M
            C, rhs = self.cons(mk['C'], mk['rhs'])

            if 'inputs' in self.ch:
                q = self.c.perm(k)
                M2, C = M2[:, q], np.array(C)[:, q].tolist()

            keep = mk.get('M') is None and np.array_equal(M2, np.eye(k)) and 'reset' not in self.ch
            rv['mink'] = {'M': None if keep else (M2 + 0.0).tolist(), 'C': C, 'rhs': rhs}
        elif 'reset' in self.ch and rv['R'] is not None and self.c.pick([0, 1]):
            # nothing is added
            rv['mink'] = {'M': np.zeros((E2.shape[0], 1)).tolist(), 'C': [[1.0], [-1.0]], 'rhs': [0.5, 0.5]}

        return rv

    def init(self, s):
        'one initial set'

        i = s['mode']
        E, t = self.maps[i]
        n2, n1 = E.shape
        F = self.inverse(i)
        ext = [1.0, 1.0] if self.const else [0.0, 0.5]

        if s['type'] == 'zono':
            g = [(E @ np.array(v, dtype=float)).tolist() for v in s['g']]
            c = E @ np.array(s['c'], dtype=float) + t

            if self.extra:
                c[-1] = (ext[0] + ext[1]) / 2

                if ext[0] < ext[1]:
                    g.append([0.0] * (n2 - 1) + [(ext[1] - ext[0]) / 2])

            if 'init' in self.ch:
                g = [g[k] for k in self.c.perm(len(g))]

                if g: # the sign does not matter; a generator can be split
                    g[0] = [-x for x in g[0]]
                    half = [x / 2 for x in g.pop()]
                    g += [half, list(half)]

            return {'type': 'zono', 'c': (c + 0.0).tolist(), 'g': g, 'mode': i}

        if s['type'] == 'box':
            lo = E @ np.array([b[0] for b in s['box']]) + t
            hi = E @ np.array([b[1] for b in s['box']]) + t

            if self.extra:
                lo[-1], hi[-1] = ext

            form = self.c.pick(['cons', 'zono', 'box']) if 'init' in self.ch else 'box'

            if form == 'box':
                return {'type': 'box', 'box': [[float(a), float(b)] for a, b in zip(lo, hi)], 'mode': i}

            if form == 'zono':
                g = [[float(b - a) / 2 if p == q else 0.0 for p in range(n2)] for q, (a, b) in enumerate(zip(lo, hi))]

                return {'type': 'zono', 'c': ((lo + hi) / 2).tolist(), 'g': g, 'mode': i}

            rows = []

            for q in range(n2):
                e = np.zeros(n2)
                e[q] = 1.0
                rows += [[e, float(hi[q])], [-e, float(-lo[q])]]

            rows = self.vary(rows)

            return {'type': 'cons', 'C': [r[0] for r in rows], 'rhs': [r[1] for r in rows], 'mode': i}

        rows = [[np.array(v, dtype=float) @ F, 0.0] for v in s['C']]

        for row, r in zip(rows, s['rhs']):
            row[1] = float(r + row[0] @ t)

        if self.extra:
            e = np.zeros(n2)
            e[-1] = 1.0
            rows += [[e, ext[1]], [-e, -ext[0]]]

        rows = self.vary(rows)

        return {'type': 'cons', 'C': [r[0] for r in rows], 'rhs': [r[1] for r in rows], 'mode': i}

    def rewrite(self):
        'the other specification'

        self.time = self.c.pick([2.0, 0.5, 4.0, 0.125])
        self.make_maps()
        spec = self.spec
        rv = {'step': spec['step'], 'num_steps': spec['num_steps'], 'settings': copy.deepcopy(spec['settings'])}

        if 'time' in self.ch:
            rv['step'] = spec['step'] / self.time

        rv['modes'] = [self.mode(i, m) for i, m in enumerate(spec['modes'])]
        rv['trans'] = [self.transition(t) for t in spec['trans']]
        rv['init'] = [self.init(s) for s in spec['init']]
        names = {m['name']: m['name'] for m in spec['modes']}

        if 'names' in self.ch:
            # other names (in the same order), created in another order
            ordered = sorted(m['name'] for m in spec['modes'] if m['A'] is not None)
            pool = sorted(self.c.pick(['x', 'A', 'loc_', 'mode ', '0']) + f'{k:02d}' for k in range(len(ordered)))
            new = dict(zip(ordered, pool))
            perm = self.c.perm(len(spec['modes']))
            pos = {p: k for k, p in enumerate(perm)}

            for m in rv['modes']:
                names[m['name']] = m['name'] = new.get(m['name'], m['name'])

            rv['modes'] = [rv['modes'][p] for p in perm]

            for t in rv['trans']:
                t['src'], t['dst'] = pos[t['src']], pos[t['dst']]

            for s in rv['init']:
                s['mode'] = pos[s['mode']]

        if 'order' in self.ch:
            rv['trans'] = [rv['trans'][p] for p in self.c.perm(len(rv['trans']))]
            rv['init'] = [rv['init'][p] for p in self.c.perm(len(rv['init']))]

        by_name = {m['name']: self.maps[i] for i, m in enumerate(spec['modes'])}

        return rv, names, by_name

def analyse(spec):
    '(result or None, records)'

    np.random.seed(0) # Arnoldi directions are filled up randomly

    try:
        res, records, _ = model.explore(spec)
    except AssertionError as e:
        if 'lgg approx model beta' in str(e): # a documented refusal
            raise Discard('lgg model refuses') from e

        raise

    return res, records

def moved(spec, eps):
    'every guard and invariant moved outwards'

    rv = copy.deepcopy(spec)

    for rows in [t['guard'] for t in rv['trans']] + [m['inv'] for m in rv['modes']]:
        for row in rows:
            row[1] += eps * max(1.0, float(np.abs(row[0]).sum()))

    return rv

def structure(res, records):
    'what was visited'

    if res is None:
        return None

    return [(r.mode, r.step_in_mode, r.lo, r.hi, r.concrete) for r in records] + \
        [res.has_concrete_error, res.has_aggregated_error]

def close(a, b, scale, unit):
    'supports agree'

    return np.isfinite(b) and abs(a - b) <= (TOL if unit == 1 else 1e-3) * (unit + scale)

def same_set(r1, r2, emap):
    'description of a difference, or None'

    E, t = emap
    n2, n1 = E.shape
    unit = UNIT if np.abs(E).max() < 0.01 else 1.0
    dirs = [E[:, k] / np.linalg.norm(E[:, k]) for k in range(n1)]
    mix = sum(d * (1.0, -0.5, 0.3, 0.7, -1.1, 0.2, 0.45)[k % 7] for k, d in enumerate(dirs))
    dirs += [-d for d in dirs] + [mix, -mix]

    for d in dirs:
        a, b = r1.set.support(E.T @ d), r2.set.support(d)

        if not np.isfinite(a) or not close(a + float(d @ t), b, abs(a) + abs(float(d @ t)), unit):
            return f'support in direction {np.round(d, 4).tolist()}: {a + float(d @ t)} when written one way, {b} the other way'

    return None

def describe(r, names=None):
    'mode and steps of a record'

    return f'({r.mode if names is None else names[r.mode]}, step in mode {r.step_in_mode}, steps [{r.lo}, {r.hi}], ' \
        f'{"concrete" if r.concrete else "aggregated"})'

def sequence_differs(recs1, recs2, names, maps, budget=45):
    'first difference of two runs that must be the same step by step'

    for r1, r2 in zip(recs1, recs2):
        if (names[r1.mode], r1.step_in_mode, r1.lo, r1.hi, r1.concrete) != (r2.mode, r2.step_in_mode, r2.lo, r2.hi, r2.concrete):
            return 'sequence', f'visited {describe(r1, names)} when written one way, {describe(r2)} the other way'

    if len(recs1) != len(recs2):
        return 'sequence', f'visited {len(recs1)} sets when written one way, {len(recs2)} the other way'

    every = max(1, len(recs1) // budget)

    for i in list(range(0, len(recs1), every)) + ([len(recs1) - 1] if recs1 else []):
        what = same_set(recs1[i], recs2[i], maps[recs1[i].mode])

        if what:
            return 'set', f'set at {describe(recs1[i], names)}: {what}'

    return None

def multiset_differs(recs1, recs2, names, maps):
    'first difference of two runs that visit the same sets in any order'

    by1, by2 = {}, {}

    for r in recs1:
        by1.setdefault((names[r.mode], r.step_in_mode, r.lo, r.hi, r.concrete), []).append(r)
    for r in recs2:
        by2.setdefault((r.mode, r.step_in_mode, r.lo, r.hi, r.concrete), []).append(r)

    for key in sorted(set(by1) | set(by2)):
        l1, l2 = by1.get(key, []), by2.get(key, [])

        if len(l1) != len(l2):
            return 'sequence', f'visited {len(l1)} sets at {key} when written one way, {len(l2)} the other way'

    for k, key in enumerate(sorted(by1)):
        l1, l2 = by1[key], by2[key]

        if k > 40 or len(l1) > 12:
            continue

        adj = np.array([[same_set(a, b, maps[a.mode]) is None for b in l2] for a in l1], dtype=int)
        m = maximum_bipartite_matching(csr_matrix(adj), perm_type='column') if adj.any() else np.array([-1])

        if (m >= 0).sum() < len(l1):
            return 'set', f'the {len(l1)} sets at {key} are not the same: {same_set(l1[0], l2[0], maps[l1[0].mode])}'

    return None

def verdict_differs(res1, res2, names, ordered):
    'difference of the results'

    for attr in ('has_concrete_error', 'has_aggregated_error'):
        if getattr(res1, attr) != getattr(res2, attr):
            return 'verdict', f'{attr} is {getattr(res1, attr)} when written one way, {getattr(res2, attr)} the other way'

    ces = []

    for res, nm in ((res1, names), (res2, {v: v for v in names.values()})):
        ce = [(nm[seg.mode.name], seg.steps)
              for seg in res.counterexample]
        ces.append(ce)

    if bool(ces[0]) != bool(ces[1]):
        return 'verdict', 'a counterexample exists only when written one way'

    if ordered and [c[0] for c in ces[0]] != [c[0] for c in ces[1]]:
        return 'verdict', f'counterexample through {ces[0]} when written one way, {ces[1]} the other way'

    if ordered and ces[0] != ces[1]:
        return 'verdict', f'counterexample with segments {ces[0]} when written one way, {ces[1]} the other way'

    return None

def graze(spec, depth, nums):
    'move one guard or invariant so that it only just cuts one of the visited sets'

    res, records = analyse(spec)
    places = [(i, None, k) for i, m in enumerate(spec['modes']) if m['A'] is not None for k in range(len(m['inv']))] + \
        [(t['src'], j, k) for j, t in enumerate(spec['trans']) for k in range(len(t['guard']))]

    if res is None or not places:
        return spec

    spec = copy.deepcopy(spec)
    i, j, k = places[nums[3] % len(places)]
    mine = [r for r in records if r.mode == spec['modes'][i]['name']]

    if mine:
        row = (spec['modes'][i]['inv'] if j is None else spec['trans'][j]['guard'])[k]
        v = np.array(row[0], dtype=float)
        visited = mine[(nums[4] * 12 + nums[5]) % len(mine)].set
        at = visited.support(v) if j is None else -visited.support(-v)

        if np.isfinite(at):
            before = row[1]
            row[1] = float(at + (-depth if j is None else depth) * max(1.0, float(np.abs(v).sum())))
            rows = spec['modes'][i]['inv'] if j is None else spec['trans'][j]['guard']

            if not ref.cons_set([r[0] for r in rows], [r[1] - 1e-3 for r in rows]).feasible():
                row[1] = before # the conditions would contradict each other

    return spec

def run_case(case):
    'one case'

    spec = case['spec']
    changes = allowed(spec, case['changes'])

    if not changes: # changes which never matter
        changes = ['time', 'rows', 'names']

    if 'units' in changes:
        spec = graze(spec, 0.02, case['rand'])
    elif case['rand'][2] < 3:
        spec = graze(spec, 1e-3, case['rand'])

    other, names, maps = Rewriter(spec, changes, case['rand']).rewrite()

    # guards are strengthened only for transitions without reset, which is visible in aggregated sets
    if spec['settings']['agg'] != 'none' and spec['settings']['strengthen'] and \
            sum(t['R'] is None for t in spec['trans']) != sum(t['R'] is None for t in other['trans']):
        spec = copy.deepcopy(spec)
        spec['settings']['strengthen'] = other['settings']['strengthen'] = False

    res1, recs1 = analyse(spec)
    res2, recs2 = analyse(other)
    bad = None

    if (res1 is None) != (res2 is None):
        bad = ('no_init', 'no feasible initial states only when written one way')
    elif res1 is None:
        return ['empty_init']
    else:
        if 'order' in changes:
            bad = multiset_differs(recs1, recs2, names, maps)
        else:
            bad = sequence_differs(recs1, recs2, names, maps)

        bad = bad or verdict_differs(res1, res2, names, 'order' not in changes)

    if bad is not None:
        # is this model decided by rounding?
        want = structure(res1, recs1)

        for eps in (EPS, -EPS, 10 * EPS, -10 * EPS) + ((1e-4, -1e-4, 1e-3, -1e-3) if 'units' in changes else ()):
            if structure(*analyse(moved(spec, eps))) != want:
                raise Discard('borderline')

        raise Violation(bad[0] + ':' + spec['settings']['agg'], f'{bad[1]} (changes: {changes})')

    labels = ['nt:' + c if len(recs1) > spec['num_steps'] + 1 else c for c in changes]
    labels.append('agg:' + spec['settings']['agg'])

    if any(not r.concrete for r in recs1):
        labels.append('nt:aggregated')
    if len({r.mode for r in recs1}) > 1:
        labels.append('nt:jump')
    if res1.counterexample:
        labels.append('nt:counterexample')
    if len(recs1) and max(m[0].shape[1] for m in maps.values() if m is not None) > 3:
        labels.append('nt:many_variables')
    if spec['num_steps'] > 8:
        labels.append('nt:many_steps')

    return labels
