'''C07: approximation models (convex hull, continuous-time)'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.props import c02
from pbt.runner import Discard, Violation

ID = 'C07'
QUICK = 700
THOROUGH = 9000
RULE = ('random hybrid automata run with the convex-hull and the Le-Guernic-Girard approximation model, all aggregation '
        'strategies; (1) without aggregation the visited sets are compared by support functions with an independent '
        'evaluation of the documented model (bracketed by 1e-6), (2) continuous-time executions sampled between the steps '
        '(several phases, initial points, time-varying inputs, jumps at any sampled time) must lie in the visited sets of '
        'the LGG model, (3) errors hit by such executions must be reported; non-trivial: a jump, inputs or an invariant '
        'together with an approximation model')
ASSUMPTIONS = ['executions stay at least one time step in a mode before a jump unless urgent guards are enabled (the first '
               'set of a mode is not checked against guards by design)',
               'input sets for which the model refuses to work (beta outside 1e-7..1e5) are outside the domain']

EPS = 1e-6
TOL = 1e-5

@st.composite
def _case(draw):
    spec = draw(gen.automaton(max_trans=3, max_steps=6))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()),
                        'skip_zero': draw(st.booleans()), 'approx': draw(gen.ints(1, 2))}
    spec['settings'].update(draw(gen.agg_settings(('none', 'none', 'box', 'arnoldi', 'chull'),
                                                  deagg=gen.chance(draw, 1, 3))))
    spec['pattern'] = [draw(gen.ints(0, 3)) for _ in range(8)]

    return spec

def strategy():
    'cases'
    return _case()

def sat(rows, x):
    'inside with margin?'

    return all(np.dot(v, x) <= r - EPS * max(1.0, np.abs(v).sum()) for v, r in rows)

class Runs():
    'continuous-time executions'

    def __init__(self, spec, budget):
        self.spec, self.budget = spec, budget
        self.visits = [] # (mode index, step in mode, start step of the mode, point, description)
        self.errors = []
        self.mats = {}

    def matrices(self, mi, dt):
        'exact discretisation'

        if (mi, dt) not in self.mats:
            m = self.spec['modes'][mi]
            self.mats[mi, dt] = ref.step_matrices(m['A'], m['B'], dt)

        return self.mats[mi, dt]

    def inputs(self, mi, i):
        'some extreme input'

        m = self.spec['modes'][mi]

        if m['B'] is None:
            return None

        s = ref.cons_set(*m['U'])
        d = [[1, 0.5], [-1, -0.5], [0.5, -1], [-0.5, 1]][self.spec['pattern'][i % 8]][:s.dims]

        return s.extreme(d)

    def go(self, mi, x, start, phase, depth):
        '''mode mi entered at point x; time in mode = k h + phase h.  visits at that phase only (plus phase 0 at entry)'''

        spec = self.spec
        m = spec['modes'][mi]
        h = spec['step']

        if not sat(m['inv'], x):
            return

        self.visits.append((mi, 0, start, x.copy()))
        M, G = self.matrices(mi, phase * h)
        u = self.inputs(mi, depth)
        x = M @ x + (G @ u if u is not None else 0.0)
        k = 0
        half = self.matrices(mi, h / 2)

        while True:
            self.visits.append((mi, k, start, x.copy()))

            if k > 0 or spec['settings']['urgent']:
                for j, t in enumerate(spec['trans']):
                    if t['src'] != mi or not sat(t['guard'], x):
                        continue

                    if model.is_error(spec, t['dst']):
                        self.errors.append((mi, k, start, x.copy(), j))
                        continue

                    if self.budget <= 0 or depth >= 3:
                        continue

                    self.budget -= 1
                    y = (np.eye(len(x)) if t['R'] is None else np.array(t['R'])) @ x

                    if t['mink'] is not None:
                        c = ref.cons_set(t['mink']['C'], t['mink']['rhs'])
                        p = c.extreme([1.0] * c.dims)
                        y = y + (p if t['mink']['M'] is None else np.array(t['mink']['M']) @ p)

                    self.go(t['dst'], y, start + k, [0.5, 1.0, 0.25, 0.0][spec['pattern'][depth + 4]], depth + 1)

            if not sat(m['inv'], x) or start + k >= spec['num_steps'] or \
                    (k == 1 and spec['settings']['skip_zero'] and m['B'] is None and not np.any(np.array(m['A']))):
                return

            for i in range(2):
                u = self.inputs(mi, depth + 2 * k + i)
                x = half[0] @ x + (half[1] @ u if u is not None else 0.0)

            k += 1

def check_runs(spec, records, res):
    'sampled executions are covered'

    runs = Runs(spec, 25)

    for s in spec['init']:
        rset = ref.init_set(s)

        for d in ref.directions(rset.dims, num_random=0)[:4]:
            x = rset.extreme(d)

            for phase in (0.5, 0.3):
                runs.go(s['mode'], np.array(x), 0, phase, 0)

    if any(np.abs(x).max() > model.MAX_VALUE for _, _, _, x in runs.visits):
        raise Discard('numerically diverging model')

    got = {}

    for r in records:
        got.setdefault((r.mode, r.step_in_mode), []).append(r)

    for mi, k, start, x in runs.visits:
        # with skipping, the mode is left right after its guards were checked
        m = spec['modes'][mi]

        if k > 0 and spec['settings']['skip_zero'] and m['B'] is None and not np.any(np.array(m['A'])):
            continue

        cands = [r for r in got.get((m['name'], k), []) if r.lo <= start + k <= r.hi]
        t = TOL * (1 + np.abs(x).max())

        if not any(ref.distance(r.set, x) <= t for r in cands):
            raise Violation('continuous_missed', f'state {x.round(6).tolist()} of a continuous-time execution in mode '
                            f'{m["name"]} (step {k} in mode, {start + k} in total) is in none of the {len(cands)} '
                            f'visited sets')

    if runs.errors and not (res.has_aggregated_error or res.has_concrete_error):
        raise Violation('error_missed', f'a continuous-time execution takes transition {runs.errors[0][4]} to an error '
                        f'mode from {runs.errors[0][3].round(6).tolist()}, but the result is safe')

    return runs

def run_case(spec):
    'one case'

    if spec['settings']['approx'] == 2:
        for m in spec['modes']:
            if m['A'] is not None:
                b = ref.lgg_beta(m['A'], m['B'], m['U'], spec['step'])
                if b is not None and not 1.1e-7 < b < 9e4:
                    raise Discard('refused by the model')

    enlarged = model.ref_tree(spec, EPS, max_nodes=40)

    if enlarged.truncated:
        raise Discard('too many paths')

    shrunk = model.ref_tree(spec, -EPS, max_nodes=40)
    res, records, _ = model.explore(spec)

    if res is None:
        if shrunk.nodes:
            raise Violation('no_init', 'analysis found no feasible initial states, but there are some')
        return ['empty_init']

    kind = ['', 'chull', 'lgg'][spec['settings']['approx']]
    labels = ['agg:' + spec['settings']['agg'], kind]

    if spec['settings']['agg'] == 'none':
        c02.compare(spec, records, shrunk, enlarged)

        if shrunk.errors and not res.has_concrete_error:
            raise Violation('error_missed', f'error reachable via {shrunk.errors[0][0]} but not reported')

        if res.has_concrete_error and not enlarged.errors:
            raise Violation('false_error', 'error reported but not reachable in the approximation model')

    if kind == 'lgg':
        runs = check_runs(spec, records, res)

        if any(v[2] > 0 for v in runs.visits):
            labels.append('nt:continuous_jump')
        if any(v[1] > 0 and spec['modes'][v[0]]['inv'] for v in runs.visits):
            labels.append('nt:continuous_invariant')
    else:
        from pbt.props import c01
        c01.check_cover(spec, records, model.ref_tree(spec, -EPS, max_nodes=60, approx=0), TOL)

    if len(shrunk.nodes) > 1:
        labels.append('nt:jump')
    if any(spec['modes'][n.mode]['B'] is not None for n in shrunk.nodes):
        labels.append('nt:inputs')
    if any(spec['modes'][n.mode]['inv'] for n in shrunk.nodes):
        labels.append('nt:invariant')
    if any(r.lo < r.hi for r in records):
        labels.append('nt:aggregated')
    if res.has_concrete_error or res.has_aggregated_error:
        labels.append('nt:error')

    return labels
