'''C15: simulations follow the discrete-time semantics'''

import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.runner import Discard, Violation

ID = 'C15'
QUICK = 700
THOROUGH = 6000
RULE = ('random hybrid automata without inputs and uncertain resets, random initial boxes, 1-6 simulations, all settings that '
        'concern simulations, plotted over every variable and over time; oracle: an independent simulator (expm matrices, '
        'first enabled transition, invariants) started at the first recorded point; every line must be the one of the '
        'oracle, no pending part of a simulation may be missing, starting points lie in the box; the lines must not depend '
        'on which modes are avoided or which simulations are skipped, and lie in the reachable sets; non-trivial: a '
        'transition was taken')
ASSUMPTIONS = ['cases in which a guard or invariant is decided within 1e-7 are not judged']

TOL = 1e-6
BORDER = 1e-7

class Borderline(Exception):
    'a comparison that is too close to call'

@st.composite
def _case(draw):
    spec = draw(gen.automaton(inputs=False, max_trans=4, max_init=1, init_kinds=('box',), max_steps=8, pad=False))

    for t in spec['trans']:
        t['mink'] = None

    # with urgent guards, a cycle of jumps may never end
    acyclic = all(t['src'] < t['dst'] for t in spec['trans'])
    spec['settings'] = {'urgent': draw(st.booleans()) and acyclic, 'strengthen': draw(st.booleans()), 'skip_zero': draw(st.booleans()),
                        'agg': draw(st.sampled_from(['none', 'box', 'arnoldi', 'chull']))}
    num = draw(gen.ints(1, 6))
    names = [m['name'] for m in spec['modes'] if m['A'] is not None]

    return {'spec': spec, 'num': num, 'skip': draw(gen.ints(0, num - 1)) if gen.chance(draw, 1, 3) else 0,
            'tuple': draw(st.booleans()), 'avoid': [n for n in names if draw(st.booleans())] if draw(st.booleans()) else [],
            'seed': draw(gen.ints(0, 5)), 'reach': draw(gen.ints(0, 3)) == 3, 'relation': draw(gen.ints(0, 3)) == 3}

def strategy():
    'cases'
    return _case()

def simulate(case, num, avoid, tmp):
    'run hylaa, returns lines[segment][simulation] = list of (time, x0, x1, ...)'

    import matplotlib.pyplot as plt
    from hylaa.settings import PlotSettings

    spec = case['spec']
    core, _, _, modes, _ = model.build(spec)
    init = spec['init'][0]
    s = core.settings
    s.random_seed = case['seed']
    s.plot.plot_mode = PlotSettings.PLOT_IMAGE
    s.plot.filename = os.path.join(tmp, 'sim.png')
    s.plot.plot_size = (3, 3)
    # only dimensions which exist in all modes can be plotted
    dims = min(len(m['A']) for m in spec['modes'] if m['A'] is not None)
    full = [len(m['A']) for m in spec['modes'] if m['A'] is not None]

    if min(full) != max(full):
        raise Discard('different dimensions')

    s.plot.xdim_dir = [None] * dims
    s.plot.ydim_dir = list(range(dims))

    if spec['settings']['agg'] != 'none':
        s.aggstrat.sim_avoid_modes = avoid

    from hylaa.core import Core

    core = Core(core.hybrid_automaton, s) # draws the random numbers after the seed was set

    try:
        result = core.simulate(modes[init['mode']], [tuple(b) for b in init['box']], num)
    finally:
        plt.close('all')

    lines = result.sim_lines

    if len(lines) != dims:
        raise Violation('subplots', f'{len(lines)} lists of lines for {dims} subplots')

    rv = []

    if len({len(l) for l in lines}) != 1:
        raise Violation('segments', f'number of segments differs between subplots: {[len(l) for l in lines]}')

    for seg in range(len(lines[0])):
        if len({len(l[seg]) for l in lines}) != 1:
            raise Violation('segments', 'number of lines differs between subplots')

        cur = []

        for sim in range(len(lines[0][seg])):
            parts = [np.array(l[seg][sim], dtype=float) for l in lines]

            if len({p.shape for p in parts}) != 1 or parts[0].ndim != 2 or parts[0].shape[1] != 2:
                raise Violation('lines', f'lines of different shape in the subplots: {[p.shape for p in parts]}')

            if any(np.abs(p[:, 0] - parts[0][:, 0]).max() > 1e-9 for p in parts):
                raise Violation('lines', 'times differ between the subplots')

            cur.append(np.column_stack([parts[0][:, 0]] + [p[:, 1] for p in parts]))

        rv.append(cur)

    return rv

class Oracle():
    'independent simulator'

    def __init__(self, spec):
        self.spec = spec
        self.mats = {}
        self.took = False

        self.trans = {}

        for i, m in enumerate(spec['modes']):
            if m['A'] is not None:
                self.mats[i] = ref.step_matrices(m['A'], None, spec['step'])[0]

            self.trans[i] = [t for t in spec['trans'] if t['src'] == i]

    @staticmethod
    def holds(rows, x):
        'do all constraints hold?'

        rv = True

        for v, rhs in rows:
            val = np.dot(v, x) - rhs

            if abs(val) < BORDER * (1 + np.abs(x).max()):
                raise Borderline()

            rv = rv and val < 0

        return rv

    def guard(self, t):
        'guard rows'

        rows = list(t['guard'])

        if self.spec['settings']['strengthen'] and t['R'] is None and t['src'] != t['dst']:
            rows += self.spec['modes'][t['dst']]['inv']

        return rows

    def line(self, mode, x, k):
        'returns (line, successor or None)'

        h, num = self.spec['step'], self.spec['num_steps']
        m = self.spec['modes'][mode]
        line = [[k * h] + list(x)]
        first = True

        while k < num:
            if not first or self.spec['settings']['urgent']:
                for t in self.trans[mode]:
                    if self.holds(self.guard(t), x):
                        self.took = True
                        post = x if t['R'] is None else np.array(t['R'], dtype=float) @ x
                        line.append([k * h] + list(post))

                        if self.spec['modes'][t['dst']]['A'] is None:
                            return line, None

                        return line, (t['dst'], post, k)

            if not self.holds(m['inv'], x):
                break

            x = self.mats[mode] @ x
            k += 1
            first = False
            line.append([k * h] + list(x))

            if np.abs(x).max() > model.MAX_VALUE:
                raise Discard('numerically diverging model')

        return line, None

def same(a, b):
    'equal lines?'

    a, b = np.array(a), np.array(b)

    return a.shape == b.shape and bool((np.abs(a - b) <= TOL * (1 + np.abs(b))).all())

def check_lines(case, lines, num):
    'compare with the oracle; returns True if any transition was taken'

    spec = case['spec']
    init = spec['init'][0]
    box = init['box']
    oracle = Oracle(spec)

    if not lines or len(lines[0]) != num:
        raise Violation('number', f'{len(lines[0]) if lines else 0} simulations instead of {num}')

    pending = []

    for l in lines[0]:
        x = l[0][1:]

        if abs(l[0][0]) > 1e-12 or any(v < lo - 1e-9 or v > hi + 1e-9 for v, (lo, hi) in zip(x, box)):
            raise Violation('start', f'simulation starts at time {l[0][0]} in {x.tolist()}, which is not in the box {box}')

        pending.append((init['mode'], x, 0))

    for si, seg in enumerate(lines):
        modes = set()

        for l in seg:
            match = None

            for p in pending:
                if same([l[0]], [[p[2] * spec['step']] + list(p[1])]):
                    match = p
                    break

            if match is None:
                raise Violation('unexplained', f'segment {si} has a line starting at {l[0].tolist()}, where no simulation is '
                                f'pending: {[(p[0], p[1].tolist(), p[2]) for p in pending]}')

            pending = [p for p in pending if p is not match]
            modes.add(match[0])
            want, succ = oracle.line(*match)

            if not same(l, want):
                raise Violation('line', f'line in mode {spec["modes"][match[0]]["name"]} is {np.round(l, 6).tolist()}, '
                                f'expected {np.round(want, 6).tolist()}')

            if succ is not None:
                pending.append(succ)

        if len(modes) > 1:
            raise Violation('mixed_modes', 'a segment contains lines of several modes')

    if pending:
        raise Violation('missing', f'simulations end although they continue in {[(p[0], p[1].tolist(), p[2]) for p in pending]}')

    return oracle.took

def check_reach(case, lines):
    'simulated points are in the reachable sets'

    spec = case['spec']
    result, records, _ = model.explore(spec)
    got = {}

    for r in records:
        for k in range(r.lo, r.hi + 1):
            got.setdefault(k, []).append(r)

    for seg in lines:
        for l in seg:
            # the last point may be outside of all sets if the simulation jumped to an error
            for row in l[:-1]:
                k, x = int(round(row[0] / spec['step'])), row[1:]

                if result is None or not any(r.set.dims == len(x) and ref.distance(r.set, x) <= 1e-5 * (1 + np.abs(x).max())
                                             for r in got.get(k, [])):
                    return (k, x)

    return None

def run_case(case):
    'one case'

    spec = case['spec']
    tmp = tempfile.mkdtemp(prefix='hylaa-sim-')

    try:
        skip, num = case['skip'], case['num']
        arg = (skip, num) if skip or case['tuple'] else num
        lines = simulate(case, arg, case['avoid'], tmp)
        labels = []

        try:
            took = check_lines(case, lines, num - skip)
        except Borderline:
            return ['borderline']

        if case['relation']:
            other = simulate(case, num, [], tmp)
            a = [l[0] for l in lines[0]]
            b = [l[0] for l in other[0]][skip:]

            if len(a) != len(b) or not all(np.array_equal(x, y) for x, y in zip(a, b)):
                raise Violation('skip', f'simulations {skip}..{num} start in {np.array(a).tolist()}, the same ones of all '
                                f'simulations in {np.array(b).tolist()}')

            again = simulate(case, arg, case['avoid'], tmp)

            if len(again) != len(lines) or not all(len(s) == len(t) and all(np.array_equal(x, y) for x, y in zip(s, t))
                                                   for s, t in zip(again, lines)):
                raise Violation('not_reproducible', 'the same simulation gives different lines')

            labels.append('relation')

        if case['reach'] and not spec['settings']['skip_zero']:
            box = spec['init'][0]['box']
            inv = spec['modes'][spec['init'][0]['mode']]['inv']

            # simulations from outside of the invariant end at once, the analysis cuts them off
            if all(Oracle.holds(inv, l[0][1:]) for l in lines[0]) and box:
                bad = check_reach(case, lines)

                if bad is not None:
                    raise Violation('not_in_reach', f'simulated point {bad[1].tolist()} at step {bad[0]} is in no reachable set')

                labels.append('reach')
    except Borderline:
        return ['borderline']
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    if took:
        labels.append('nt:transition')
    if len(lines) > 2:
        labels.append('nt:several_segments')
    if any(len(l) < spec['num_steps'] + 1 for l in lines[0]) and not took:
        labels.append('nt:left_invariant')

    return labels
