'''C20: time is accounted for exactly'''

import contextlib
import io
import os
import re
import shutil
import tempfile
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model
from pbt.runner import Discard, Violation

ID = 'C20'
QUICK = 2500
THOROUGH = 15000
RULE = ('random step sizes and time bounds, given as decimal numbers (also not representable in binary), integers or fractions, '
        'and models which go deterministically through 1-4 modes, analysed with all waiting-list and aggregation settings, '
        'printed, stored over time and simulated; oracle: exact rational arithmetic on the numbers as written; non-trivial: the '
        'bound is a multiple of the step size, or at least one jump')
ASSUMPTIONS = ['a decimal time bound means the decimal number that was written, not its binary rounding']

@st.composite
def _case(draw):
    # the step size as written
    h = draw(st.sampled_from(['0.1', '0.01', '0.05', '0.2', '0.3', '0.7', '0.25', '0.5', '1', '2', '0.001', '0.02', '0.15', '1.1',
                              '0.06', '0.35', '0.125', '0.003']))
    k = draw(st.one_of(gen.ints(1, 40), gen.ints(1, 12)))
    part = draw(st.sampled_from(['0', '0', '0', '0.5', '0.25', '0.9', '0.1']))
    modes, at = [], 0
    last = draw(st.sampled_from(['time', 'time', 'error', 'inv']))

    for i in range(draw(gen.ints(0, 3))):
        at += draw(gen.ints(1, max(1, k // 2)))
        modes.append(at)

    return {'h': h, 'k': k, 'part': part, 'type': draw(st.sampled_from(['float', 'float', 'number', 'numpy'])), 'jumps': modes,
            'last': last, 'end': at + draw(gen.ints(1, max(2, k // 2))), 'reset': draw(st.booleans()),
            'agg': draw(st.sampled_from(['none', 'box', 'chull', 'arnoldi'])), 'pop': draw(gen.ints(0, 2)),
            'urgent': draw(st.booleans()), 'tt': draw(st.booleans()), 'affine': draw(st.sampled_from([1.0, 1.0, 2.0, 0.5])),
            'sim': gen.chance(draw, 1, 12), 'stdout': draw(gen.ints(0, 1)), 'wide': draw(st.booleans()),
            'w': draw(st.sampled_from([0, 0, 1, 2, 3]))}

def strategy():
    'cases'
    return _case()

def build(c):
    'the automaton: a clock, a constant and a total clock'

    from hylaa.hybrid_automaton import HybridAutomaton

    h = float(c['h'])
    r = c['affine']
    ha = HybridAutomaton()
    points = list(c['jumps']) + ([c['end']] if c['last'] != 'time' else [])
    modes = [ha.new_mode(f'm{i}') for i in range(len(c['jumps']) + 1)]

    for m in modes:
        m.set_dynamics([[0, r, 0], [0, 0, 0], [0, 1.0, 0]])

    if c['last'] == 'error':
        modes.append(ha.new_mode('error'))

    prev = 0

    for i, at in enumerate(points):
        steps = at - prev if c['reset'] else at
        limit = r * h * (steps - float(fraction(i))) # reached about halfway between two steps
        modes[i].set_invariant([[1.0, 0, 0]], [limit])

        if i + 1 < len(modes):
            t = ha.new_transition(modes[i], modes[i + 1])
            t.set_guard([[-1.0, 0, 0]], [-limit])

            if c['reset'] and not modes[i + 1].is_error():
                t.set_reset([[0, 0, 0], [0, 1, 0], [0, 0, 1]])

        prev = at

    return ha, modes[0]

def settings(c):
    'settings from the numbers as written'

    from hylaa.settings import HylaaSettings
    from hylaa.aggstrat import Aggregated, Unaggregated

    bound = Fraction(c['h']) * (c['k'] - Fraction(c['part']))
    conv = {'float': float, 'numpy': np.float64,
            'number': lambda s: int(s) if float(s) == int(float(s)) else float(s)}[c['type']]
    text = format(float(bound), '.12g') # the decimal number (finitely many digits)
    assert Fraction(text) == bound, text
    s = HylaaSettings(conv(c['h']), conv(text))
    s.stdout = c['stdout']
    s.process_urgent_guards = c['urgent']
    s.optimize_tt_transitions = c['tt']
    s.stop_on_concrete_error = False
    s.stop_on_aggregated_error = False

    if c['agg'] == 'none':
        s.aggstrat = Unaggregated()
    else:
        s.aggstrat = Aggregated({'box': Aggregated.AGG_BOX, 'chull': Aggregated.AGG_CONVEX_HULL,
                                 'arnoldi': Aggregated.AGG_ARNOLDI_BOX}[c['agg']])
        s.aggstrat.pop_type = c['pop']

    s.plot.store_plot_result = True
    s.plot.xdim_dir = None
    s.plot.ydim_dir = 2

    return s, bound

def fraction(i):
    'the guard of the i-th mode is reached this part of a step early (different ones, so that guards do not just touch sets)'

    return Fraction(5 + i % 4, 10)

class State():
    'a set of states: mode, range of the clock in steps, range of the total steps, step in the mode'

    def __init__(self, mode, lo, hi, start, path):
        self.mode, self.lo, self.hi, self.start, self.path = mode, lo, hi, start, path

def initial_width(c):
    'width of the initial set of the clock in steps'

    points = list(c['jumps']) + ([c['end']] if c['last'] != 'time' else [])

    return min(c['w'], points[0] - 1) if points else c['w']

def expected(c):
    '''[(mode, step in mode, (first step, last step))] of every set, the errors [(first step, last step, path)]

    path: number of steps in each mode if nothing was aggregated
    '''

    rv, errors = [], []
    points = list(c['jumps']) + ([c['end']] if c['last'] != 'time' else [])
    waiting = [State(0, Fraction(0), Fraction(initial_width(c)), (0, 0), [])]

    while waiting:
        s = waiting.pop(0)
        i = s.mode
        limit = None

        if i < len(points):
            limit = points[i] - (points[i - 1] if c['reset'] and i > 0 else 0) - fraction(i)

        k, lo, hi = 0, s.lo, s.hi
        new = []

        while True:
            if limit is not None and lo > limit and k == 0:
                break # never visited

            rv.append((f'm{i}', k, (s.start[0] + k, s.start[1] + k)))

            if limit is not None and k == 0 and hi >= limit and c['urgent']:
                raise Discard('touches an urgent guard')

            if s.start[0] + k >= c['k'] or limit is not None and lo > limit:
                break

            if limit is not None:
                hi = min(hi, limit)

            k, lo, hi = k + 1, lo + 1, hi + 1

            if limit is not None and hi >= limit and (i + 1 < len(c['jumps']) + 1 or c['last'] == 'error'):
                post = (max(lo, limit), hi) if not c['reset'] else (Fraction(0), Fraction(0))

                if i + 1 < len(points) and not c['reset'] and post[0] > points[i + 1] - fraction(i + 1):
                    continue # outside the next invariant

                path = None if s.path is None else s.path + [k]
                new.append(State(i + 1, post[0], post[1], (s.start[0] + k, s.start[1] + k), path))

        if i + 1 > len(c['jumps']): # into the error mode
            errors += [(n.start, n.path) for n in new]
        elif c['agg'] != 'none' and len(new) > 1:
            waiting.append(State(i + 1, min(n.lo for n in new), max(n.hi for n in new),
                                 (min(n.start[0] for n in new), max(n.start[1] for n in new)), None))
        else:
            waiting += new

    return rv, errors

def run_case(c): # pylint: disable=too-many-branches,too-many-locals
    'one case'

    from hylaa import lputil
    from hylaa.core import Core
    from hylaa.settings import PlotSettings
    from hylaa.stateset import StateSet

    h = Fraction(c['h'])
    want, errors = expected(c)
    concrete = [(start[0], path) for start, path in errors if path is not None]
    s, bound = settings(c)
    box = [(0, float(h) * c['affine'] * initial_width(c)), (1, 1), (0, 1 if c['wide'] else 0)]
    ha, mode = build(c)
    core = Core(ha, s)
    out = io.StringIO()
    got = []

    class Observed(type(core)):
        'records the visited sets'

        def do_step(self):
            'one step'

            super().do_step()
            state = self.aggdag.get_cur_state()

            if state is not None and not state.mode.is_error():
                got.append((state.mode.name, state.cur_step_in_mode, tuple(state.cur_steps_since_start)))

    core.__class__ = Observed

    with contextlib.redirect_stdout(out):
        res = core.run([StateSet(lputil.from_box(box, mode), mode)])

    want_rec = want
    what = f'step {c["h"]}, time bound {float(bound):.12g}'

    if max([g[2][1] for g in got], default=0) != max(w[2][1] for w in want_rec):
        raise Violation('bound', f'{what}: the last set is at step {max(g[2][1] for g in got)}, expected '
                        f'{max(w[2][1] for w in want_rec)}')

    if sorted(got) != sorted(want_rec):
        a, b = set(got), set(want_rec)
        raise Violation('steps', f'{what}: sets {sorted(a ^ b)[:4]} are visited or expected, but not both '
                        f'(or more than once)')

    if bool(res.has_concrete_error) != bool(concrete) or bool(res.has_aggregated_error) != (len(errors) > len(concrete)):
        raise Violation('verdict', f'{what}: error reported: {res.has_concrete_error}, {res.has_aggregated_error}; '
                        f'reached: {errors}')

    last = res.last_cur_state.cur_steps_since_start

    if not errors and tuple(last) not in [w[2] for w in want if w[0] == want[-1][0]]:
        raise Violation('last_state', f'{what}: last_cur_state is at {last}, expected {want[-1][2]}')

    if concrete:
        ce = res.counterexample

        if [x.steps for x in ce] not in [p for _, p in concrete]:
            raise Violation('counterexample', f'{what}: the counter-example has {[x.steps for x in ce]} steps, expected '
                            f'{concrete[0][1]}')

    if errors and c['stdout'] == 1:
        check_print(out.getvalue(), errors, h)

    # plot data over time: (time, total clock)
    stored = []

    for objs in res.plot_data.mode_to_obj_list[0].values():
        for verts, state, step, _ in objs:
            ts = [float(v[0]) for v in verts]
            stored.append((state.mode.name, step, min(ts), max(ts), min(float(v[1]) for v in verts),
                           max(float(v[1]) for v in verts)))

    width = 1.0 if c['wide'] else 0.0
    near = lambda a, b: abs(a - b) <= 1e-6 * (1 + abs(b))

    for m, j, (lo, hi) in want:
        t1, t2 = float(h * lo), float(h * hi)
        ok = [x for x in stored if x[:2] == (m, j) and near(x[2], t1) and near(x[3], t2)]
        count = want.count((m, j, (lo, hi)))

        if len(ok) != count:
            raise Violation('plot_time', f'{what}: mode {m} step {j} is stored at times '
                            f'{[x[2:4] for x in stored if x[:2] == (m, j)]}, expected {count}x [{t1}, {t2}]')

        # an aggregated set that was cut may have lost some of the times
        if not all(near(x[4], t1) and near(x[5], t2 + width) if lo == hi else
                   x[4] >= t1 - 1e-6 * (1 + t1) and x[5] <= t2 + width + 1e-6 * (1 + t2) for x in ok):
            raise Violation('plot_time', f'{what}: mode {m} step {j} stored at time [{t1}, {t2}], but the clock shows '
                            f'{[x[4:] for x in ok]}')

    if c['sim'] and not c['w']:
        tmp = tempfile.mkdtemp(prefix='c20')

        try:
            check_sim(c, want[-1][2][0], h, os.path.join(tmp, 'x.png'), what)
        finally:
            shutil.rmtree(tmp)

    labels = ['last:' + c['last']]

    if c['part'] == '0':
        labels.append('nt:multiple')
    if len({w[0] for w in want}) > 1:
        labels.append('nt:jump')
    if any(w[2][0] < w[2][1] for w in want):
        labels.append('nt:interval')

    return labels

def check_print(text, errors, h):
    'the reported steps and times of the first errors'

    for kind in ('concrete', 'aggregated'):
        steps = [start for start, path in errors if (path is not None) == (kind == 'concrete')]

        for line in text.splitlines():
            if f'({kind})' not in line or 'Step' not in line:
                continue

            nums = [Fraction(x) for x in re.findall(r'\d+\.?\d*(?:e-?\d+)?', line)]

            if not any(all(x in nums and any(abs(y - h * x) <= Fraction(1, 10**9) for y in nums) for x in st) for st in steps):
                raise Violation('printed', f'errors are reached after {steps} steps at times '
                                f'{[[float(h * x) for x in st] for st in steps]}, the output says {[float(x) for x in nums]}')

def check_sim(c, steps, h, filename, what):
    'a simulation takes the same steps'

    import matplotlib.pyplot as plt
    from hylaa.core import Core
    from hylaa.settings import PlotSettings

    s, _ = settings(c)
    s.stdout = 0
    s.plot.plot_mode = PlotSettings.PLOT_IMAGE
    s.plot.filename = filename
    ha, mode = build(c)

    try:
        res = Core(ha, s).simulate(mode, [(0, 0), (1, 1), (0, 0)], 1)
    finally:
        plt.close('all')

    pts = [p for seg in res.sim_lines[0] for line in seg for p in line]
    top = max(p[0] for p in pts)
    end = float(h * steps)

    # the step at which the invariant is left without a transition may also be shown
    if not end - 1e-6 * (1 + end) <= top <= end + 1e-6 * (1 + end):
        raise Violation('simulation', f'{what}: the simulation ends at {top}, expected {end}')

    for p in pts:
        if abs(p[0] - p[1]) > 1e-6 * (1 + end):
            raise Violation('simulation', f'{what}: the point {p} is drawn at the wrong time')
