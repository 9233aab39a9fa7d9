'''C23: concrete replays of traces'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.runner import Discard, Violation

ID = 'C23'
QUICK = 1500
THOROUGH = 15000
RULE = ('random dynamics with piecewise constant inputs (with repeated, almost equal and missing values) simulated by '
        'check_trace.check, and random multi-mode traces given to replay_counterexample, correct or broken at one place; '
        'oracle: matrix exponentials; every sample (state and time), the final errors, the number of samples; correct traces '
        'are accepted and broken ones rejected; non-trivial: several input pieces, or several segments')
ASSUMPTIONS = ['1e-4 relative accuracy for the numerical integration']

@st.composite
def _check_case(draw):
    n = draw(gen.ints(1, 4))
    A = draw(gen.a_matrix(n))
    m = draw(gen.ints(0, 3))
    B = [[draw(gen.ints(-2, 2)) / 2 for _ in range(m)] for _ in range(n)] if m else None
    steps = draw(gen.ints(1, 9))
    inputs = []

    if m:
        while len(inputs) < steps:
            v = [draw(gen.ints(-3, 3)) / 2 for _ in range(m)]

            if inputs and gen.chance(draw, 1, 3): # differs in one component only, or slightly
                v = list(inputs[-1])
                v[draw(gen.ints(0, m - 1))] += draw(st.sampled_from([0.001, -0.001, 0.5]))

            inputs += [v] * draw(gen.ints(1, 3))

        inputs = inputs[:steps]

    kind = draw(st.sampled_from(['full', 'full', 'full', 'none', 'short']))

    return {'kind': 'check', 'A': A, 'B': B, 'steps': steps, 'h': draw(st.sampled_from([0.1, 0.25, 0.5, 1.0, 0.05])),
            'inputs': None if not m or kind == 'none' else inputs[:draw(gen.ints(1, steps))] if kind == 'short' else inputs,
            'x0': [draw(gen.ints(-8, 8)) / 4 for _ in range(n)],
            'normal': gen._vec(draw, n), 'off': draw(gen.ints(-4, 4)) / 4, # pylint: disable=protected-access
            'samples': draw(st.sampled_from([2000, 1, 10, 37, 100])), 'quick': draw(st.booleans()),
            'types': draw(st.sampled_from(['list', 'array', 'sparse']))}

@st.composite
def _replay_case(draw):
    n = draw(gen.ints(1, 3))
    segs = []

    num = draw(gen.ints(1, 3))

    for i in range(num):
        n2 = n if i == num - 1 or gen.chance(draw, 3, 4) else draw(gen.ints(1, 3))
        seg = {'A': draw(gen.a_matrix(n)), 'steps': draw(gen.ints(0, 5)), 'R': None,
               'inv': [[gen._vec(draw, n), draw(st.sampled_from([0.05, 0.5]))] for _ in range(draw(gen.ints(0, 2)))], # pylint: disable=protected-access
               'guard': [[gen._vec(draw, n), draw(st.sampled_from([0.01, 0.5]))] for _ in range(draw(gen.ints(0, 2)))]} # pylint: disable=protected-access

        if n2 != n or draw(st.booleans()):
            seg['R'] = [[draw(gen.ints(-2, 2)) / 2 for _ in range(n)] for _ in range(n2)]

        segs.append(seg)
        n = n2

    broken = draw(st.sampled_from([None, None, 'end', 'start', 'guard', 'inv', 'last_inv', 'steps']))

    return {'kind': 'replay', 'segs': segs, 'h': draw(st.sampled_from([0.1, 0.25, 0.5])), 'broken': broken,
            'x0': [draw(gen.ints(-8, 8)) / 4 for _ in range(len(segs[0]['A']))],
            'at': draw(gen.ints(0, len(segs) - 1)), 'what': draw(gen.ints(0, 5)),
            'delta': draw(st.sampled_from([0.01, -0.01, 0.3]))}

def strategy():
    'cases'
    return st.one_of(_check_case(), _replay_case())

def run_check(case): # pylint: disable=too-many-locals
    'check_trace.check'

    from scipy.sparse import csr_matrix
    from hylaa import check_trace

    A = np.array(case['A'])
    B = None if case['B'] is None else np.array(case['B'])
    h, steps = case['h'], case['steps']
    inputs = case['inputs']
    pieces = steps if inputs is None else len(inputs)
    conv = {'list': lambda x: x.tolist(), 'array': np.array, 'sparse': csr_matrix}[case['types']]
    normal = np.array(case['normal'])
    # trajectory at the ends of the steps
    xs = [np.array(case['x0'])]
    big = None

    def advance(x, u, t):
        'exact solution'

        M, G = ref.step_matrices(A, B, t)

        return M @ x + (0 if B is None or u is None else G @ np.array(u))

    for k in range(pieces):
        xs.append(advance(xs[-1], None if inputs is None else inputs[k], h))

    big = max(np.abs(x).max() for x in xs)

    if big > 1e3:
        raise Discard('large values')

    end_val = float(normal @ xs[-1]) + case['off']
    given = None if inputs is None else [list(u) for u in inputs]
    states, times, data = check_trace.check(conv(A), None if B is None else conv(B), h, steps * h, list(case['x0']),
                                            inputs, case['normal'], end_val, quick=case['quick'], stdout=False,
                                            approx_samples=case['samples'])
    per = max(1, case['samples'] // max(1, pieces))

    if len(states) != 1 + per * pieces or len(times) != len(states):
        raise Violation('samples', f'{len(states)} states and {len(times)} times, expected {1 + per * pieces}')

    if inputs is not None and [list(u) for u in inputs] != given:
        raise Violation('inputs_modified', 'the inputs were changed')

    tol = 1e-4 * (1 + big)

    # all samples at the ends of the steps, and some in between
    picks = set(range(0, len(states), per)) | set(range(0, len(states), max(1, len(states) // 15)))

    for i in sorted(picks):
        want_t = i * h / per

        if abs(times[i] - want_t) > 1e-9 * (1 + want_t):
            raise Violation('time', f'sample {i} of {per} per step is at time {times[i]}, expected {want_t}')

        k, rest = divmod(i, per)
        want = xs[k] if rest == 0 else advance(xs[k], None if inputs is None else inputs[k], rest * h / per)

        if np.abs(np.asarray(states[i]) - want).max() > tol:
            raise Violation('state', f'sample {i} (time {want_t:g}) is {states[i]}, expected {want}')

    want = abs(float(normal @ xs[-1]) - end_val)

    if abs(data.abs_error - want) > tol * np.abs(normal).sum():
        raise Violation('abs_error', f'absolute error {data.abs_error}, expected {want}')

    val = abs(float(normal @ np.asarray(states[-1])))

    if val > 0.01 and abs(data.rel_error - data.abs_error / val) > 1e-6:
        raise Violation('rel_error', f'relative error {data.rel_error}, expected {data.abs_error / val}')

    if abs(data.sim_time - steps * h) > 1e-9:
        raise Violation('sim_time', f'{data.sim_time}')

    rv = ['kind:check']

    if inputs is not None and len({tuple(u) for u in inputs}) > 1:
        rv.append('nt:inputs')

    if inputs is not None and any(a == b for a, b in zip(inputs, inputs[1:])):
        rv.append('nt:combined')

    return rv

def run_replay(case): # pylint: disable=too-many-locals,too-many-branches
    'replay_counterexample'

    from hylaa.hybrid_automaton import HybridAutomaton
    from hylaa.result import CounterExampleSegment, replay_counterexample
    from hylaa.settings import HylaaSettings

    ha = HybridAutomaton()
    modes = [ha.new_mode(f'm{i}') for i in range(len(case['segs']))] + [ha.new_mode('error')]
    x = np.array(case['x0'])
    h = case['h']
    broken = case['broken']
    done = False
    want, want_t = [], []
    t0 = 0.0
    ce = []

    for mode, seg in zip(modes, case['segs']):
        mode.set_dynamics(np.array(seg['A']))

    for i, seg in enumerate(case['segs']):
        M = ref.step_matrices(seg['A'], None, h)[0]
        xs = [x]

        for _ in range(seg['steps']):
            xs.append(M @ xs[-1])

        if max(np.abs(y).max() for y in xs) > 1e3:
            raise Discard('large values')

        here = i == case['at'] and not done
        inv = []

        for j, (v, slack) in enumerate(seg['inv']):
            vals = [float(np.dot(v, y)) for y in xs]
            rhs = max(vals[:-1] or vals) + slack

            if here and broken == 'inv' and j == case['what'] % len(seg['inv']) and len(vals) > 1:
                rhs, done = max(vals[:-1]) - slack, True

            inv.append([v, rhs])

        if inv:
            modes[i].set_invariant([v for v, _ in inv], [r for _, r in inv])

        guard = []

        for j, (v, slack) in enumerate(seg['guard']):
            rhs = float(np.dot(v, xs[-1])) + slack

            if here and broken == 'guard' and j == case['what'] % len(seg['guard']):
                rhs, done = rhs - 2 * slack, True

            guard.append([v, rhs])

        t = ha.new_transition(modes[i], modes[i + 1])

        if guard:
            t.set_guard([v for v, _ in guard], [r for _, r in guard])
        else:
            t.set_guard_true()

        if seg['R'] is not None:
            t.set_reset(np.array(seg['R']))

        s = CounterExampleSegment()
        s.mode = modes[i]
        s.start = list(xs[0])
        s.end = list(xs[-1])
        s.steps = seg['steps']
        s.outgoing_transition = t

        if here and broken == 'end':
            s.end[case['what'] % len(s.end)] += case['delta'] * (1 + np.abs(xs[-1]).max())
            done = True

        if here and broken == 'start' and i > 0:
            # a trace that is consistent in itself, but does not follow from the reset
            d = np.zeros(len(xs[0]))
            d[case['what'] % len(d)] = case['delta'] * (1 + np.abs(xs[0]).max())
            s.start = list(xs[0] + d)
            s.end = list(np.linalg.matrix_power(M, seg['steps']) @ (xs[0] + d))
            # neither guards nor invariants may be the reason
            done = True

        ce.append(s)
        want += xs
        want_t += [t0 + k * h for k in range(seg['steps'] + 1)]
        t0 += seg['steps'] * h
        x = xs[-1] if seg['R'] is None else np.array(seg['R']) @ xs[-1]

        if seg['R'] is not None and i + 1 == len(case['segs']):
            want.append(x)
            want_t.append(t0)

        if here and broken == 'steps' and np.abs(M @ xs[-1] - xs[-1]).max() > 0.01 * (1 + np.abs(xs[-1]).max()):
            s.steps += 1
            done = True

    settings = HylaaSettings(h, 10.0)

    try:
        pts, times = replay_counterexample(ce, ha, settings)
    except AssertionError as e:
        if done:
            return ['nt:rejected', 'rejected:' + broken]

        raise Violation('rejected', f'a correct trace is rejected: {e}')

    if done:
        raise Violation('accepted_' + broken, f'a trace that is broken in segment {case["at"]} ({broken}) is accepted')

    if len(pts) != len(want) or len(times) != len(want):
        raise Violation('samples', f'{len(pts)} points and {len(times)} times, expected {len(want)}')

    for p, t, a, b in zip(pts, times, want, want_t):
        if abs(t - b) > 1e-9 * (1 + b) or np.shape(p) != np.shape(a) or np.abs(p - a).max() > 1e-5 * (1 + np.abs(a).max()):
            raise Violation('state', f'replay is at {p} at time {t}, expected {a} at {b}')

    return ['kind:replay'] + (['nt:replay'] if len(ce) > 1 else [])

def run_case(case):
    'one case'

    return run_check(case) if case['kind'] == 'check' else run_replay(case)
