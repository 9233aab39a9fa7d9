'''C04: counterexamples are real executions'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.props import c03
from pbt.runner import Discard, Violation

ID = 'C04'
QUICK = 1200
THOROUGH = 15000
RULE = ('random hybrid automata with an error mode (inputs, invariants, uncertain resets, urgent guards, deaggregation); '
        'every reported counterexample is replayed with an independent simulation: start in an initial set, input values '
        'in the input set, invariants along the way, segment ends, guards, resets with their uncertain terms, chaining, '
        'time bound; non-trivial: a counterexample was produced')
ASSUMPTIONS = ['replay tolerance 1e-5 relative']

TOL = 1e-5

@st.composite
def _case(draw):
    spec = draw(gen.automaton(min_error=1, max_trans=3))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()),
                        'skip_zero': draw(st.booleans()), 'stop_concrete': draw(st.booleans())}
    spec['settings'].update(draw(gen.agg_settings(('none', 'none', 'none', 'box', 'arnoldi', 'chull'), deagg=True)))

    return spec

def strategy():
    'cases'
    return _case()

def sat(rows, x, tol):
    'worst violation of rows at x'

    worst = -np.inf

    for v, r in rows:
        worst = max(worst, (np.dot(v, x) - r) / max(1.0, np.abs(v).sum()))

    return worst <= tol

def check_counterexample(spec, ce, ha): # pylint: disable=too-many-locals,too-many-branches
    'raises Violation unless ce is an execution into an error mode'

    if not ce:
        raise Violation('ce_empty', 'no counterexample for a concrete error')

    names = [m['name'] for m in spec['modes']]
    htrans = list(ha.transitions)
    total = 0
    expected_start = None

    for i, seg in enumerate(ce):
        mi = names.index(seg.mode.name)
        m = spec['modes'][mi]
        n = len(m['A'])
        start = np.array(seg.start, dtype=float)
        end = np.array(seg.end, dtype=float)

        if start.shape != (n,) or end.shape != (n,):
            raise Violation('ce_shape', f'segment {i} in {n}-dimensional mode {m["name"]} has start {seg.start} and end '
                            f'{seg.end}')

        scale = 1 + np.abs(start).max() + np.abs(end).max()
        tol = TOL * scale

        if i == 0:
            ok = [s for s in spec['init'] if s['mode'] == mi and ref.distance(ref.init_set(s), start) <= tol]

            if not ok:
                raise Violation('ce_init', f'start {start.tolist()} is in no initial set of mode {m["name"]}')
        elif np.abs(start - expected_start).max() > tol:
            raise Violation('ce_reset', f'segment {i} starts at {start.tolist()}, the reset gives {expected_start}')

        M, G = ref.step_matrices(m['A'], m['B'], spec['step'])
        x = start.copy()
        inputs = [np.array(u, dtype=float) for u in seg.inputs]

        if m['B'] is not None and len(inputs) != seg.steps:
            raise Violation('ce_inputs', f'segment {i}: {seg.steps} steps but {len(inputs)} inputs')

        if seg.steps == 0 and not (spec['settings'].get('urgent')):
            raise Violation('ce_urgent', f'segment {i} takes a jump without any step although urgent guards are off')

        for k in range(seg.steps):
            if not sat(m['inv'], x, tol):
                raise Violation('ce_invariant', f'segment {i}: invariant of {m["name"]} violated at step {k}: {x}')

            x = M @ x

            if m['B'] is not None:
                u = inputs[k]

                if u.shape != (len(m['B'][0]),) or not sat(list(zip(m['U'][0], m['U'][1])), u, tol):
                    raise Violation('ce_inputs', f'segment {i}: input {u.tolist()} at step {k} not in the input set')

                x = x + G @ u

        if seg.steps == 0 and not sat(m['inv'], x, tol):
            raise Violation('ce_invariant', f'segment {i}: invariant violated at entry {x}')

        if np.abs(x - end).max() > TOL * (scale + np.abs(x).max()) * 10:
            raise Violation('ce_end', f'segment {i}: replay ends at {x.tolist()}, counterexample says {end.tolist()}')

        total += seg.steps

        if seg.outgoing_transition is None or seg.outgoing_transition not in htrans:
            raise Violation('ce_transition', f'segment {i} has no outgoing transition')

        t = spec['trans'][htrans.index(seg.outgoing_transition)]

        if t['src'] != mi:
            raise Violation('ce_transition', f'transition of segment {i} does not leave mode {m["name"]}')

        if not sat(t['guard'], end, tol):
            raise Violation('ce_guard', f'segment {i}: guard not enabled at {end.tolist()}')

        if i == len(ce) - 1:
            if not model.is_error(spec, t['dst']):
                raise Violation('ce_transition', 'the last transition does not lead to an error mode')
        else:
            if names[t['dst']] != ce[i + 1].mode.name:
                raise Violation('ce_transition', f'transition of segment {i} does not lead to {ce[i+1].mode.name}')

            R = np.eye(n) if t['R'] is None else np.array(t['R'])
            expected_start = R @ end
            mk = t['mink']

            if mk is not None:
                y = np.array(seg.reset_minkowski_vars, dtype=float)
                C = np.array(mk['C'])

                if y.shape != (C.shape[1],) or not sat(list(zip(mk['C'], mk['rhs'])), y, tol):
                    raise Violation('ce_minkowski', f'segment {i}: reset variables {y.tolist()} violate their constraints')

                expected_start = expected_start + (y if mk['M'] is None else np.array(mk['M']) @ y)
            elif len(seg.reset_minkowski_vars):
                raise Violation('ce_minkowski', 'reset variables for a reset without them')

            # the jump must also end inside the invariant of the target (checked as step 0 of the next segment)

    if total > spec['num_steps']:
        raise Violation('ce_time', f'counterexample has {total} steps, the time bound is {spec["num_steps"]}')

def run_case(spec):
    'one case'

    if model.ref_tree(spec, 1e-6).truncated: # also bounds the work of the analysis
        raise Discard('too many paths')

    res, ha = c03.run_core(spec)

    if res is None or not res.has_concrete_error:
        return []

    check_counterexample(spec, res.counterexample, ha)

    labels = ['nt:counterexample']
    ce = res.counterexample

    if len(ce) > 1:
        labels.append('nt:jumps')
    if any(len(s.inputs) for s in ce):
        labels.append('nt:inputs')
    if any(len(s.reset_minkowski_vars) for s in ce):
        labels.append('nt:minkowski')
    if spec['settings']['agg'] != 'none':
        labels.append('nt:with_aggregation')

    return labels
