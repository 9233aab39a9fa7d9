'''C05: deaggregation gives the exact verdict'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.props import c03, c04
from pbt.runner import Discard, Violation

ID = 'C05'
QUICK = 900
THOROUGH = 12000
RULE = ('random hybrid automata with an error mode, aggregation with deaggregation enabled, all refinement preferences; '
        'a concrete error is reported exactly when the independent path enumeration (bracketed by 1e-6) reaches the error '
        'mode within the time bound, and its counterexample replays; waiting states that are concrete after a split must be '
        'one of the enumerated sets; non-trivial: an aggregated set was split')
ASSUMPTIONS = ['errors within 1e-6 of touching a guard may go either way']

EPS = 1e-6
TOL = 1e-5

@st.composite
def _case(draw):
    spec = draw(gen.automaton(min_error=1, max_trans=4, max_steps=8))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()),
                        'skip_zero': draw(st.booleans()), 'stop_concrete': draw(st.booleans())}
    spec['settings'].update(draw(gen.agg_settings(('box', 'arnoldi', 'chull'), deagg=True)))

    if gen.chance(draw, 1, 3):
        exclude_errors(spec, draw(st.sampled_from([0.01, 0.05, 0.002])))

    return spec

def exclude_errors(spec, gap):
    'move the guards of error transitions just out of reach: aggregated sets may still reach them'

    trans = spec['trans']
    into = [t for t in trans if model.is_error(spec, t['dst'])]

    try:
        tree = model.ref_tree(dict(spec, trans=[t for t in trans if t not in into]), 0.0, max_nodes=30)
    except Discard:
        return

    for t in into:
        if t['guard']:
            v, rhs = t['guard'][0]
            low = [-s.support([-x for x in v]) for nd in tree.nodes if nd.mode == t['src'] for s in nd.sets]
            low = [x for x in low if np.isfinite(x)]

            if low:
                t['guard'] = [[v, min(rhs, gen.q(min(low) - gap))]]

def strategy():
    'cases'
    return _case()

def check_concrete(spec, state, lo, hi):
    'a state that is not aggregated must be the set of one path'

    mode = [m['name'] for m in spec['modes']].index(state.mode.name)
    start = state.cur_steps_since_start

    if start[0] != start[1]:
        raise Violation('concrete_interval', f'a state in {state.mode.name} is concrete, but has the step interval {start}')

    got = model.lpi_to_ref(state.lpi)
    dirs = ref.directions(got.dims, num_random=1)
    sup = np.array([got.support(d) for d in dirs])
    t = TOL * (1 + np.abs(sup))
    why = []

    if np.abs(sup).max() > model.MAX_VALUE:
        raise Discard('large values')

    for path, s in hi.get((mode, start[0]), []):
        if s.dims != got.dims: # error modes have no dimension of their own
            continue

        up = np.array([s.support(d) for d in dirs])

        if not (sup <= up + t).all():
            why.append((path, 'larger', up.round(6).tolist()))
            continue

        low = lo.get((mode, start[0], path))

        if low is not None:
            low = low.cut(spec['modes'][mode]['inv'], -EPS) # guards may be strengthened by the invariant
            down = np.array([low.support(d) for d in dirs])

            if np.isfinite(down).all() and not (sup >= down - t).all():
                why.append((path, 'smaller', down.round(6).tolist()))
                continue

        return

    raise Violation('concrete_wrong', f'a concrete state in {state.mode.name} at step {start[0]} with the supports '
                    f'{sup.round(6).tolist()} is not the set of any path: {why}')

def run_case(spec):
    'one case'

    enlarged = model.ref_tree(spec, EPS)

    if enlarged.truncated:
        raise Discard('too many paths')

    shrunk = model.ref_tree(spec, -EPS)
    core, init, ha, _, _ = model.build(spec)

    try:
        core.setup(init)
    except RuntimeError as e:
        if 'feasible initial states' in str(e):
            return ['empty_init']
        raise

    splits = checked = 0
    was = False
    seen = []
    hi, lo = {}, {}

    for path, mode, total, s in enlarged.posts:
        hi.setdefault((mode, total), []).append((path, s))

    for path, mode, total, s in shrunk.posts:
        lo[(mode, total, path)] = s

    while not core.is_finished():
        core.do_step()
        doing = bool(core.aggdag.deagg_man.doing_replay())
        splits += 1 if doing and not was else 0
        was = doing

        if splits and checked < 40:
            for op in core.aggdag.waiting_list:
                if op.poststate.is_concrete and op.parent_node is not None and not any(op is x for x in seen):
                    seen.append(op)
                    checked += 1
                    check_concrete(spec, op.poststate, lo, hi)

    res = core.result

    if shrunk.errors and not res.has_concrete_error:
        raise Violation('error_missed', f'error reachable via {shrunk.errors[0][0]}, but deaggregation ended without '
                        f'a concrete error (aggregated: {res.has_aggregated_error})')

    if res.has_concrete_error and not enlarged.errors:
        raise Violation('false_error', 'a concrete error is reported, but no error mode is reachable in the time bound')

    if res.has_concrete_error:
        c04.check_counterexample(spec, res.counterexample, ha)

    labels = ['agg:' + spec['settings']['agg']]

    if splits:
        labels.append('nt:split')
    if splits and res.has_aggregated_error and not res.has_concrete_error:
        labels.append('nt:spurious_removed')
    if splits and res.has_concrete_error:
        labels.append('nt:confirmed')
    if checked:
        labels.append('nt:concrete_sets')
    if splits > 1:
        labels.append('nt:several_splits')

    return labels
