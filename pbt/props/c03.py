'''C03: safety verdict'''

import contextlib
import io

from hypothesis import strategies as st

from pbt import gen, model
from pbt.runner import Discard, Violation

ID = 'C03'
QUICK = 1200
THOROUGH = 15000
RULE = ('random hybrid automata with an error mode x all aggregation strategies x stop settings x counterexample on/off, '
        'run through Core.run(); oracle: independent path enumeration, bracketed by 1e-6; a reachable error must be '
        'reported, a concrete error must be real, without aggregation the verdict is exact, and the verdict does not '
        'depend on stop settings; non-trivial: an error mode is reachable, or is excluded although it was tried')
ASSUMPTIONS = ['errors within 1e-6 of touching a guard may go either way']

EPS = 1e-6

@st.composite
def _case(draw):
    spec = draw(gen.automaton(min_error=1, max_trans=3))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()),
                        'skip_zero': draw(st.booleans()), 'stop_concrete': draw(st.booleans()),
                        'stop_agg': draw(st.booleans()), 'make_ce': draw(st.booleans())}
    spec['settings'].update(draw(gen.agg_settings(('none', 'none', 'box', 'arnoldi', 'chull'),
                                                  deagg=draw(st.booleans()))))

    return spec

def strategy():
    'cases'
    return _case()

def run_core(spec, **over):
    'result of core.run() or None when there is no initial state'

    core, init, ha, _, _ = model.build(spec, **over)

    try:
        return core.run(init), ha
    except RuntimeError as e:
        if 'feasible initial states' in str(e):
            return None, ha

        raise

def run_case(spec):
    'one case'

    enlarged = model.ref_tree(spec, EPS)

    if enlarged.truncated:
        raise Discard('too many paths')

    shrunk = model.ref_tree(spec, -EPS)
    s = spec['settings']
    out = io.StringIO()

    with contextlib.redirect_stdout(out):
        res, _ = run_core(spec, stdout=1) # prints the verdict

    if res is None:
        if shrunk.nodes:
            raise Violation('no_init', 'analysis found no feasible initial states, but there are some')
        return ['empty_init']

    reported = res.has_concrete_error or res.has_aggregated_error

    if shrunk.errors and not reported:
        raise Violation('error_missed', f'error reachable via {shrunk.errors[0][0]} but the verdict is safe')

    if res.has_concrete_error and not enlarged.errors:
        raise Violation('false_error', 'a concrete error is reported, but no error mode is reachable')

    claim = [l for l in out.getvalue().split('\n') if l.startswith('Result:')]

    if shrunk.errors and any('is safe' in l for l in claim):
        raise Violation('printed_safe', f'error reachable via {shrunk.errors[0][0]}, but the run prints {claim}')

    if not reported and claim and not any('is safe' in l for l in claim):
        raise Violation('printed_unsafe', f'no error was found, but the run prints {claim}')

    if s['agg'] == 'none':
        if res.has_aggregated_error:
            raise Violation('aggregated_without', 'aggregated error reported although nothing was aggregated')

        if shrunk.errors and not res.has_concrete_error:
            raise Violation('error_missed', f'error reachable via {shrunk.errors[0][0]} but not reported as concrete')

    if bool(res.counterexample) != bool(res.has_concrete_error and s['make_ce']):
        raise Violation('ce_presence', f'concrete error: {res.has_concrete_error}, make_counterexample: {s["make_ce"]}, '
                        f'but the counterexample has {len(res.counterexample)} segments')

    # stopping: the analysis ends at the first error of the configured kind
    state = {'bad': None}

    def trace(**over):
        'step by step; checks that it finishes as soon as the stop condition holds'

        core, init, _, _, _ = model.build(spec, **over)
        core.setup(init)
        n = 0
        visited = []

        while not core.is_finished():
            core.do_step()
            n += 1
            cur = core.aggdag.get_cur_state()
            visited.append(None if cur is None else (cur.mode.name, tuple(cur.cur_steps_since_start), cur.cur_step_in_mode))
            conc, agg = core.result.has_concrete_error, core.result.has_aggregated_error
            must = core.settings.stop_on_concrete_error and conc or core.settings.stop_on_aggregated_error and (conc or agg)

            if must and not core.is_finished():
                state['bad'] = (n, conc, agg)

        return core.result, visited

    res2, visited = trace()

    if (res2.has_concrete_error, res2.has_aggregated_error) != (res.has_concrete_error, res.has_aggregated_error):
        raise Violation('run_verdict', 'run() and repeated do_step() give different verdicts')

    if state['bad']:
        raise Violation('stop', f'stop_on_concrete_error={s["stop_concrete"]}, stop_on_aggregated_error='
                        f'{s["stop_agg"]}: the analysis continues after an error was found {state["bad"]}')

    # the full exploration agrees with the one that stops early
    full, all_visited = trace(stop_concrete=False, stop_agg=False)

    if (full.has_concrete_error or full.has_aggregated_error) != reported:
        raise Violation('stop_verdict', f'verdict with stop settings: {reported}, without: '
                        f'{full.has_concrete_error or full.has_aggregated_error}')

    # up to the point where it stops, nothing is different
    if all_visited[:len(visited)] != visited:
        i = [a == b for a, b in zip(all_visited, visited)].index(False)
        raise Violation('stop_prefix', f'with stop settings, analysis step {i} visits {visited[i]} instead of {all_visited[i]}')

    if not s['stop_agg'] and full.has_concrete_error != res.has_concrete_error:
        raise Violation('stop_verdict', 'concrete verdict depends on stop_on_concrete_error')

    if s['agg'] == 'none' and full.has_concrete_error != res.has_concrete_error:
        raise Violation('stop_verdict', 'concrete verdict depends on the stop settings')

    labels = ['agg:' + s['agg']]

    if shrunk.errors:
        labels.append('nt:error')
    elif reported and not enlarged.errors:
        labels.append('nt:spurious_aggregated')
    elif not enlarged.errors and any(t['dst'] == len(spec['modes']) - 1 for t in spec['trans']):
        labels.append('nt:safe' if len(shrunk.nodes) > 1 else 'safe')
    if shrunk.errors and len(shrunk.errors[0][0]) > 2:
        labels.append('nt:error_after_jump')

    return labels
