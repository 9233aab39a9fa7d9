'''C01: every reachable state is covered, whatever aggregation and other settings are used'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.runner import Discard, Violation

ID = 'C01'
QUICK = 2000
THOROUGH = 12000
RULE = ('random hybrid automata x aggregation settings (none, box, Arnoldi box, convex hull; every pop order; guard '
        'directions, same-path requirement, deaggregation on/off) x urgent guards x guard strengthening x zero-dynamics '
        'skipping; extreme points of the independently computed reachable sets (guards and invariants shrunk by 1e-6) '
        'must lie in a visited set of the same mode, with the same number of steps in that mode and a step interval that '
        'contains the total number of steps; non-trivial: an aggregated set was propagated, or several jumps')
ASSUMPTIONS = ['membership tolerance 1e-5 relative']

EPS = 1e-6
TOL = 1e-5

@st.composite
def _case(draw):
    spec = draw(gen.automaton(max_trans=3))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()),
                        'skip_zero': draw(st.booleans())}
    kinds = ('box', 'arnoldi', 'chull', 'box', 'arnoldi', 'chull', 'none')
    spec['settings'].update(draw(gen.agg_settings(kinds, deagg=draw(st.booleans()))))

    return spec

def strategy():
    'cases'
    return _case()

def check_cover(spec, records, tree, tol=TOL):
    'all extreme points of the tree are in the records'

    got = {}

    for r in records:
        got.setdefault((r.mode, r.step_in_mode), []).append(r)

    for n in tree.nodes:
        name = spec['modes'][n.mode]['name']
        dims = len(spec['modes'][n.mode]['A'])
        dirs = ref.directions(dims, num_random=1, seed=len(n.path))

        for k, s in enumerate(n.sets):
            total = n.start + k
            cands = [r for r in got.get((name, k), []) if r.lo <= total <= r.hi]

            if not cands:
                raise Violation('uncovered', f'no visited set in mode {name} after {k} steps in the mode covers step '
                                f'{total} (path {n.path}); visited step intervals '
                                f'{sorted((r.lo, r.hi) for r in got.get((name, k), []))}')

            # cheap check first: one candidate whose supports dominate in all directions
            sup = [s.support(d) for d in dirs]

            if any(all(r.set.support(d) >= v - tol for d, v in zip(dirs, sup)) for r in cands) and len(cands) == 1 \
                    and dims == 1:
                continue

            for d in dirs:
                pt = s.extreme(d)

                if pt is None:
                    continue

                t = tol * (1 + np.abs(pt).max())

                if not any(ref.distance(r.set, pt) <= t for r in cands):
                    raise Violation('state_missed', f'state {pt.round(6).tolist()} in mode {name} is reachable at step '
                                    f'{total} ({k} in mode) along path {n.path}, but is in none of the {len(cands)} '
                                    f'visited sets (distance {min(ref.distance(r.set, pt) for r in cands):.2e})')

def run_case(spec):
    'one case'

    tree = model.ref_tree(spec, -EPS, max_nodes=60)

    if tree.truncated:
        raise Discard('too many paths')

    res, records, _ = model.explore(spec)

    if res is None:
        if tree.nodes:
            raise Violation('no_init', 'analysis found no feasible initial states, but there are some')
        return ['empty_init']

    check_cover(spec, records, tree)

    # error modes reachable in the reference must be reported
    if tree.errors and not (res.has_aggregated_error or res.has_concrete_error):
        raise Violation('error_missed', f'error mode reachable via {tree.errors[0][0]}, but the result is safe')

    labels = ['agg:' + spec['settings']['agg']]

    if any(not r.concrete for r in records):
        labels.append('nt:aggregated')
    if any(r.lo < r.hi for r in records):
        labels.append('nt:interval')
    if any(len(n.path) > 2 for n in tree.nodes):
        labels.append('nt:two_jumps')
    if any(r.lo < r.hi for r in records) and any(spec['modes'][n.mode]['B'] is not None for n in tree.nodes):
        labels.append('nt:aggregated_inputs')

    return labels
