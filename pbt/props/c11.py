'''C11: intersections with invariants and guards'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref, sets
from pbt.runner import Discard, Violation

ID = 'C11'
QUICK = 1500
THOROUGH = 15000
RULE = ('a random symbolic set (recipe of steps, cuts, resets) put in a mode with random invariants, followed by a random '
        'history of steps (single and several at once), invariant intersections (also repeated, also many), guard intersections and single checks; oracle: '
        'the same history on two independent sets, with all constraints moved by 1e-6 inwards and outwards; supports, answers '
        'and emptiness after every operation, and queries leave the set alone; non-trivial: at least two invariant '
        'intersections that cut, or guards which are enabled and disabled')

EPS = 1e-6
TOL = 1e-5

@st.composite
def _case(draw):
    rec = draw(sets.recipe(draw(gen.ints(1, 3)), max_ops=draw(st.sampled_from([0, 2, 4]))))
    n = len(rec['modes'][-1]['A'])

    while rec['ops'] and rec['ops'][-1][0] == 'cur': # guards are only added right before a jump
        rec['ops'].pop()

    # the constraints are placed relative to the sets that occur without invariants
    cur = sets.build_ref(rec)
    seq = [cur]
    M, G = ref.step_matrices(rec['modes'][-1]['A'], rec['modes'][-1]['B'], rec['h'])

    for _ in range(6):
        seq.append(seq[-1].linear(M, G, rec['modes'][-1]['U']))

    def constraint(fracs):
        'cuts one of the sets'

        v = gen._vec(draw, n) # pylint: disable=protected-access

        if gen.chance(draw, 1, 4):
            v = [draw(gen.ints(-4, 4)) / 4 for _ in range(n)]

        s = seq[draw(gen.ints(0, 6))]

        if not s.feasible():
            return [v, 0.5]

        hi, lo = s.support(v), -s.support([-x for x in v])

        return [v, gen.q(min(1e3, max(-1e3, lo + draw(st.sampled_from(fracs)) * max(hi - lo, 0.02))))]

    inv = [constraint([0.5, 0.9, 0.75, 1.0, 1.2, 0.98, 0.25]) for _ in range(draw(gen.ints(1, 3)))]
    ops = []

    for _ in range(draw(gen.ints(2, 14))):
        kind = draw(st.sampled_from(['inv', 'step', 'step+inv', 'guard', 'inv', 'step', 'check', 'steps+inv']))

        if kind == 'guard':
            ops.append([kind, [constraint([0.5, 0.1, -0.2, 0.9, 1.5, 0.02]) for _ in range(draw(gen.ints(0, 3)))]])
        elif kind == 'check':
            ops.append([kind, constraint([0.5, 0.1, -0.2, 1.2, -0.01])])
        else:
            ops += [[k, draw(gen.ints(2, 4))] if k == 'steps' else [k] for k in kind.split('+')]

    return {'rec': rec, 'inv': inv, 'ops': ops}

def strategy():
    'cases'
    return _case()

def snapshot(lpi):
    'constraints'

    return lpi.get_full_constraints().toarray(), lpi.get_rhs().copy()

def compare(lpi, lo, hi, what):
    'supports of the set'

    got = model.lpi_to_ref(lpi)

    if lo.feasible() and not got.feasible():
        raise Violation('empty', f'{what}: the set is empty, expected a non-empty one')

    if not hi.feasible():
        if got.cut([], 0).feasible() and lpi.is_feasible():
            raise Violation('not_empty', f'{what}: the set is not empty, expected an empty one')
        return

    if not lo.feasible() or not got.feasible():
        return

    for d in ref.directions(lo.dims, num_random=2):
        a, b, g = lo.support(d), hi.support(d), got.support(d)

        if not np.isfinite([a, b]).all():
            continue

        t = TOL * (1 + abs(g)) if np.isfinite(g) else 0

        if not a - t <= g <= b + t:
            raise Violation('too_small' if g < a else 'too_large', f'{what}: the set extends to {g} in direction '
                            f'{d.tolist()}, expected between {a} and {b}')

def run_case(case): # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    'one case'

    from scipy.sparse import csr_matrix
    from hylaa import lputil
    from hylaa.core import Core
    from hylaa.hybrid_automaton import HybridAutomaton, LinearConstraint
    from hylaa.settings import HylaaSettings

    rec = case['rec']
    ha = HybridAutomaton()
    start = sets.build_ref(rec)

    if not start.feasible():
        raise Discard('empty set')

    if not ref.cons_set([r[0] for r in case['inv']], [r[1] for r in case['inv']]).feasible():
        raise Discard('infeasible invariant')

    first = sets.build_state(rec, ha)
    mode = first.mode
    mode.set_invariant([r[0] for r in case['inv']], [r[1] for r in case['inv']])
    state = first
    state.invariant_constraint_rows = [None] * len(mode.inv_list)
    other = ha.new_mode('target')
    other.set_dynamics(np.eye(len(rec['modes'][-1]['A'])))
    settings = HylaaSettings(rec['h'], 20 * rec['h'])
    settings.stdout = HylaaSettings.STDOUT_NONE
    core = Core(ha, settings)
    m = rec['modes'][-1]
    M, G = ref.step_matrices(m['A'], m['B'], rec['h'])
    lo = hi = start
    cuts = steps = 0
    answers = set()

    for i, op in enumerate(case['ops']):
        what = f'operation {i} ({op[0]})'

        if op[0] in ('step', 'steps'):
            num = 1 if op[0] == 'step' else op[1] # several steps at once, as in the replay of a state

            if steps + num > 7:
                continue

            steps += num

            if num == 1:
                state.step()
            else:
                state.step(state.cur_step_in_mode + num)

            for _ in range(num):
                lo, hi = lo.linear(M, G, m['U']), hi.linear(M, G, m['U'])

            if max(np.abs(hi.c).max(), max(abs(hi.support(s * e)) for e in np.eye(hi.dims) for s in (1, -1))) > 1e3:
                raise Discard('large values')
        elif op[0] == 'inv':
            before = lo
            lo, hi = lo.cut(case['inv'], -EPS), hi.cut(case['inv'], EPS)
            res = core.intersect_invariant(state, add_ops_to_aggdag=False)

            if lo.feasible() and not res:
                raise Violation('left', f'{what}: the invariant is reported as left')

            if not hi.feasible() and res:
                raise Violation('stays', f'{what}: the invariant is reported to hold, but it excludes the set')

            if not res or not lo.feasible():
                return ['emptied'] + (['nt:cuts'] if cuts else [])

            if any(before.support(v) > r + 1e-4 for v, r in case['inv']):
                cuts += 1
        elif op[0] == 'guard':
            rows = op[1]
            glo, ghi = lo.cut(rows, -EPS), hi.cut(rows, EPS)

            if rows and not ref.cons_set([r[0] for r in rows], [r[1] for r in rows]).feasible():
                continue

            t = ha.new_transition(mode, other)

            if rows:
                t.set_guard([r[0] for r in rows], [r[1] for r in rows])
            else:
                t.set_guard_true()

            before = snapshot(state.lpi)
            res = t.get_guard_intersection(state.lpi)

            if not all(np.array_equal(x, y) for x, y in zip(before, snapshot(state.lpi))):
                raise Violation('set_modified', f'{what}: the set was modified')

            if res is None and glo.feasible():
                raise Violation('guard_missed', f'{what}: guard {rows} is enabled, but no intersection is returned')

            if res is not None and not ghi.feasible():
                raise Violation('guard_spurious', f'{what}: guard {rows} is not enabled, but an intersection is returned')

            answers.add(res is None)

            if res is not None:
                compare(res, glo, ghi, what)
        else:
            v, r = op[1]

            if not any(v):
                continue

            before = snapshot(state.lpi)
            res = lputil.check_intersection(state.lpi, LinearConstraint(csr_matrix(np.array([v], dtype=float)), r))

            if not all(np.array_equal(x, y) for x, y in zip(before, snapshot(state.lpi))):
                raise Violation('set_modified', f'{what}: the set was modified')

            least = -lo.support([-x for x in v]), -hi.support([-x for x in v])

            if least[0] < r - 1e-5 * (1 + abs(r)) and not res:
                raise Violation('check', f'{what}: {v} x <= {r} intersects the set, the answer is {res}')

            if least[1] > r + 1e-5 * (1 + abs(r)) and res:
                raise Violation('check', f'{what}: {v} x <= {r} does not intersect the set, the answer is {res}')

        compare(state.lpi, lo, hi, what)

    labels = [f'cuts:{min(cuts, 4)}']

    if cuts >= 2:
        labels.append('nt:cuts')
    if len(answers) == 2:
        labels.append('nt:guards')

    return labels
