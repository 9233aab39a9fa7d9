'''C06: aggregation operators'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref, sets
from pbt.runner import Violation

ID = 'C06'
QUICK = 1500
THOROUGH = 20000
RULE = ('2-5 random member sets (boxes, polytopes, zonotopes after steps, inputs, cuts and resets) are aggregated with a '
        'template, box / Arnoldi aggregation of state sets, or convex hull; every support value of the result is compared '
        'with the maximum over the members computed by an independent solver; direction matrices are compared with the '
        'Krylov sequence; non-trivial: at least two members that differ, or a direction matrix with a dependent vector')
ASSUMPTIONS = ['support values agree up to 1e-6 relative']

@st.composite
def _members(draw, n, lo=2, hi=4):
    'several recipes ending in n dims'

    k = draw(gen.ints(lo, hi))

    return [draw(sets.recipe(n, max_ops=3, last_dims=n)) for _ in range(k)]

@st.composite
def _case(draw):
    kind = draw(st.sampled_from(['template', 'chull', 'states', 'states', 'dirs', 'reorth']))
    n = draw(gen.ints(1, 3))
    c = {'kind': kind, 'n': n, 'seed': draw(gen.ints(0, 1000))}

    if kind in ('template', 'chull', 'states'):
        c['members'] = draw(_members(n, 1 if kind == 'chull' else 2, 5))

    if kind == 'template':
        rows = [[gen.q(draw(gen.ints(-4, 4)) / 2) for _ in range(n)] for _ in range(n + draw(gen.ints(0, 3)))]

        if gen.chance(draw, 1, 3): # directions are not normalized
            rows = [[x * f for x in r] for r, f in [(r, draw(st.sampled_from([1.0, 1e-4, 1e3]))) for r in rows]]

        c['dirs'] = rows
    elif kind == 'states':
        c['arnoldi'] = draw(st.booleans())
        c['add_guard'] = draw(st.booleans())
        c['pre_n'] = n if draw(st.booleans()) else draw(gen.ints(1, 3))
        c['pre_A'] = draw(gen.a_matrix(c['pre_n']))

        if c['pre_n'] > 1 and gen.chance(draw, 1, 3): # the flow is almost parallel to an axis
            f = draw(st.sampled_from([0.04, 0.02, 0.005]))
            k = draw(gen.ints(0, c['pre_n'] - 1))
            c['pre_A'] = [[x if i == k else x * f for x in row] for i, row in enumerate(c['pre_A'])]

        c['center'] = [gen.q(draw(gen.ints(-8, 8)) / 4) for _ in range(c['pre_n'])]
        c['R'] = None

        if c['pre_n'] != n or draw(st.booleans()):
            c['R'], _ = draw(gen.reset_spec(c['pre_n'], n))

        c['guard'] = [[gen._vec(draw, c['pre_n']), 1.0] for _ in range(draw(gen.ints(0, 2)))] # pylint: disable=protected-access
        c['steps'] = [sorted([draw(gen.ints(0, 9)), draw(gen.ints(0, 9))]) for _ in c['members']]
        c['initial'] = gen.chance(draw, 1, 6)
        c['chull'] = draw(gen.ints(0, 3)) == 3
    elif kind == 'dirs':
        n = c['n'] = draw(gen.ints(1, 5))
        c['A'] = draw(gen.a_matrix(n))
        c['point'] = [gen.q(draw(gen.ints(-8, 8)) / 4) for _ in range(n)]
    elif kind == 'reorth':
        n = c['n'] = draw(gen.ints(1, 5))
        c['rows'] = [[gen.q(draw(gen.ints(-3, 3)) / 2) for _ in range(n)] for _ in range(draw(gen.ints(1, n + 2)))]

        if gen.chance(draw, 1, 4):
            c['rows'] = [[x * f for x in r] for r, f in [(r, draw(st.sampled_from([1.0, 1e-4, 1e3]))) for r in c['rows']]]

        c['as_list'] = draw(st.booleans())

    return c

def strategy():
    'cases'
    return _case()

def check_orthonormal(mat, n, what):
    'square orthonormal matrix'

    mat = np.asarray(mat, dtype=float)

    if mat.shape != (n, n):
        raise Violation(what + '_shape', f'expected a {n}x{n} matrix, got {mat.shape}')

    err = np.abs(mat @ mat.T - np.eye(n)).max()

    if err > 1e-6:
        raise Violation(what + '_orthonormal', f'rows are not orthonormal (error {err:.2e}): {mat.tolist()}')

def in_span(v, rows, tol=1e-6):
    'v in the span of orthonormal rows?'

    v = np.array(v, dtype=float)
    res = v - sum((np.dot(v, r) * np.asarray(r) for r in rows), np.zeros(len(v)))

    return np.linalg.norm(res) <= tol * max(1.0, np.linalg.norm(v)), res

def check_order(seq, mat, what):
    'greedy Gram-Schmidt: the new direction of each vector of seq appears next among the rows of mat'

    j = 0

    for v in seq:
        v = np.array(v, dtype=float)
        ok, res = in_span(v, mat[:j])
        nrm = np.linalg.norm(res)

        if nrm < 3e-6 and nrm > 3e-7:
            return # too close to the rank decision

        if nrm <= 3e-7:
            continue

        if j >= len(mat):
            break

        d = abs(np.dot(res / nrm, mat[j]))

        if nrm > 1e-3 and d < 1 - 1e-6:
            raise Violation(what + '_order', f'row {j} is {np.asarray(mat[j]).tolist()}, expected the direction '
                            f'{(res / nrm).tolist()}')

        j += 1

def run_case(c): # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    'one case'

    from hylaa import lputil
    from scipy.sparse import csr_matrix

    n = c['n']

    if c['kind'] == 'dirs':
        A = np.array(c['A'])
        state = np.random.get_state()
        np.random.seed(c['seed'])
        a_csr = csr_matrix(A)
        point = list(c['point'])
        mat = lputil.make_direction_matrix(point, a_csr)
        np.random.set_state(state)
        check_orthonormal(mat, n, 'dirs')

        if point != c['point'] or np.abs(a_csr.toarray() - A).max() > 0:
            raise Violation('dirs_mutation', 'make_direction_matrix modified its arguments')

        # Krylov vectors until they become dependent
        seq, v = [], A @ np.array(c['point'])
        rows = []

        for _ in range(n):
            if np.linalg.norm(v) < 1e-5:
                break

            ok, res = in_span(v, rows, 1e-5)

            if ok or np.linalg.norm(res) < 1e-3:
                break

            seq.append(v)
            rows.append(res / np.linalg.norm(res))
            v = A @ rows[-1]

        check_order(seq, mat, 'dirs')

        return ['dirs'] + (['nt:dirs_nullspace'] if len(seq) < n else ['nt:dirs_full'])

    if c['kind'] == 'reorth':
        arr = np.array(c['rows'], dtype=float).reshape(-1, n)
        arg = [list(r) for r in c['rows']] if c['as_list'] else arr.copy()
        np.random.seed(c['seed'])
        mat = lputil.reorthogonalize_matrix(arg, n)
        check_orthonormal(mat, n, 'reorth')

        if np.abs(np.array(arg, dtype=float) - arr).max() > 0:
            raise Violation('reorth_mutation', 'the input matrix was modified')

        check_order(list(arr), mat, 'reorth')
        rank = np.linalg.matrix_rank(arr)

        return ['reorth'] + (['nt:reorth_dependent'] if rank < min(len(arr), n) or rank < n else ['nt:reorth_full'])

    refs = [sets.build_ref(r) for r in c['members']]

    if not all(r.feasible() for r in refs):
        return ['empty_member']

    from hylaa.hybrid_automaton import HybridAutomaton

    ha = HybridAutomaton()
    states = [sets.build_state(r, ha) for r in c['members']]
    post = ha.new_mode('post')
    post.set_dynamics(np.zeros((n, n)))

    if c['kind'] == 'states' and c['seed'] % 2:
        post.set_inputs([[1.0]] * n, [[1.0], [-1.0]], [1.0, 0.0])

    before = [[r.support(d) for d in sets.dirs(c['seed'], n)] for r in refs]
    scale = 1 + max(abs(x) for row in before for x in row)
    tight = []

    if c['kind'] == 'template':
        D = np.array(c['dirs'], dtype=float)
        out = lputil.aggregate([s.lpi for s in states], D, post)
        tight = [d / np.linalg.norm(d) for d in D if np.linalg.norm(d) > 1e-5]
    elif c['kind'] == 'chull':
        out = lputil.aggregate_chull([s.lpi for s in states], post)
    else:
        out, tight = aggregate_states(c, ha, states, post)

    tight = [np.array(d, dtype=float) for d in tight]
    from pbt.model import lpi_to_ref
    agg = lpi_to_ref(out)
    label = c['kind']
    test_dirs = sets.dirs(c['seed'], n, [d for d in tight] + [-d for d in tight])
    rank_full = c['kind'] == 'chull' or np.linalg.matrix_rank(np.array(tight)) == n
    spread = 0.0

    exact = c['kind'] == 'chull' or c.get('chull')

    for i, d in enumerate(test_dirs):
        vals = [r.support(d) for r in refs]
        want = max(vals)
        spread = max(spread, want - min(vals))
        got = agg.support(d)

        if got < want - 1e-6 * scale * max(1.0, np.abs(d).sum()):
            raise Violation(label + '_contains', f'direction {d.tolist()}: the aggregated set reaches {got:.9g}, a member '
                            f'reaches {want:.9g}')

        is_tight = exact or any(np.array_equal(d, t) or np.array_equal(d, -t) for t in tight)

        if is_tight and got > want + 1e-6 * scale * max(1.0, np.abs(d).sum()):
            raise Violation(label + '_tight', f'direction {d.tolist()}: the aggregated set reaches {got:.9g}, but no member '
                            f'goes beyond {want:.9g}')

    # a template polytope has no further constraints: compare with the reference polytope
    if not exact and tight and rank_full:
        D = [d for d in tight] + [-d for d in tight]
        poly = ref.cons_set(D, [max(r.support(d) for r in refs) for d in D])

        for d in test_dirs:
            want, got = poly.support(d), agg.support(d)

            if c['kind'] == 'template' and abs(got - want) > 1e-5 * scale * max(1.0, np.abs(d).sum(), abs(want)):
                raise Violation('template_exact', f'direction {d.tolist()}: template polytope reaches {want:.9g}, '
                                f'aggregated set {got:.9g}')

    # the members are left alone
    for s, row in zip(states, before):
        r = lpi_to_ref(s.lpi)

        for d, val in zip(sets.dirs(c['seed'], n), row):
            if abs(r.support(d) - val) > 1e-6 * scale:
                raise Violation('member_changed', f'aggregation changed a member in direction {d.tolist()}')

    return [label] + (['nt:' + label] if spread > 1e-6 and len(states) > 1 else [])

class Op():
    'stand-in for the operation which created a state'

    def __init__(self, center, transition, premode):
        self.premode_center = center
        self.transition = transition
        self.parent_node = type('Node', (), {'stateset': type('S', (), {'mode': premode})})

def aggregate_states(c, ha, states, post):
    'aggregation at the level of state sets; returns (lpi, directions that have to be tight)'

    from hylaa import aggregate
    from hylaa.stateset import StateSet

    pre = ha.new_mode('pre')
    pre.set_dynamics(np.array(c['pre_A']))
    t = ha.new_transition(pre, post)

    if c['guard']:
        t.set_guard([g[0] for g in c['guard']], [g[1] for g in c['guard']])
    else:
        t.set_guard_true()

    if c['R'] is not None:
        t.set_reset(np.array(c['R']))

    fresh = []

    for s, steps in zip(states, c['steps']):
        x = StateSet.__new__(StateSet)
        x.__dict__.update(s.__dict__)
        x.__dict__.update({'mode': post, 'cur_steps_since_start': list(steps)})
        fresh.append(x)

    op_list = [None if c['initial'] else Op(list(c['center']), t, pre) for _ in states]
    n = c['n']
    np.random.seed(c['seed'])

    if c['chull']:
        out = aggregate.aggregate_chull(fresh, op_list, lambda s: None)
    else:
        out = aggregate.aggregate_box_arnoldi(fresh, op_list, not c['arnoldi'], c['arnoldi'], c['add_guard'],
                                              lambda s: None)

    want = [min(s[0] for s in c['steps']), max(s[1] for s in c['steps'])]

    if list(out.cur_steps_since_start) != want:
        raise Violation('states_interval', f'members cover steps {c["steps"]}, aggregated set says '
                        f'{out.cur_steps_since_start}')

    if out.mode is not post or out.is_concrete:
        raise Violation('states_mode', 'wrong mode, or aggregated set marked as concrete')

    tight = [] if c['chull'] else [np.eye(n)[i] for i in range(n)]

    if c['add_guard'] and not c['initial'] and not c['chull'] and c['R'] is None:
        tight += [np.array(g[0]) for g in c['guard']]

    if c['arnoldi'] and not c['initial'] and not c['chull'] and c['R'] is None:
        # the direction of the flow at the centre
        v = np.array(c['pre_A']) @ np.array(c['center'])

        if np.linalg.norm(v) > 1e-3:
            tight.append(v / np.linalg.norm(v))

    return out.lpi, tight
