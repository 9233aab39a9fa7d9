'''C09: set constructors and transformations'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref, sets
from pbt.runner import Violation

ID = 'C09'
QUICK = 1800
THOROUGH = 25000
RULE = ('random sets (box / inequality / typed-constraint / zonotope / input-set constructors, then steps with inputs, cuts, '
        'resets with fresh variables and dimension changes) followed by random transformations (Minkowski sum, bloating, '
        'scaling, aggregation-free re-import) and further steps; every support value from the code\'s LP and from its raw '
        'constraints is compared with an independent projection solved by HiGHS; also box centre, radius and point '
        'membership; non-trivial: at least one operation after the constructor')
ASSUMPTIONS = ['support values agree up to 1e-6 relative']

@st.composite
def _case(draw):
    n = draw(gen.ints(1, 3))
    c = {'n': n, 'seed': draw(gen.ints(0, 1000)), 'rec': draw(sets.recipe(n, max_ops=5, last_dims=n))}
    c['op'] = draw(st.sampled_from(['none', 'none', 'msum', 'bloat', 'scale', 'typed', 'uset', 'point', 'center']))

    if c['op'] == 'msum':
        c['others'] = [draw(sets.recipe(n, max_ops=2, last_dims=n)) for _ in range(draw(gen.ints(1, 2)))]
    elif c['op'] == 'bloat':
        c['amount'] = draw(gen.ints(0, 8)) / 4
        c['twice'] = draw(st.booleans())
    elif c['op'] == 'scale':
        c['amount'] = draw(gen.ints(-6, 6)) / 4
    elif c['op'] == 'uset':
        c['B'], c['U'] = draw(gen.input_set(n))
    elif c['op'] == 'typed':
        # x = P z with some rows of each type around a point
        k = draw(gen.ints(n, n + 2))
        z = [draw(gen.ints(-4, 4)) / 4 for _ in range(k)]
        rows = []

        for i in range(k): # bounds keep the set compact
            e = [1.0 if j == i else 0.0 for j in range(k)]
            w1, w2 = draw(gen.ints(0, 4)) / 4, draw(gen.ints(1, 4)) / 4
            rows.append([e, 'up', gen.q(z[i] + w1)])
            rows.append([e, 'lo', gen.q(z[i] - w2)] if draw(st.booleans()) else
                        [[-x for x in e], 'up', gen.q(-z[i] + w2)])

        for _ in range(draw(gen.ints(0, 2))):
            v = gen._vec(draw, k) # pylint: disable=protected-access
            ty = draw(st.sampled_from(['fx', 'up', 'lo']))
            val = float(np.dot(v, z))
            rows.append([v, ty, gen.q(val if ty == 'fx' else val + 0.25 if ty == 'up' else val - 0.25)])

        c['rows'] = rows
        c['dims'] = n
    elif c['op'] == 'point':
        c['pts'] = [[draw(gen.ints(-8, 8)) / 4 for _ in range(n)] for _ in range(3)]

    # afterwards: advance the result in another mode
    c['after'] = draw(gen.ints(0, 2))
    c['after_A'] = draw(gen.a_matrix(n))
    c['after_B'], c['after_U'] = (None, None)

    if draw(st.booleans()):
        c['after_B'], c['after_U'] = draw(gen.input_set(n))

    return c

def strategy():
    'cases'
    return _case()

def compare(what, lpi, want, c, own=True):
    'supports of lpi (raw constraints and own LP) against the reference set'

    got = model.lpi_to_ref(lpi)
    n = want.dims

    if got.dims != n:
        raise Violation(what + '_dims', f'{got.dims} dimensions, expected {n}')

    ds = sets.dirs(c['seed'], n)
    vals = [want.support(d) for d in ds]
    scale = 1 + max(abs(v) for v in vals)

    for d, v in zip(ds, vals):
        g = got.support(d)

        if not abs(g - v) <= 2e-6 * scale:
            raise Violation(what, f'support in direction {np.round(d, 4).tolist()} is {g:.9g}, expected {v:.9g}')

        if own:
            g = sets.lpi_support(lpi, d)

            if not abs(g - v) <= 2e-6 * scale:
                raise Violation(what + '_lp', f'minimize() in direction {np.round(d, 4).tolist()} gives {g:.9g}, expected '
                                f'{v:.9g}')

    return scale

def run_case(c): # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    'one case'

    import swiglpk as glpk
    from hylaa import lputil
    from hylaa.hybrid_automaton import HybridAutomaton
    from hylaa.stateset import StateSet

    want = sets.build_ref(c['rec'])

    if not want.feasible():
        return ['empty']

    ha = HybridAutomaton()
    state = sets.build_state(c['rec'], ha)
    lpi = state.lpi
    compare('recipe', lpi, want, c)
    labels = []

    if c['rec']['ops']:
        labels.append('nt:recipe')

    post = ha.new_mode('post')
    post.set_dynamics(np.array(c['after_A']))

    if c['after_B'] is not None:
        post.set_inputs(np.array(c['after_B']), np.array(c['after_U'][0]), np.array(c['after_U'][1]),
                        allow_constants=True)

    post.init_time_elapse(0.25)
    op = c['op']
    n = c['n']

    if op in ('bloat', 'scale') and c['rec']['ops'] and c['rec']['ops'][-1][0] == 'cur':
        op = 'none' # constraints over the current variables would apply to the transformed set

    fresh = None # a set over the mode 'post' which can be advanced

    if op == 'msum':
        refs = [want] + [sets.build_ref(r) for r in c['others']]

        if not all(r.feasible() for r in refs):
            return labels + ['empty']

        lpis = [lpi] + [sets.build_state(r, ha).lpi for r in c['others']]
        fresh = lputil.minkowski_sum(lpis, post)
        want2 = refs[0]

        for r in refs[1:]:
            P = np.hstack([want2.P, r.P])
            A = np.block([[want2.A, np.zeros((len(want2.A), r.P.shape[1]))],
                          [np.zeros((len(r.A), want2.P.shape[1])), r.A]])
            want2 = ref.RefSet(P, want2.c + r.c, A, np.concatenate([want2.b, r.b]))

        compare('minkowski', fresh, want2, c)
        compare('minkowski_args', lpi, want, c, own=False)
        want = want2
        labels.append('nt:minkowski')
    elif op == 'bloat':
        lputil.bloat(lpi, c['amount'])
        total = c['amount']

        if c['twice']:
            lputil.bloat(lpi, 0.5, var_name_prefix='again')
            total += 0.5

        want = want.linear(np.eye(n), np.eye(n), (np.vstack([np.eye(n), -np.eye(n)]), [total] * (2 * n)))
        compare('bloat', lpi, want, c)
        labels.append('nt:bloat')
    elif op == 'scale':
        if c['rec']['modes'][-1]['B'] is None or not has_input_steps(c['rec']):
            lputil.scale_with_bm(lpi, c['amount'])
            want = want.linear(np.eye(n) * c['amount'])
            compare('scale', lpi, want, c)
            labels.append('nt:scale')
    elif op == 'uset':
        fresh = lputil.from_input_constraints(np.array(c['B']), np.array(c['U'][0]), np.array(c['U'][1]), post)
        B = np.array(c['B'])
        want = ref.RefSet(B, np.zeros(n), c['U'][0], c['U'][1])
        compare('input_set', fresh, want, c)
        labels.append('nt:input_set')
    elif op == 'typed':
        rows = c['rows']
        k = len(rows[0][0])
        want = ref.poly_from_lp(np.array([r[0] for r in rows]), [r[2] for r in rows],
                                [{'up': 'ub', 'lo': 'lb', 'fx': 'eq'}[r[1]] for r in rows], 0, n)

        types = [{'up': glpk.GLP_UP, 'lo': glpk.GLP_LO, 'fx': glpk.GLP_FX}[r[1]] for r in rows]

        if not want.feasible():
            return labels + ['typed_empty']

        fresh = lputil.from_constraints([r[0] for r in rows], [r[2] for r in rows], post, types=types,
                                        names=[f'v{i}' for i in range(k)], dims=n)
        compare('typed', fresh, want, c)
        labels.append('nt:typed')
    elif op == 'point':
        for pt in c['pts'] + [list(want.extreme([1.0] * n))]:
            d = ref.distance(want, pt)

            if 1e-9 < d < 1e-5:
                continue

            # the tested constraint is on the left-most variables of a set as it was constructed
            got = lputil.is_point_in_lpi(pt, lpi)

            if d > 1e-5 and got:
                raise Violation('point', f'{pt} is {d:.3g} outside of the set, but is_point_in_lpi is true')
            if d == 0 and not got:
                # on the boundary up to rounding?
                inner = all(want.support(dd) > np.dot(dd, pt) + 1e-6 for dd in sets.dirs(0, n))

                if inner:
                    raise Violation('point', f'{pt} is inside the set, but is_point_in_lpi is false')

        labels.append('nt:point')
    elif op == 'center':
        mid = [(want.support(e) - want.support(-e)) / 2 for e in np.eye(n)]
        got = lputil.get_box_center(lpi)

        if got is None or not np.abs(np.array(got) - mid).max() <= 1e-6 * (1 + np.abs(mid).max()):
            raise Violation('box_center', f'get_box_center gives {got}, expected {mid}')

        rad = max(max(abs(want.support(e)), abs(want.support(-e))) for e in np.eye(n))
        got = lputil.compute_radius_inf(lpi)

        if not abs(got - rad) <= 1e-6 * (1 + rad):
            raise Violation('radius', f'compute_radius_inf gives {got}, expected {rad}')

        labels.append('nt:center')

    if fresh is not None and c['after']:
        s = StateSet(fresh, post)
        M, G = ref.step_matrices(c['after_A'], c['after_B'], 0.25)

        for k in range(c['after']):
            s.step()
            want = want.linear(M, G, c['after_U'])

        compare('advance', s.lpi, want, c)
        labels.append('nt:advanced')

    return labels or ['plain']

def has_input_steps(rec):
    'does the last mode perform steps?'

    rv = False

    for op in rec['ops']:
        if op[0] == 'reset':
            rv = False
        elif op[0] == 'step':
            rv = True

    return rv
