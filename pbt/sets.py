'''Set recipes: an initial set followed by operations, applied to the code's symbolic sets and to the reference sets.

recipe = {'h': step, 'modes': [{'A','B','U'}], 'init': init spec, 'ops': [op]}, with op one of
  ['step']           advance one time step in the current mode
  ['cut', v, r]      intersect with v x <= r (constraint over the mode's initial variables, as invariants do)
  ['cur', v, r]      intersect with v x <= r (constraint over the current variables, as guards do; only at the end of
                     the recipe or before a reset)
  ['reset', R, mink] x := R x (+ M y), going to the next mode
'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref

@st.composite
def recipe(draw, n, max_ops=5, resets=True, inputs=True, kinds=('box', 'box', 'cons', 'zono'), last_dims=None,
           margin=True):
    '''a recipe that starts in n dimensions; margin: every cut keeps a full-size part of the set'''

    h = draw(st.sampled_from([0.25, 0.5, 0.1, 1.0]))

    def mode(dims):
        'random dynamics'
        B = U = None
        A = draw(gen.a_matrix(dims))
        if inputs and gen.chance(draw, 1, 3):
            B, U = draw(gen.input_set(dims))
        return {'A': A, 'B': B, 'U': U}

    modes = [mode(n)]
    init, _ = draw(gen.init_spec(n, kinds))
    init['mode'] = 0
    ops = []
    cur = ref.init_set(init)
    k = draw(gen.ints(0, max_ops))
    total = 0

    for _ in range(k):
        m = modes[-1]
        kind = draw(st.sampled_from(['step', 'step', 'cut', 'cur'] + (['reset'] if resets else [])))

        # constraints over the current variables (guards) are only added right before a jump
        if ops and ops[-1][0] == 'cur' and kind != 'cur':
            if not resets:
                break
            kind = 'reset'

        if kind in ('cut', 'cur'):
            v = gen._vec(draw, cur.dims) # pylint: disable=protected-access
            hi, lo = cur.support(v), -cur.support([-x for x in v])
            f = draw(st.sampled_from([0.5, 0.75, 0.25, 1.5]))

            if hi - lo < 0.02 or (not margin and gen.chance(draw, 1, 6)):
                f = 1.5

            r = gen.q(lo + f * max(hi - lo, 0.02))
            ops.append([kind, v, r])
        elif kind == 'step':
            if total >= 8:
                continue
            total += 1
            ops.append(['step'])
        else:
            if len(modes) >= 3:
                continue
            n2 = cur.dims if gen.chance(draw, 1, 2) else draw(gen.ints(1, 3))
            R, mink = draw(gen.reset_spec(cur.dims, n2))
            ops.append(['reset', R, mink])
            modes.append(mode(n2))

        cur = apply_ref(cur, ops[-1], m, h)

    if last_dims is not None and cur.dims != last_dims:
        R, mink = draw(gen.reset_spec(cur.dims, last_dims))
        ops.append(['reset', R, mink])
        modes.append(mode(last_dims))

    return {'h': h, 'modes': modes, 'init': init, 'ops': ops}

def apply_ref(cur, op, m, h):
    'one operation on a reference set'

    if op[0] == 'step':
        M, G = ref.step_matrices(m['A'], m['B'], h)
        return cur.linear(M, G, m['U'])

    if op[0] in ('cut', 'cur'):
        return cur.cut([(op[1], op[2])])

    return model.apply_reset({'R': op[1], 'mink': op[2]}, cur)

def build_ref(rec):
    'reference set of a recipe'

    cur = ref.init_set(rec['init'])
    mi = 0

    for op in rec['ops']:
        cur = apply_ref(cur, op, rec['modes'][mi], rec['h'])
        mi += 1 if op[0] == 'reset' else 0

    return cur

def build_state(rec, ha=None, on_op=None):
    'the same with the code under test: a StateSet in the last mode'

    from hylaa.hybrid_automaton import HybridAutomaton
    from hylaa.stateset import StateSet
    from hylaa import lputil
    from scipy.sparse import csr_matrix

    ha = ha or HybridAutomaton()
    modes = []

    for m in rec['modes']:
        mode = ha.new_mode(f'mode{len(ha.modes)}')
        mode.set_dynamics(np.array(m['A'], dtype=float))

        if m['B'] is not None:
            mode.set_inputs(np.array(m['B'], dtype=float), np.array(m['U'][0], dtype=float),
                            np.array(m['U'][1], dtype=float), allow_constants=True)

        mode.init_time_elapse(rec['h'])
        modes.append(mode)

    mi = 0
    state = StateSet(model.make_lpi(rec['init'], modes[0]), modes[0])

    for op in rec['ops']:
        if op[0] == 'step':
            state.step()
        elif op[0] == 'cut':
            lputil.add_init_constraint(state.lpi, np.array(op[1], dtype=float), op[2], state.basis_matrix,
                                       state.input_effects_list)
        elif op[0] == 'cur':
            lputil.add_curtime_constraints(state.lpi, csr_matrix(np.array([op[1]], dtype=float)), np.array([op[2]]))
        else:
            mk = op[2]
            mi += 1
            M = C = rhs = None

            if mk is not None:
                C = csr_matrix(np.array(mk['C'], dtype=float))
                rhs = np.array(mk['rhs'], dtype=float)
                M = csr_matrix(np.identity(C.shape[1]) if mk['M'] is None else np.array(mk['M'], dtype=float))

            lputil.add_reset_variables(state.lpi, modes[mi].mode_id, 0, None if op[1] is None else csr_matrix(np.array(op[1], dtype=float)), M, C,
                                       rhs, successor_has_inputs=rec['modes'][mi]['B'] is not None)
            state = StateSet(state.lpi, modes[mi])

        if on_op is not None:
            on_op(state, op)

    return state

def dirs(draw_seed, n, extra=()):
    'test directions'

    return ref.directions(n, extra, seed=draw_seed, num_random=4)

def lpi_support(lpi, d):
    'support of the set as reported by the code itself (its own LP solver)'

    d = np.asarray(d, dtype=float)
    res = lpi.minimize(direction_vec=-d, columns=[lpi.cur_vars_offset + i for i in range(lpi.dims)])

    return float(np.dot(d, res))

def close(a, b, scale, tol=1e-6):
    'equal up to tolerance'

    return abs(a - b) <= tol * max(1.0, scale)
