'''C08: time-elapse matrices'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref, sets
from pbt.runner import Violation

ID = 'C08'
QUICK = 1500
THOROUGH = 20000
RULE = ('random dynamics (1-6 variables: integer, stable, rotating, nilpotent, zero; with and without inputs) and a random '
        'history of step queries (forwards, jumps, backwards, repeated, several modes interleaved, the LGG model switched '
        'on, re-initialisation with another step size), and of state sets that jump several steps at once; oracle: '
        'closed-form e^{Akh} and input integrals from an independent Pade expm; non-trivial: a query that is not one step '
        'after the previous one, or inputs')
ASSUMPTIONS = ['agreement up to 1e-7 relative to the largest entry (plus accumulated rounding)']

@st.composite
def _mode(draw):
    n = draw(gen.ints(1, 6))
    A = draw(gen.a_matrix(n))
    B = U = None

    if draw(st.booleans()):
        B, U = draw(gen.input_set(n))

    return {'A': A, 'B': B, 'U': U}

@st.composite
def _case(draw):
    modes = [draw(_mode()) for _ in range(draw(gen.ints(1, 2)))]
    ops = []
    cur = [0] * len(modes)

    for _ in range(draw(gen.ints(1, 12))):
        mi = draw(gen.ints(0, len(modes) - 1))
        kind = draw(st.sampled_from(['next', 'next', 'next', 'jump', 'jump', 'back', 'same', 'lgg', 'init']))

        if kind == 'lgg':
            ops.append(['lgg', mi])
        elif kind == 'init':
            if gen.chance(draw, 1, 3):
                ops.append(['init', mi, draw(st.sampled_from([0.1, 0.5, 0.25]))])
                cur[mi] = 0
        else:
            if kind == 'next':
                k = cur[mi] + 1
            elif kind == 'jump':
                k = cur[mi] + draw(gen.ints(2, 5))
            elif kind == 'back':
                k = draw(gen.ints(0, cur[mi]))
            else:
                k = cur[mi]

            k = min(k, 25)
            cur[mi] = k
            ops.append(['get', mi, k])

    c = {'h': draw(st.sampled_from([0.25, 0.1, 0.01, 0.5, 1.0])), 'modes': modes, 'ops': ops}

    # a state set that advances by jumps
    if gen.chance(draw, 1, 2):
        c['init'], _ = draw(gen.init_spec(len(modes[0]['A'])))
        steps = sorted({draw(gen.ints(1, 9)) for _ in range(draw(gen.ints(1, 4)))})
        c['jumps'] = steps

    return c

def strategy():
    'cases'
    return _case()

def run_case(c):
    'one case'

    from hylaa.hybrid_automaton import HybridAutomaton
    from hylaa.stateset import StateSet

    ha = HybridAutomaton()
    modes = []
    steps = []
    lgg = []
    labels = set()

    for i, m in enumerate(c['modes']):
        mode = ha.new_mode(f'm{i}')
        mode.set_dynamics(np.array(m['A']))

        if m['B'] is not None:
            mode.set_inputs(np.array(m['B']), np.array(m['U'][0]), np.array(m['U'][1]), allow_constants=True)

        mode.init_time_elapse(c['h'])
        modes.append(mode)
        steps.append(c['h'])
        lgg.append(False)

    kept = []
    last = [None] * len(modes)

    for op in c['ops']:
        mi = op[1]
        m = c['modes'][mi]
        A = np.array(m['A'])
        n = len(A)

        if op[0] == 'init':
            modes[mi].init_time_elapse(op[2])
            steps[mi] = op[2]
            lgg[mi] = False
            last[mi] = None
            continue

        if op[0] == 'lgg':
            # the analysis switches it on after the first query, only with inputs
            if m['B'] is not None and last[mi] is not None:
                modes[mi].time_elapse.use_lgg_approx()
                lgg[mi] = True
                last[mi] = -5 # (an exact input matrix may not be continued: next query from scratch)
                modes[mi].time_elapse.get_basis_matrix(0)
                last[mi] = 0
                labels.add('nt:lgg')
            continue

        k = op[2]
        h = steps[mi]
        bm, ie = modes[mi].time_elapse.get_basis_matrix(k)
        want = ref.step_matrices(A, None, h * k)[0]
        check('basis', bm, want, k, m, h)
        want_ie = None

        if m['B'] is not None and k > 0:
            prev = ref.step_matrices(A, None, h * (k - 1))[0]

            if lgg[mi]:
                want_ie = np.hstack([prev @ np.array(m['B']) * h, prev])
            else:
                want_ie = prev @ ref.step_matrices(A, m['B'], h)[1]

            check('inputs', ie, want_ie, k, m, h)
            labels.add('nt:inputs')
        elif ie is not None:
            raise Violation('inputs_none', f'input effects at step {k} without inputs')

        kept.append((bm, want, ie, want_ie, k, m, h))

        if last[mi] is None and k > 1 or last[mi] is not None and k != last[mi] + 1:
            labels.add('nt:jump')

        last[mi] = k

    # matrices handed out before stay valid (state sets keep them)
    for bm, want, ie, want_ie, k, m, h in kept:
        check('basis_kept', bm, want, k, m, h)

        if want_ie is not None:
            check('inputs_kept', ie, want_ie, k, m, h)

    if 'jumps' in c:
        m = c['modes'][0]
        modes[0].init_time_elapse(c['h'])
        state = StateSet(model.make_lpi(c['init'], modes[0]), modes[0])
        cur = ref.init_set(c['init'])
        M, G = ref.step_matrices(m['A'], m['B'], c['h'])
        k = 0

        for j in c['jumps']:
            state.step(j)

            while k < j:
                cur = cur.linear(M, G, m['U'])
                k += 1

            if state.cur_step_in_mode != j or list(state.cur_steps_since_start) != [j, j]:
                raise Violation('step_count', f'after step({j}) the counters are {state.cur_step_in_mode} '
                                f'{state.cur_steps_since_start}')

            got = model.lpi_to_ref(state.lpi)

            for d in sets.dirs(j, cur.dims):
                a, b = got.support(d), cur.support(d)

                if not sets.close(a, b, abs(b) + abs(cur.support(-d)), 1e-6):
                    raise Violation('jump_set', f'step({j}): support in {d.tolist()} is {a}, expected {b}')

        labels.add('nt:state_jumps')

    return sorted(labels) or ['sequential']

def check(what, got, want, k, m, h):
    'compare matrices'

    got = np.asarray(got)

    if got.shape != want.shape:
        raise Violation(what + '_shape', f'step {k}: shape {got.shape}, expected {want.shape}')

    err = np.abs(got - want).max() if got.size else 0.0
    # rounding is amplified by the norm of the powers
    norm = max(np.abs(want).max() if want.size else 0.0,
               max(np.abs(ref.step_matrices(m['A'], None, h * j)[0]).max() for j in (0, k)))

    if not err <= 1e-7 * max(1.0, norm):
        raise Violation(what, f'step {k} (step size {h}, A={m["A"]}): error {err:.3e}')
