'''C17: building models'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.runner import Discard, Violation

ID = 'C17'
QUICK = 1500
THOROUGH = 15000
RULE = ('random automata written in different but equivalent ways (lists, arrays, integers, sparse matrices with explicit '
        'zeros, unsorted columns, matrices shared by several modes, constraint order), with one random mistake in a third of '
        'the cases, and point queries; oracle: same visited sets as the plain description, arguments unchanged, mistakes '
        'refused before the analysis starts, queries compared with the constraints; non-trivial: other representations used '
        'in a run with a jump, a refused mistake, or queries with both answers')

BAD = ['A_shape', 'inv_width', 'inv_len', 'inv_empty', 'inv_first', 'guard_width', 'guard_len', 'guard_empty', 'guard_none',
       'reset_rows', 'reset_cols', 'reset_dims', 'mink_rows', 'mink_width', 'mink_len', 'mink_empty', 'B_rows', 'U_width',
       'U_len', 'U_empty', 'U_const', 'B_first', 'mode_name', 'error_out', 'typo_mode', 'typo_trans', 'typo_settings',
       'typo_plot', 'box_dims', 'box_order', 'cons_width', 'init_list', 'init_type', 'zono_dims']

@st.composite
def _case(draw):
    kind = draw(st.sampled_from(['repr', 'repr', 'repr', 'bad', 'point']))

    if kind == 'repr':
        spec = draw(gen.automaton(max_trans=3, max_steps=5, pad=False))
        spec['settings'] = {'agg': draw(st.sampled_from(['none', 'none', 'box', 'chull'])), 'urgent': draw(st.booleans()),
                            'strengthen': draw(st.booleans())}

        return {'kind': kind, 'spec': spec, 'reps': [draw(gen.ints(0, 6)) for _ in range(8)], 'share': draw(st.booleans()),
                'swap': draw(st.booleans()), 'split': draw(st.booleans())}

    if kind == 'bad':
        return {'kind': kind, 'n': draw(gen.ints(1, 3)), 'm': draw(gen.ints(1, 3)),
                'k': draw(gen.ints(1, 2)), 'reps': [draw(gen.ints(0, 6)) for _ in range(4)],
                'A': draw(gen.a_matrix(3)), 'rows': draw(gen.ints(1, 2)), 'more': draw(gen.ints(1, 2)),
                'less': draw(st.booleans())}

    n = draw(gen.ints(1, 3))
    rows = [[gen._vec(draw, n), draw(gen.ints(-4, 4)) / 2] for _ in range(draw(gen.ints(0, 3)))] # pylint: disable=protected-access

    return {'kind': kind, 'n': n, 'rows': rows, 'reps': [draw(gen.ints(0, 6)) for _ in range(4)],
            'pts': [[draw(gen.ints(-4, 4)) / 4 for _ in range(n)] for _ in range(6)],
            'R': [[draw(gen.ints(-2, 2)) / 2 for _ in range(n)] for _ in range(n)] if draw(st.booleans()) else None,
            'bump': draw(st.sampled_from([0.0, 0.0, 1e-15, 0.5, 1e-3])), 'tol': draw(st.sampled_from([1e-13, 1e-6, 0.01]))}

def strategy():
    'cases'
    return _case()

class Writer():
    'writes matrices in various ways'

    def __init__(self, reps, share):
        self.reps = reps
        self.share = share
        self.pos = 0
        self.made = [] # (object, copy)
        self.cache = {}

    def matrix(self, mat):
        'a matrix in the next representation'

        mat = np.array(mat, dtype=float)
        key = (mat.tobytes(), mat.shape)

        if self.share and key in self.cache:
            return self.cache[key]

        rv = self.convert(mat, self.reps[self.pos % len(self.reps)])
        self.pos += 1
        self.remember(rv)
        self.cache[key] = rv

        return rv

    def remember(self, obj):
        'arguments must not change'

        self.made.append((obj, [list(r) if isinstance(r, list) else r for r in obj] if isinstance(obj, list) else obj.copy()))

    def vector(self, vec):
        'a right-hand side'

        kind = self.reps[self.pos % len(self.reps)]
        self.pos += 1
        vec = [float(x) for x in vec]

        if kind % 3 == 0:
            rv = vec
        elif kind % 3 == 1:
            rv = np.array(vec)
        else:
            rv = np.array([int(x) for x in vec]) if all(x == int(x) for x in vec) else np.array(vec)

        if len(vec) > 0:
            self.remember(rv)

        return rv

    @staticmethod
    def convert(mat, kind): # pylint: disable=too-many-return-statements
        'one of several representations of the same matrix'

        from scipy.sparse import csr_matrix, csc_matrix

        if kind == 0:
            return mat.tolist()
        if kind == 1:
            return mat
        if kind == 2:
            return csr_matrix(mat)
        if kind == 3: # integers, where possible
            return mat.astype(int) if (mat == mat.astype(int)).all() else mat
        if kind == 4: # all entries are stored, also zeros
            r, c = mat.shape
            return csr_matrix((mat.flatten(), np.tile(np.arange(c), r), np.arange(r + 1) * c), shape=(r, c))
        if kind == 5: # columns in descending order
            m = csr_matrix(mat)
            idx, data = m.indices.copy(), m.data.copy()

            for i in range(mat.shape[0]):
                a, b = m.indptr[i], m.indptr[i + 1]
                idx[a:b], data[a:b] = m.indices[a:b][::-1], m.data[a:b][::-1]

            return csr_matrix((data, idx, m.indptr.copy()), shape=mat.shape)

        return csc_matrix(mat)

    def check_unchanged(self):
        'no argument was modified'

        for obj, copy in self.made:
            if isinstance(obj, list):
                same = obj == copy
            elif isinstance(obj, np.ndarray):
                same = np.array_equal(obj, copy)
            else:
                same = obj.shape == copy.shape and not (obj != copy).nnz

            if not same:
                raise Violation('argument_modified', f'an argument was changed from {copy} to {obj}')

def build(spec, w, swap):
    'like model.build_ha, through the writer'

    from hylaa.hybrid_automaton import HybridAutomaton

    ha = HybridAutomaton()
    modes = [ha.new_mode(m['name']) for m in spec['modes']]
    order = -1 if swap else 1

    for mode, m in zip(modes, spec['modes']):
        if m['A'] is None:
            continue

        mode.set_dynamics(w.matrix(m['A']))
        inv = m['inv'][::order]

        def inputs(mode=mode, m=m):
            'input part'

            if m['B'] is not None:
                mode.set_inputs(w.matrix(m['B']), w.matrix(m['U'][0]), w.vector(m['U'][1]), allow_constants=True)

        if swap:
            inputs()

        if inv:
            mode.set_invariant(w.matrix([r[0] for r in inv]), w.vector([r[1] for r in inv]))

        if not swap:
            inputs()

    for t in spec['trans']:
        tr = ha.new_transition(modes[t['src']], modes[t['dst']])
        guard = t['guard'][::order]

        def set_reset(tr=tr, t=t):
            'reset part'

            mk = t.get('mink')

            if t['R'] is not None or mk is not None:
                tr.set_reset(None if t['R'] is None else w.matrix(t['R']),
                             None if not mk or mk['M'] is None else w.matrix(mk['M']),
                             None if not mk else w.matrix(mk['C']), None if not mk else w.vector(mk['rhs']))

        if swap:
            set_reset()

        if guard:
            tr.set_guard(w.matrix([g[0] for g in guard]), w.vector([g[1] for g in guard]))
        else:
            tr.set_guard_true()

        if not swap:
            set_reset()

    return ha, modes

def explore(ha, modes, spec, w=None):
    'all visited sets'

    from hylaa import lputil
    from hylaa.stateset import StateSet

    init = []

    for s in spec['init']:
        mode = modes[s['mode']]

        if w is None or s['type'] == 'zono':
            lpi = model.make_lpi(s, mode)
        elif s['type'] == 'box':
            box = np.array(s['box']) if w.reps[0] % 2 else [list(b) for b in s['box']]
            lpi = lputil.from_box(box, mode)
        else:
            lpi = lputil.from_constraints(w.matrix(s['C']), w.vector(s['rhs']), mode)

        init.append(StateSet(lpi, mode))

    core = model.bounded_core(ha, model.make_settings(spec))

    try:
        core.setup(init)
    except RuntimeError as e:
        if 'feasible initial states' in str(e):
            return None, None

        raise

    rv = []

    while not core.is_finished():
        core.do_step()
        state = core.aggdag.get_cur_state()

        if state is not None and not state.mode.is_error():
            rv.append(model.Record(state))

        if len(rv) > 150:
            raise Discard('too many sets')

    return rv, core.result

def run_repr(case):
    'equivalent descriptions'

    spec = case['spec']
    ha, modes, _ = model.build_ha(spec)
    want, res = explore(ha, modes, spec)
    w = Writer(case['reps'], case['share'])
    ha2, modes2 = build(spec, w, case['swap'])
    got, res2 = explore(ha2, modes2, spec, w)
    w.check_unchanged()

    if (want is None) != (got is None):
        raise Violation('init', 'initial states depend on the representation')

    if want is None:
        return ['empty_init']

    # borderline intersections may depend on the order of the constraints
    close = None

    def is_close():
        'borderline model?'

        a, b = model.ref_tree(spec, 1e-6), model.ref_tree(spec, -1e-6)

        return a.truncated or [(n.path, len(n.sets)) for n in a.nodes] != [(n.path, len(n.sets)) for n in b.nodes] or \
            len(a.errors) != len(b.errors)

    if [(r.mode, r.step_in_mode, r.lo, r.hi, r.concrete) for r in want] != \
            [(r.mode, r.step_in_mode, r.lo, r.hi, r.concrete) for r in got]:
        close = is_close()

        if not close:
            raise Violation('visited', 'the visited modes and steps depend on how the model is written')

    if not close and (res.has_concrete_error, res.has_aggregated_error) != (res2.has_concrete_error, res2.has_aggregated_error):
        if not is_close():
            raise Violation('verdict', 'the verdict depends on how the model is written')

    if not close and spec['settings']['agg'] == 'none':
        for a, b in zip(want, got):
            for d in ref.directions(a.set.dims, num_random=1):
                x, y = a.set.support(d), b.set.support(d)

                if abs(x - y) > 1e-5 * (1 + abs(x)) and not (np.isinf(x) or np.isinf(y)):
                    if is_close():
                        break

                    raise Violation('sets', f'set in {a.mode} at step {a.step_in_mode} extends to {y} in {d}, {x} in the plain '
                                    'description')

    labels = ['kind:repr', 'agg:' + spec['settings']['agg']]

    if len({(r.mode, r.lo - r.step_in_mode) for r in want}) > 1:
        labels.append('nt:jump')

    return labels

def run_bad(case):
    'one mistake of each kind'

    for bad in BAD + [None]:
        one_mistake(case, bad)

    return ['kind:bad', 'nt:refused']

def one_mistake(case, bad): # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    'one mistake'

    from hylaa import lputil
    from hylaa.core import Core
    from hylaa.hybrid_automaton import HybridAutomaton
    from hylaa.settings import HylaaSettings
    from hylaa.stateset import StateSet

    n, m, k, more = case['n'], case['m'], case['k'], case['more']
    wrong = n - 1 if case['less'] and n > 1 else n + more
    rows = case['rows']
    w = Writer(case['reps'], False)
    A = np.array(case['A'])[:n, :n]
    A2 = np.array(case['A'])[:m, :m]

    def cons(width, num=rows):
        'feasible rows'
        return [[1.0 if i == j % width else 0.0 for i in range(width)] for j in range(num)]

    def empty(width):
        'infeasible rows'
        return [[1.0] * width, [-1.0] * width], [0.0, -0.5]

    def build_it(): # pylint: disable=too-many-branches,too-many-statements
        'the model with the mistake (or without)'

        ha = HybridAutomaton()
        a = ha.new_mode('a')
        b = ha.new_mode('b')
        err = ha.new_mode('error')

        if bad == 'mode_name':
            ha.new_mode('b')

        if bad == 'inv_first':
            a.set_invariant(w.matrix(cons(n)), w.vector([9.0] * rows))
        if bad == 'B_first':
            a.set_inputs(w.matrix(np.ones((n, 1))), [[1.0], [-1.0]], [1.0, 1.0])

        a.set_dynamics(w.matrix(A if bad != 'A_shape' else np.hstack([A, np.ones((n, more))])))
        b.set_dynamics(w.matrix(A2))

        if bad == 'inv_width':
            a.set_invariant(w.matrix(cons(wrong)), w.vector([9.0] * rows))
        elif bad == 'inv_len':
            a.set_invariant(w.matrix(cons(n)), w.vector([9.0] * (rows + more)))
        elif bad == 'inv_empty':
            a.set_invariant(w.matrix(empty(n)[0]), w.vector(empty(n)[1]))
        else:
            a.set_invariant(w.matrix(cons(n)), w.vector([9.0] * rows))

        U = [[1.0 if i == j else 0.0 for i in range(k)] for j in range(k)]
        U += [[-x for x in r] for r in U]
        Urhs = [1.0] * (2 * k)
        B = np.ones((n, k))

        if bad == 'B_rows':
            B = np.ones((wrong, k))
        elif bad == 'U_width':
            U = [r + [0.0] * more for r in U]
        elif bad == 'U_len':
            Urhs = Urhs + [1.0] * more if case['less'] else Urhs[:-1]
        elif bad == 'U_empty':
            U, Urhs = empty(k)
        elif bad == 'U_const':
            B = np.zeros((n, k))
            B[0] = 1.0
            Urhs[k - 1], Urhs[-1] = 0.25, -0.25

        a.set_inputs(w.matrix(B), w.matrix(U), w.vector(Urhs))
        t = ha.new_transition(a, b)
        t2 = ha.new_transition(a, err)
        t2.set_guard(w.matrix(cons(n)), w.vector([-50.0] * rows))

        if bad == 'error_out':
            t3 = ha.new_transition(err, a)
            t3.set_guard_true()

        if bad == 'guard_width':
            t.set_guard(w.matrix(cons(wrong)), w.vector([1.0] * rows))
        elif bad == 'guard_len':
            t.set_guard(w.matrix(cons(n)), w.vector([1.0] * (rows + more)))
        elif bad == 'guard_empty':
            t.set_guard(w.matrix(empty(n)[0]), w.vector(empty(n)[1]))
        elif bad != 'guard_none':
            t.set_guard(w.matrix(cons(n)), w.vector([1.0] * rows))

        R = np.zeros((m, n))
        M, C, rhs = np.ones((m, k)), U_ok(k), [1.0] * (2 * k)

        if bad == 'reset_rows':
            R = np.zeros((m + more, n))
        elif bad == 'reset_cols':
            R = np.zeros((m, wrong))
        elif bad == 'mink_rows':
            M = np.ones((m + more, k))
        elif bad == 'mink_width':
            M = np.ones((m, k + more))
        elif bad == 'mink_len':
            rhs = rhs + [1.0] * more if case['less'] else rhs[:-1]
        elif bad == 'mink_empty':
            C, rhs = empty(k)

        if bad == 'reset_dims' and n != m:
            if case['less']:
                t.set_reset(None, w.matrix(M), w.matrix(C), w.vector(rhs))
        elif bad == 'reset_dims':
            t.set_reset(np.zeros((m + 1, n)))
        else:
            t.set_reset(w.matrix(R), w.matrix(M), w.matrix(C), w.vector(rhs))

        if bad == 'typo_mode':
            a.invariant = 1
        if bad == 'typo_trans':
            t.guard = 1

        settings = HylaaSettings(0.25, 0.5)
        settings.stdout = HylaaSettings.STDOUT_NONE

        if bad == 'typo_settings':
            settings.stop_on_error = True
        if bad == 'typo_plot':
            settings.plot.xdim = 1

        box = [(0.0, 0.5)] * n

        if bad == 'box_dims':
            box = [(0.0, 0.5)] * wrong
        if bad == 'box_order':
            box = [(0.5, 0.0)] * n

        if bad == 'cons_width':
            lpi = lputil.from_constraints(w.matrix(np.vstack([np.eye(wrong), -np.eye(wrong)])), [0.5] * (2 * wrong), a)
        elif bad == 'zono_dims':
            lpi = lputil.from_zonotope([0.0] * n, [[1.0] * wrong], a)
        else:
            lpi = lputil.from_box(box, a)

        init = [StateSet(lpi, a)]

        if bad == 'init_list':
            init = init[0] if case['less'] else []
        if bad == 'init_type':
            init = [lpi]

        core = Core(ha, settings)
        core.setup(init)

        return core

    refused = core = None

    try:
        core = build_it()
    except (AssertionError, RuntimeError, ValueError, TypeError) as e:
        refused = e

    if bad is not None:
        if refused is None:
            raise Violation('accepted_' + bad, f'a model with the mistake {bad} is accepted')

        return

    # the same model without the mistake is accepted
    if refused is not None:
        raise Violation('refused', f'a correct model is refused: {type(refused).__name__}: {refused}')

    while not core.is_finished():
        core.do_step()

def U_ok(k):
    'box constraints'

    rows = [[1.0 if i == j else 0.0 for i in range(k)] for j in range(k)]

    return rows + [[-x for x in r] for r in rows]

def run_point(case): # pylint: disable=too-many-branches
    'queries about points'

    from hylaa.hybrid_automaton import HybridAutomaton, LinearConstraint

    n = case['n']
    w = Writer(case['reps'], False)
    ha = HybridAutomaton()
    a, b = ha.new_mode('a'), ha.new_mode('b')
    a.set_dynamics(np.eye(n))
    b.set_dynamics(np.eye(n))
    t = ha.new_transition(a, b)
    rows = case['rows']

    if rows:
        if not ref.cons_set([r[0] for r in rows], [r[1] for r in rows]).feasible():
            raise Discard('empty')

        a.set_invariant(w.matrix([r[0] for r in rows]), w.vector([r[1] for r in rows]))
        t.set_guard(w.matrix([r[0] for r in rows]), w.vector([r[1] for r in rows]))
    else:
        t.set_guard_true()

    if case['R'] is not None:
        t.set_reset(w.matrix(case['R']))

    answers = set()

    for p in case['pts']:
        p = np.array(p)
        want = all(np.dot(v, p) <= r for v, r in rows)
        answers.add(want)

        if bool(a.point_in_invariant(p)) != want:
            raise Violation('point_invariant', f'point_in_invariant({p}) = {not want} for {rows}')

        if bool(t.is_guard_true_for_point(p)) != want:
            raise Violation('point_guard', f'is_guard_true_for_point({p}) = {not want} for {rows}')

        q, mode = t.apply_reset_for_point(p)
        image = p if case['R'] is None else np.array(case['R']) @ p

        if mode is not b or np.abs(np.asarray(q) - image).max() > 1e-12:
            raise Violation('point_reset', f'reset of {p} is {q} in {mode}, expected {image}')

    for v, r in rows:
        lc = LinearConstraint(w.matrix([v]), r)
        neg = lc.negate()

        for p in case['pts']:
            p = np.array(p)

            if bool(lc.is_true_for_point(p)) != (np.dot(v, p) <= r) or bool(neg.is_true_for_point(p)) != (np.dot(v, p) >= r):
                raise Violation('constraint', f'{v} x <= {r} or its negation is wrong for {p}')

        u = list(v)
        u[0] += case['bump']
        other = LinearConstraint(w.matrix([u]), r)
        want = case['bump'] <= case['tol']

        if bool(lc.almost_equals(other, case['tol'])) != want or bool(other.almost_equals(lc, case['tol'])) != want or \
                not lc.almost_equals(lc, case['tol']) or lc.almost_equals(LinearConstraint([v], r + 1), case['tol']):
            raise Violation('almost_equals', f'almost_equals of {v} and {u} with tolerance {case["tol"]} should be {want}')

    w.check_unchanged()

    return ['kind:point'] + (['nt:query'] if len(answers) == 2 else [])

def run_case(case):
    'one case'

    return {'repr': run_repr, 'bad': run_bad, 'point': run_point}[case['kind']](case)
