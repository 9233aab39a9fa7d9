'''C12: time-triggered transitions'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.props import c01, c02
from pbt.runner import Discard, Violation

ID = 'C12'
QUICK = 1500
THOROUGH = 15000
RULE = ('random hybrid automata with clocks (x\' = c a, a\' = 0) and guards that negate an invariant over the clocks, hit '
        'exactly, between two steps, or by an interval of clock values or rates, next to ordinary transitions; oracle: '
        'independent path enumeration with one-step semantics exactly where the transition is time-triggered, bracketed '
        'around the documented relaxation; non-trivial: a time-triggered transition was taken')
ASSUMPTIONS = ['states within 1e-4 of the end of a time-triggered invariant may go either way, as in the documentation']

EPS = 1e-6
DELTA = 1e-4

@st.composite
def _case(draw): # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    h = draw(st.sampled_from([0.1, 0.25, 0.05, 0.5, 1.0]))
    num_steps = draw(gen.ints(2, 9))
    k = draw(gen.ints(1, 2)) # ordinary variables
    clocks = draw(st.sampled_from([1, 1, 1, 2]))
    n = k + clocks + 1 # ..., clocks, constant
    a = n - 1
    nm = draw(gen.ints(1, 3))
    affine = draw(st.sampled_from([[1.0, 1.0]] * 6 + [[2.0, 2.0], [-1.0, -1.0], [0.0, 0.0], [0.5, 1.0], [1.0, 1.1], [-1.0, 1.0]]))
    box = []

    for _ in range(k):
        c = draw(gen.ints(-4, 4)) / 4
        w = draw(st.sampled_from([0.25, 0.0, 0.5]))
        box.append([gen.q(c - w / 2), gen.q(c + w / 2)])

    for _ in range(clocks):
        w = draw(st.sampled_from([0.0] * 5 + [h / 2, 2 * h]))
        s = draw(st.sampled_from([0.0, 0.0, h, -h]))
        box.append([gen.q(s), gen.q(s + w)])

    box.append(affine)
    a0 = affine[1] if affine[1] else 1.0
    modes, trans = [], []
    err = draw(st.booleans())

    for i in range(nm):
        A = np.zeros((n, n))
        A[:k, :k] = draw(gen.a_matrix(k))

        for j in range(k):
            if gen.chance(draw, 1, 3):
                A[j, a] = draw(gen.ints(-2, 2)) / 2

        rates = []

        for c in range(clocks):
            rates.append(draw(st.sampled_from([1.0, 1.0, 1.0, -1.0, 0.5, 2.0])))
            A[k + c, a] = rates[-1]

        B = U = None

        if gen.chance(draw, 1, 5):
            B = np.zeros((n, 1))
            B[draw(gen.ints(0, k - 1)), 0] = 0.5

            if gen.chance(draw, 1, 6): # drifting clock: not time-triggered
                B[k, 0] = 0.25

            B = B.tolist()
            U = [[[1.0], [-1.0]], [0.5, 0.5]]

        modes.append({'name': draw(st.sampled_from(['m', 'a', 'z'])) + str(i), 'A': [[gen.q(x) for x in r] for r in A], 'B': B,
                      'U': U, 'inv': []})
        num = draw(gen.ints(1, 2))

        for _ in range(num):
            # clock condition v x <= K
            v = np.zeros(n)
            which = draw(gen.ints(0, clocks - 1))
            v[k + which] = draw(st.sampled_from([1.0, 1.0, 2.0]))

            if clocks == 2 and gen.chance(draw, 1, 4):
                v[k + 1 - which] = draw(st.sampled_from([1.0, -1.0]))

            rate = float(np.dot(v, A[:, a])) * a0
            start = float(np.dot(v, [x[0] for x in box]))

            if rate < 0 and gen.chance(draw, 7, 8):
                v, rate, start = -v, -rate, -start

            steps = draw(gen.ints(0, num_steps))
            K = start + rate * h * steps * (1.0 + 0.0) + draw(st.sampled_from([0.0, 0.0, 0.0, rate * h / 2]))
            K = gen.q(K)

            if gen.chance(draw, 7, 8):
                modes[i]['inv'].append([v.tolist(), K])

            guard = [[(-v + 0.0).tolist(), -K + 0.0]]

            if gen.chance(draw, 1, 6): # not the exact negation
                near = draw(st.sampled_from(['shift', 'shift', 'coef', 'scaled', 'sign']))

                if near == 'shift':
                    guard[0][1] += draw(st.sampled_from([0.05, -0.05]))
                elif near == 'coef': # the same right-hand side
                    guard[0][0] = [x * draw(st.sampled_from([2.0, 0.5])) for x in guard[0][0]]
                elif near == 'scaled':
                    f = draw(st.sampled_from([2.0, 0.5]))
                    guard[0] = [[x * f for x in guard[0][0]], gen.q(guard[0][1] * f)]
                else:
                    guard[0] = [v.tolist(), K]

            if gen.chance(draw, 1, 3): # a further condition
                g = gen._vec(draw, k) + [0.0] * (clocks + 1) # pylint: disable=protected-access
                guard.insert(draw(gen.ints(0, 1)), [g, draw(gen.ints(-4, 8)) / 4 + 0.013])

            if gen.chance(draw, 1, 8):
                guard = guard[1:] or guard

            dst = nm if err and gen.chance(draw, 1, 3) else draw(gen.ints(0, nm - 1))
            R = None

            if gen.chance(draw, 1, 2) or dst == i:
                R = np.eye(n)

                for c in range(clocks):
                    if draw(st.booleans()) or dst == i:
                        R[k + c, k + c] = 0.0

                if gen.chance(draw, 1, 3):
                    R[0, 0] = draw(st.sampled_from([0.5, -1.0]))

                R = R.tolist()

            trans.append({'src': i, 'dst': dst, 'guard': guard, 'R': R, 'mink': None})

        if gen.chance(draw, 1, 6):
            g = gen._vec(draw, k) + [0.0] * (clocks + 1) # pylint: disable=protected-access
            modes[i]['inv'].append([g, draw(gen.ints(2, 8)) / 4 + 0.017])

        if gen.chance(draw, 1, 8): # an ordinary transition
            g = gen._vec(draw, k) + [0.0] * (clocks + 1) # pylint: disable=protected-access
            trans.append({'src': i, 'dst': draw(gen.ints(0, nm - 1)), 'guard': [[g, draw(gen.ints(-2, 4)) / 4 + 0.019]],
                          'R': None, 'mink': None})

    for m in modes:
        if m['inv'] and not ref.cons_set([r[0] for r in m['inv']], [r[1] for r in m['inv']]).feasible():
            m['inv'] = m['inv'][:1]

    for t in trans:
        if not ref.cons_set([r[0] for r in t['guard']], [r[1] for r in t['guard']]).feasible():
            t['guard'] = t['guard'][:1]

    if err:
        modes.append({'name': 'error', 'A': None, 'B': None, 'U': None, 'inv': []})

    return {'step': h, 'num_steps': num_steps, 'modes': modes, 'trans': trans,
            'init': [{'type': 'box', 'box': box, 'mode': 0}],
            'settings': {'agg': draw(st.sampled_from(['none', 'none', 'none', 'box', 'chull'])), 'urgent': gen.chance(draw, 1, 4),
                         'strengthen': draw(st.booleans()), 'skip_zero': draw(st.booleans())}}

def strategy():
    'cases'
    return _case()

class Static():
    'which transitions are time-triggered, decided from the model alone'

    def __init__(self, spec):
        self.tt_rows = {} # transition index -> guard rows which negate an invariant
        self.clock_inv = set() # (mode, row) of the negated invariants
        self.spec = spec

        for j, t in enumerate(spec['trans']):
            m = spec['modes'][t['src']]
            clocks = self.clocks(m)

            if not all(self.over(v, clocks) for v, _ in m['inv']):
                continue

            for gi, (v, rhs) in enumerate(t['guard']):
                for ii, (w, r) in enumerate(m['inv']):
                    if self.over(v, clocks) and r == -rhs and all(x == -y for x, y in zip(v, w)):
                        self.tt_rows.setdefault(j, set()).add(gi)

        for i, m in enumerate(spec['modes']):
            for t in spec['trans']:
                if t['src'] == i:
                    for ii, (w, r) in enumerate(m['inv']):
                        if any(r == -rhs and all(x == -y for x, y in zip(v, w)) for v, rhs in t['guard']):
                            self.clock_inv.add((i, ii))

    @staticmethod
    def clocks(m):
        'variables whose derivative depends on constants only'

        A = np.array(m['A'])
        drift = [m['B'] is not None and any(m['B'][i]) for i in range(len(A))]
        const = {i for i in range(len(A)) if not A[i].any() and not drift[i]}

        return {i for i in range(len(A)) if A[i].any() and not drift[i] and all(j in const for j in np.nonzero(A[i])[0])}

    @staticmethod
    def over(v, clocks):
        'only over the given variables?'
        return all(i in clocks for i, x in enumerate(v) if x)

    def finished(self, j, rset):
        'True / False / None (close): is the whole set done once transition j was taken?'

        t = self.spec['trans'][j]
        A = np.array(self.spec['modes'][t['src']]['A'])
        rv = False

        for gi in self.tt_rows.get(j, ()):
            v, rhs = np.array(t['guard'][gi][0]), t['guard'][gi][1]
            wide = 0.0

            consts = {int(c) for i in np.nonzero(v)[0] for c in np.nonzero(A[i])[0]}

            for c in consts:
                e = np.eye(len(A))[c]
                lo, hi = -rset.support(-e), rset.support(e)
                wide = max(wide, hi - lo)

                if abs(lo) < 1e-3 and abs(hi) < 1e-3:
                    wide = np.inf

            lo, hi = -rset.support(-v), rset.support(v)
            rate = -rset.support(-(v @ A))
            wide = max(wide, hi - lo)

            if wide < 1e-8 and lo <= rhs + EPS and rate < -1e-3:
                return True # the condition holds and time moves into the guard

            if wide < 1e-3 and lo <= rhs + 1e-3 and rate < 1e-3:
                rv = None

        return rv

def tree(spec, side, max_nodes=60): # pylint: disable=too-many-locals,too-many-branches
    '''path enumeration. side < 0: lower bound (only what must be visited), side > 0: upper bound'''

    static = Static(spec)
    rv = model.Tree()
    rv.tt = 0
    relax = spec['step'] / spec['num_steps'] / 1000
    queue = [model.Node(((i,),), s['mode'], 0, ref.init_set(s)) for i, s in enumerate(spec['init'])]

    def guard_rows(j):
        'guard of a transition'

        tt = static.tt_rows.get(j, ())
        rows = []

        for gi, (v, r) in enumerate(spec['trans'][j]['guard']):
            scale = max(1.0, np.abs(v).sum())

            if gi in tt:
                rows.append([v, r + (0.5 * relax if side < 0 else relax + EPS * scale)])
            else:
                rows.append([v, r + side * EPS * scale])

        return rows

    def inv_rows(i):
        'invariant of a mode'

        rows = []

        for ii, (v, r) in enumerate(spec['modes'][i]['inv']):
            e = DELTA if side < 0 and (i, ii) in static.clock_inv else EPS
            rows.append([v, r + side * e * max(1.0, np.abs(v).sum())])

        return rows

    def take(node, k, cur):
        'guards; returns True if a time-triggered transition ends the exploration of this node'

        done = False

        for j, t in enumerate(spec['trans']):
            if t['src'] != node.mode:
                continue

            g = cur.cut(guard_rows(j))

            if not g.feasible():
                continue

            if j in static.tt_rows:
                f = static.finished(j, cur)

                if f is None:
                    raise Discard('close to a time-triggered boundary')

                # the upper bound may end only if the analysis certainly took the transition
                if f and cur.cut([[v, r + (0 if gi in static.tt_rows[j] else -EPS * max(1.0, np.abs(v).sum()))]
                                  for gi, (v, r) in enumerate([(v, r + 0.5 * relax * (gi in static.tt_rows[j]))
                                                               for gi, (v, r) in enumerate(t['guard'])])]).feasible():
                    done = True
                    rv.tt += 1

            if model.is_error(spec, t['dst']):
                rv.errors.append((node.path + ((j, k),), node.start + k, g))
                continue

            queue.append(model.Node(node.path + ((j, k),), t['dst'], node.start + k, model.apply_reset(t, g)))

        return done

    while queue:
        node = queue.pop(0)

        if len(rv.nodes) >= max_nodes:
            rv.truncated = True
            break

        m = spec['modes'][node.mode]
        M, G = ref.step_matrices(m['A'], m['B'], spec['step'])
        entry = [[v, r + side * EPS * max(1.0, np.abs(v).sum())] for v, r in m['inv']]
        cur = node.entry.cut(entry)

        if not cur.feasible():
            continue

        rv.nodes.append(node)
        node.sets.append(cur)
        done = spec['settings']['urgent'] and take(node, 0, cur)
        k = 0

        while node.start + k < spec['num_steps'] and not done:
            cur = cur.cut(inv_rows(node.mode))

            if not cur.feasible():
                break

            cur = cur.linear(M, G, m['U'])
            k += 1
            done = take(node, k, cur)
            node.sets.append(cur)

    return rv

def run_case(spec):
    'one case'

    hi = tree(spec, 1)

    if hi.truncated:
        raise Discard('too many paths')

    lo = tree(spec, -1)
    res, records, _ = model.explore(spec, tt=True)

    if res is None:
        if lo.nodes:
            raise Violation('no_init', 'analysis found no feasible initial states, but there are some')
        return ['empty_init']

    if max((np.abs(s.c).max() for nd in hi.nodes for s in nd.sets), default=0) > model.MAX_VALUE:
        raise Discard('large values')

    if spec['settings']['agg'] == 'none':
        c02.compare(spec, records, lo, hi)

        if (res.has_concrete_error and not hi.errors) or (lo.errors and not res.has_concrete_error):
            raise Violation('verdict', f'error reported: {res.has_concrete_error}, reachable: {bool(lo.errors)} / {bool(hi.errors)}')
    else:
        c01.check_cover(spec, records, lo)

        if lo.errors and not (res.has_aggregated_error or res.has_concrete_error):
            raise Violation('error_missed', f'error mode reachable via {lo.errors[0][0]}, but the result is safe')

    labels = ['agg:' + spec['settings']['agg']]

    if lo.tt and hi.tt:
        labels.append('nt:time_triggered')
    if lo.tt and any(len(nd.path) > 2 for nd in lo.nodes):
        labels.append('nt:several')
    if Static(spec).tt_rows and not hi.tt:
        labels.append('not_triggered')

    return labels
