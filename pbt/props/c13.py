'''C13: every single step of an aggregated analysis'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.runner import Discard, Violation

ID = 'C13'
QUICK = 900
THOROUGH = 10000
RULE = ('random hybrid automata x aggregation strategies (also user-defined ones that merge arbitrary waiting states) x pop '
        'orders x urgent / strengthening / zero-dynamics settings; every analysis step is judged on its own: which states are '
        'popped, the merged set (contains the parts, tight in its template, exact hull), the invariant cut, the continuous '
        'step, when a state is dropped, which successors appear and their sets; oracle: independent sets derived from the '
        'previous snapshot, bracketed by 1e-6; non-trivial: several states were merged and continued with a jump or a cut')
ASSUMPTIONS = ['guards and invariants within 1e-6 of touching may go either way']

EPS = 1e-6
TOL = 1e-5
MAX_STEPS = 80 # analysis steps that are judged in one case
MAX_COLS = 120 # repeated convex hulls grow

@st.composite
def _case(draw):
    spec = draw(gen.automaton(max_trans=4))
    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()), 'skip_zero': draw(st.booleans())}
    spec['settings'].update(draw(gen.agg_settings(('box', 'arnoldi', 'chull', 'none', 'box', 'arnoldi', 'chull'))))
    spec['custom'] = None

    if spec['settings']['agg'] != 'none' and gen.chance(draw, 1, 4):
        spec['custom'] = [draw(gen.ints(0, 63)) for _ in range(6)]

    return spec

def strategy():
    'cases'
    return _case()

def custom_strategy(spec, kind):
    'a user-defined strategy: merges some waiting states of one mode'

    from hylaa.aggstrat import Aggregated

    class Custom(Aggregated):
        'see above'

        def __init__(self, *args):
            self.choices = list(spec['custom'])
            self.calls = 0
            Aggregated.__init__(self, *args)

        def pop_waiting_list(self, waiting_list):
            'some of the states in the mode of one of them'

            c = self.choices[self.calls % len(self.choices)]
            self.calls += 1
            first = waiting_list[c % len(waiting_list)]
            rest = [op for op in waiting_list if op is not first and op.poststate.mode is first.poststate.mode]

            return [first] + [op for i, op in enumerate(rest) if (c >> (i % 6)) & 1]

    rv = Custom(kind)
    rv.add_guard = spec['settings']['guard_dirs']

    return rv

class Snap():
    'snapshot of a state'

    def __init__(self, state, op=None):
        self.mode = state.mode.name
        self.error = state.mode.is_error()
        self.iv = tuple(state.cur_steps_since_start)
        self.k = state.cur_step_in_mode
        self.concrete = state.is_concrete
        self.set = model.lpi_to_ref(state.lpi)
        self.op = op

        if not all(np.isfinite(self.set.support(s * e)) for e in np.eye(self.set.dims) for s in (1, -1)):
            raise Violation('empty_set', f'a state set in {self.mode} is empty or unbounded')

class Checker():
    'one run'

    def __init__(self, spec):
        self.spec = spec
        self.names = [m['name'] for m in spec['modes']]
        self.merged = self.jumps = self.cuts = self.border = 0
        self.mats = {}

    def sup(self, s, extra=()):
        'supports'

        return np.array([s.support(d) for d in ref.directions(s.dims, extra, num_random=1)])

    def between(self, got, lo, hi, what, where, extra=()): # pylint: disable=too-many-arguments
        'lo within got within hi'

        g = self.sup(got, extra)
        t = TOL * (1 + np.abs(g))

        if np.abs(g).max() > model.MAX_VALUE:
            raise Discard('large values')

        h = self.sup(hi, extra)

        if np.isfinite(h).all() and not (g <= h + t).all():
            raise Violation(what + '_large', f'{where}: supports {g.round(6).tolist()}, expected at most {h.round(6).tolist()}')

        l = self.sup(lo, extra)

        if np.isfinite(l).all() and not (g >= l - t).all():
            raise Violation(what + '_small', f'{where}: supports {g.round(6).tolist()}, expected at least {l.round(6).tolist()}')

    def matrices(self, mode):
        'one step'

        if mode not in self.mats:
            m = self.spec['modes'][mode]
            self.mats[mode] = ref.step_matrices(m['A'], m.get('B'), self.spec['step'])

        return self.mats[mode]

    def zero(self, mode):
        'nothing moves'

        m = self.spec['modes'][mode]

        return m.get('B') is None and not np.any(np.array(m['A']))

    def successors(self, cur, new_ops, src):
        'the operations that were added while the state was cur'

        mode = self.names.index(cur.mode)
        ops = list(new_ops)

        for j, t in enumerate(self.spec['trans']):
            if t['src'] != mode:
                continue

            mine = [s for s in ops if s.op.transition is self.transitions[j]]
            hi, lo = cur.set.cut(t['guard'], EPS), cur.set.cut(t['guard'], -EPS)
            where = f'transition {j} from {cur.mode} at step {cur.iv}'

            if len(mine) > 1:
                raise Violation('twice', f'{where}: {len(mine)} successors')

            if not mine:
                target = self.spec['modes'][t['dst']]
                low = model.apply_reset(t, lo)

                # with strengthened guards, successors outside of the target's invariant are not created
                if lo.feasible() and low.cut(target['inv'], -EPS).feasible():
                    raise Violation('no_successor', f'{where}: the guard is enabled, but there is no successor')

                continue

            s = mine[0]
            ops.remove(s)
            self.jumps += 1

            if not hi.feasible():
                raise Violation('false_successor', f'{where}: the guard is disabled')

            if s.iv != cur.iv or s.concrete != cur.concrete or s.mode != self.names[t['dst']] or s.k != 0:
                raise Violation('successor_data', f'{where}: successor has mode {s.mode}, steps {s.iv}, {s.k} in mode, concrete '
                                f'{s.concrete} ({cur.concrete} before)')

            if s.op.parent_node is not src:
                raise Violation('successor_parent', f'{where}: wrong parent node')

            up, low = model.apply_reset(t, hi), model.apply_reset(t, lo)
            self.between(s.set, low.cut(self.spec['modes'][t['dst']]['inv'], -EPS), up, 'successor', where)

        if ops:
            raise Violation('extra_successor', f'{len(ops)} successors of {cur.mode} which do not belong to any of its transitions')

    def popped(self, before, popped, cur, after_none):
        'the pop rule and the merged set; returns the expected bracket (lo, hi) before the invariant'

        s = self.spec['settings']
        first = popped[0]

        if any(p.mode != first.mode for p in popped):
            raise Violation('pop_modes', f'states of several modes are merged: {[p.mode for p in popped]}')

        if len(popped) > 1 and (first.error or any(p.op.parent_node is None for p in popped)):
            raise Violation('pop_single', 'initial or error states are merged')

        if s['agg'] == 'none' and len(popped) > 1:
            raise Violation('pop_merge', 'states are merged without aggregation')

        if s['agg'] != 'none' and not self.spec['custom']:
            self.pop_rule(before, popped)

        lo_iv, hi_iv = min(p.iv[0] for p in popped), max(p.iv[1] for p in popped)

        if cur is not None and (cur.iv != (lo_iv, hi_iv) or cur.mode != first.mode or cur.k != 0):
            raise Violation('pop_data', f'merged {[(p.mode, p.iv) for p in popped]} to {cur.mode}, {cur.iv}, step {cur.k}')

        if cur is not None and cur.concrete != (len(popped) == 1 and first.concrete):
            raise Violation('pop_concrete', f'merging {len(popped)} states gives concrete = {cur.concrete}')

    def pop_rule(self, before, popped):
        'best score first, with everything that may be merged'

        s = self.spec['settings']
        score = [lambda p: -p.iv[0], lambda p: -p.iv[0] - p.iv[1], lambda p: p.iv[1]][s['pop']]
        best = max(score(p) for p in before)
        first = popped[0]
        single = first.error or any(p.op.parent_node is None for p in popped) # these are popped one by one

        if first.mode not in [p.mode for p in before if score(p) == best] or \
                max(score(p) for p in popped) != best and not single:
            raise Violation('pop_order', f'pop type {s["pop"]}: popped {[p.iv for p in popped]} of {[p.iv for p in before]}')

        if single:
            return

        if s['same_path'] and any(p.op.parent_node is not first.op.parent_node or p.op.transition is not first.op.transition
                                  for p in popped):
            raise Violation('pop_path', 'states of different paths are merged')

        for p in before:
            if p not in popped and p.mode == first.mode and p.op.parent_node is not None and (not s['same_path'] or \
                    p.op.parent_node is first.op.parent_node and p.op.transition is first.op.transition):
                raise Violation('pop_left', f'a state in {p.mode} that belongs to the merged ones is left in the waiting list')

    def hull(self, popped, cur):
        'the merged set, cut by the invariant'

        s = self.spec['settings']
        mode = self.names.index(cur.mode)
        inv = self.spec['modes'][mode]['inv']
        where = f'{len(popped)} states in {cur.mode} at {cur.iv}'

        if len(popped) == 1:
            self.between(cur.set, popped[0].set.cut(inv, -EPS), popped[0].set.cut(inv, EPS), 'entry', where)
            return

        self.merged += 1
        n = cur.set.dims
        dirs = ref.directions(n, num_random=1)
        parts = [p.set.cut(inv, -EPS) for p in popped]
        g = np.array([cur.set.support(d) for d in dirs])
        t = TOL * (1 + np.abs(g))

        if np.abs(g).max() > model.MAX_VALUE:
            raise Discard('large values')

        for p in parts:
            v = np.array([p.support(d) for d in dirs])

            if np.isfinite(v).all() and not (g >= v - t).all():
                raise Violation('merge_small', f'{where}: supports {g.round(6).tolist()}, a part has {v.round(6).tolist()}')

        # an upper bound: box (with guard directions), or convex hull
        if s['agg'] == 'chull':
            up = popped[0].set

            for p in popped[1:]:
                up = ref.chull(up, p.set)
        else:
            D = list(np.eye(n))
            ts = {self.transitions.index(p.op.transition) for p in popped}

            if s['guard_dirs'] and len(ts) == 1:
                tr = self.spec['trans'][ts.pop()]

                if tr.get('R') is None:
                    D += [np.array(r[0]) for r in tr['guard']]

            D += [-d for d in D]
            up = ref.cons_set(D, [max(p.set.support(d) for p in popped) for d in D])

        exact = s['agg'] == 'chull' or s['agg'] == 'box' and not s['guard_dirs']
        self.between(cur.set, up.cut(inv, -EPS) if exact else parts[0], up.cut(inv, EPS), 'merge', where)

def run_case(spec): # pylint: disable=too-many-locals,too-many-branches,too-many-statements
    'one case'

    core, init, _, _, transitions = model.build(spec)

    if spec['custom']:
        core.settings.aggstrat = custom_strategy(spec, core.settings.aggstrat.agg_type)

    ck = Checker(spec)
    ck.transitions = transitions

    try:
        core.setup(init)
    except RuntimeError as e:
        if 'feasible initial states' in str(e):
            return ['empty_init']

        raise

    waiting = [Snap(op.poststate, op) for op in core.aggdag.waiting_list]
    skip_zero = spec['settings']['skip_zero']
    cur = None

    for _ in range(MAX_STEPS):
        if core.is_finished() or max([s.set.P.shape[1] for s in waiting + [cur] if s is not None], default=0) > MAX_COLS:
            break

        before = list(waiting)
        core.do_step()
        state = core.aggdag.get_cur_state()
        now = core.aggdag.waiting_list
        new_ops = [Snap(op.poststate, op) for op in now if not any(op is w.op for w in before)]
        gone = [w for w in before if not any(op is w.op for op in now)]
        waiting = [w for w in before if w not in gone] + new_ops
        new = None if state is None else Snap(state)
        src = core.aggdag.cur_node

        if cur is None: # a pop
            if not gone:
                raise Violation('no_pop', 'nothing is popped although there is no current state')

            if src is None and new_ops:
                raise Violation('pop_successors', 'successors of a state that was dropped right away')

            ck.popped(before, gone, new, state is None)
            mode = ck.names.index(gone[0].mode)

            if new is None:
                inv = spec['modes'][mode]['inv']

                if not gone[0].error and any(p.set.cut(inv, -EPS).feasible() for p in gone):
                    raise Violation('pop_dropped', f'a state in {gone[0].mode} at {gone[0].iv} was dropped, but it satisfies the '
                                    'invariant')
            else:
                if gone[0].error:
                    raise Violation('error_continued', 'an error mode has a current state')

                ck.hull(gone, new)

                if spec['settings']['urgent']:
                    ck.successors(new, new_ops, src)
                elif new_ops:
                    raise Violation('early_successors', 'jumps before the first step')
        else:
            if gone:
                raise Violation('popped_during', 'a waiting state disappears during a continuous step')

            mode = ck.names.index(cur.mode)
            m = spec['modes'][mode]
            hi, lo = cur.set.cut(m['inv'], EPS), cur.set.cut(m['inv'], -EPS)
            where = f'{cur.mode} at {cur.iv}, {cur.k} in mode'
            may = cur.iv[0] < spec['num_steps'] and hi.feasible()
            must = cur.iv[0] < spec['num_steps'] and lo.feasible()
            M, G = ck.matrices(mode)

            if new is None and not (skip_zero and ck.zero(mode)):
                if must:
                    raise Violation('dropped', f'{where}: the state is dropped although it satisfies the invariant')

                if new_ops:
                    raise Violation('late_successors', f'{where}: successors of a state that was dropped')
            else:
                if not may and (new is not None or new_ops):
                    raise Violation('kept', f'{where}: the state continues although it left the invariant or reached the bound')

                if new is None:
                    # zero dynamics: one step, which is not visible
                    new2 = Snap.__new__(Snap)
                    new2.__dict__.update(cur.__dict__)
                    new2.set, new2.k, new2.iv = hi, cur.k + 1, (cur.iv[0] + 1, cur.iv[1] + 1)

                    if may and must and lo.feasible() and lo is not hi and m['inv']:
                        new2.set = cur.set.cut(m['inv'], 0.0)

                    if must:
                        ck.successors(new2, new_ops, core_node(new_ops, src))
                else:
                    if new.k != cur.k + 1 or new.iv != (cur.iv[0] + 1, cur.iv[1] + 1) or new.mode != cur.mode or \
                            new.concrete != cur.concrete:
                        raise Violation('step_data', f'{where}: after one step {new.mode}, {new.iv}, {new.k} in mode')

                    ck.between(new.set, lo.linear(M, G, m['U']), hi.linear(M, G, m['U']), 'step', where)
                    g = ck.sup(cur.set)
                    ck.cuts += bool((ck.sup(lo) < g - 1e-4).any()) if m['inv'] else 0
                    ck.successors(new, new_ops, src)

        cur = new

    labels = ['agg:' + ('custom' if spec['custom'] else spec['settings']['agg'])]

    if ck.merged and ck.jumps:
        labels.append('nt:merged')
    if ck.merged > 1:
        labels.append('nt:merged_again')
    if ck.cuts:
        labels.append('nt:cuts' if ck.merged or ck.jumps else 'cuts')

    return labels

def core_node(new_ops, src):
    'parent of the new operations (the current node is not visible any more)'

    return new_ops[0].op.parent_node if new_ops else src
