'''Hybrid automaton specifications (JSON), their hylaa counterparts, and the reference reachability tree.

Specification format, see gen.automaton().
'''

import numpy as np

from pbt import ref
from pbt.runner import Discard, Violation

def is_error(spec, i):
    'error mode?'

    return spec['modes'][i]['A'] is None

# ---------------------------------------------------------------- building the hylaa objects

def build_ha(spec, order=None):
    'returns (ha, list of modes, list of transitions)'

    from hylaa.hybrid_automaton import HybridAutomaton

    ha = HybridAutomaton()
    modes = []

    for m in spec['modes']:
        mode = ha.new_mode(m['name'])
        modes.append(mode)

        if m['A'] is not None:
            mode.set_dynamics(np.array(m['A'], dtype=float))

            if m.get('B') is not None:
                mode.set_inputs(np.array(m['B'], dtype=float), np.array(m['U'][0], dtype=float),
                                np.array(m['U'][1], dtype=float), allow_constants=True)

            if m['inv']:
                mode.set_invariant([r[0] for r in m['inv']], [r[1] for r in m['inv']])

    transitions = []

    for t in spec['trans']:
        tr = ha.new_transition(modes[t['src']], modes[t['dst']])
        transitions.append(tr)

        if t['guard']:
            tr.set_guard([r[0] for r in t['guard']], [r[1] for r in t['guard']])
        else:
            tr.set_guard_true()

        if t.get('R') is not None or t.get('mink') is not None:
            mk = t.get('mink') or {}
            tr.set_reset(None if t.get('R') is None else np.array(t['R'], dtype=float),
                         None if mk.get('M') is None else np.array(mk['M'], dtype=float),
                         None if mk.get('C') is None else np.array(mk['C'], dtype=float),
                         None if mk.get('rhs') is None else np.array(mk['rhs'], dtype=float))

    return ha, modes, transitions

def make_lpi(s, mode):
    'initial lpi from a set specification'

    from hylaa import lputil

    if s['type'] == 'box':
        return lputil.from_box([tuple(b) for b in s['box']], mode)

    if s['type'] == 'cons':
        return lputil.from_constraints(s['C'], s['rhs'], mode)

    return lputil.from_zonotope(s['c'], s['g'], mode)

def make_settings(spec, **over):
    'hylaa settings from a specification'

    from hylaa.settings import HylaaSettings
    from hylaa.aggstrat import Aggregated, Unaggregated

    o = dict(spec['settings'])
    o.update(over)
    # max_time is stated so that exactly num_steps steps are needed
    s = HylaaSettings(spec['step'], spec['step'] * (spec['num_steps'] - 0.25))
    s.stdout = o.get('stdout', 0)
    s.process_urgent_guards = o.get('urgent', False)
    s.do_guard_strengthening = o.get('strengthen', True)
    s.optimize_tt_transitions = o.get('tt', False)
    s.skip_zero_dynamics_modes = o.get('skip_zero', False)
    s.approx_model = o.get('approx', 0)
    s.stop_on_concrete_error = o.get('stop_concrete', False)
    s.stop_on_aggregated_error = o.get('stop_agg', False)
    s.make_counterexample = o.get('make_ce', True)
    agg = o.get('agg', 'none')

    if agg == 'none':
        s.aggstrat = Unaggregated()
    else:
        kind = {'box': Aggregated.AGG_BOX, 'arnoldi': Aggregated.AGG_ARNOLDI_BOX,
                'chull': Aggregated.AGG_CONVEX_HULL}[agg]
        s.aggstrat = Aggregated(kind, deaggregate=o.get('deagg', False))
        s.aggstrat.pop_type = o.get('pop', 1)
        s.aggstrat.add_guard = o.get('guard_dirs', True)
        s.aggstrat.require_same_path = o.get('same_path', True)
        s.aggstrat.deagg_preference = o.get('deagg_pref', 2)

    return s

MAX_STEPS = 1000 # analysis steps per run (typical: below 100); larger explorations are not part of the case domain

MAX_VALUE = 2e3 # the tolerances of the solvers are relative, those of the oracle are meant for moderate values

MAX_ENTRY = 1e5 # largest coefficient of an LP that must be solved

MAX_ENTRIES = 2e7 # matrix entries kept per case

MAX_COLS = 500 # repeated convex hulls double the size of the sets

def bounded_core(ha, settings):
    'a Core whose run() gives up (Discard) after MAX_STEPS analysis steps'

    from hylaa.core import Core

    class BoundedCore(Core):
        'see above'

        def __init__(self, *args):
            self.steps_left = MAX_STEPS
            Core.__init__(self, *args)

        def do_step(self):
            'count and do one step'

            self.steps_left -= 1

            if self.steps_left < 0:
                raise Discard('too many analysis steps')

            state = self.aggdag.get_cur_state()

            sets = [] if state is None else [state]
            sets += [c.stateset for c in getattr(self.aggdag.deagg_man, 'deagg_children', None) or [] if c.stateset is not None]

            if any(s.lpi.get_num_cols() > MAX_COLS for s in sets):
                raise Discard('too large sets')

            try:
                Core.do_step(self)
            except Exception as e: # pylint: disable=broad-except
                if 'time limit has been exceeded' in str(e): # LPs with thousands of columns
                    raise Discard('too large sets') from e

                self.check_diverged(True)
                raise

            self.check_diverged()

        def check_diverged(self, matrix=False):
            'jumps in cycles without time passing can make aggregated sets grow beyond any numerical precision'

            state = self.aggdag.get_cur_state()

            if state is not None and not state.mode.is_error() and state.lpi.get_num_rows() > 0 and \
                    np.abs(state.lpi.get_rhs()).max() > MAX_VALUE:
                raise Discard('numerically diverging model')

            if matrix and state is not None and not state.mode.is_error() and \
                    np.abs(state.lpi.get_full_constraints()).max() > MAX_ENTRY: # huge bloating of approximation models
                raise Discard('numerically diverging model')

    return BoundedCore(ha, settings)

def build(spec, **over):
    'returns (core, list of initial statesets, ha, modes, transitions)'

    from hylaa.stateset import StateSet

    ha, modes, transitions = build_ha(spec)
    settings = make_settings(spec, **over)
    init = [StateSet(make_lpi(s, modes[s['mode']]), modes[s['mode']]) for s in spec['init']]

    return bounded_core(ha, settings), init, ha, modes, transitions

def lpi_to_ref(lpi):
    'snapshot of the set denoted by an lpi, read back through its accessors'

    import swiglpk as glpk

    csr = lpi.get_full_constraints()
    names = {glpk.GLP_UP: 'ub', glpk.GLP_LO: 'lb', glpk.GLP_FX: 'eq'}
    types = [names[t] for t in lpi.get_types()]
    mat, rhs = csr.toarray(), lpi.get_rhs()

    if not np.isfinite(mat).all() or not np.isfinite(rhs).all():
        raise Violation('not_finite', 'the constraints of a state set contain infinite or undefined values')

    return ref.poly_from_lp(mat, rhs, types, lpi.cur_vars_offset, lpi.dims)

class Record():
    'one observed state set: a snapshot taken while the computation is at that set'

    def __init__(self, state):
        self.mode = state.mode.name
        self.step_in_mode = state.cur_step_in_mode
        self.lo, self.hi = state.cur_steps_since_start
        self.concrete = state.is_concrete
        self.set = lpi_to_ref(state.lpi)

def no_init_left(spec, eps=0.0):
    'is every initial set outside its invariant?'

    return not any(ref.init_set(s).cut(spec['modes'][s['mode']]['inv'], eps).feasible() for s in spec['init'])

def explore(spec, max_records=3000, observe=None, **over):
    '''run the analysis step by step, recording every state set it visits.

    returns (result, records, waiting_pops) or (None, [], ...) when it reports that there is no initial state
    '''

    core, init, _, _, _ = build(spec, **over)

    try:
        core.setup(init)
    except RuntimeError as e:
        if 'feasible initial states' in str(e):
            return None, [], core

        raise

    records = []
    size = 0

    while not core.is_finished():
        core.do_step()
        state = core.aggdag.get_cur_state()

        if state is not None and not state.mode.is_error():
            records.append(Record(state))

            if observe is not None:
                observe(core, state, records[-1])

            size += records[-1].set.A.size

        if len(records) > max_records or size > MAX_ENTRIES:
            raise Discard('too many sets')

    return core.result, records, core

# ---------------------------------------------------------------- reference tree (no aggregation)

class Node():
    'a visit of one mode along one path: sets[k] is the set at step k in this mode'

    def __init__(self, path, mode, start, entry):
        self.path = path # ((init index,), (transition index, step in previous mode), ...)
        self.mode = mode
        self.start = start # steps since the start at entry
        self.entry = entry # set right after the jump (not yet cut by the invariant)
        self.sets = []

class Tree():
    'nodes and error reachability found by ref_tree'

    def __init__(self):
        self.nodes = []
        self.errors = [] # (path, total steps, RefSet in the source mode cut by the guard)
        self.posts = [] # (path, mode, total steps, RefSet) right after each jump, also into error modes
        self.truncated = False

def ref_tree(spec, eps=0.0, max_nodes=80, urgent=None, skip_zero=None, approx=None):
    '''all paths of the discrete-time semantics; every invariant and guard is moved outwards by eps

    step semantics: cut by invariant, advance one step, check guards; up to num_steps steps in total
    '''

    o = spec['settings']
    urgent = o.get('urgent', False) if urgent is None else urgent
    skip_zero = o.get('skip_zero', False) if skip_zero is None else skip_zero
    approx = o.get('approx', 0) if approx is None else approx
    rv = Tree()
    size = 0
    queue = []

    for i, s in enumerate(spec['init']):
        queue.append(Node(((i,),), s['mode'], 0, ref.init_set(s)))

    mats = {}
    out = {i: [j for j, t in enumerate(spec['trans']) if t['src'] == i] for i in range(len(spec['modes']))}

    def take(node, k, cur):
        'check the guards'

        for j in out[node.mode]:
            t = spec['trans'][j]
            g = cur.cut(t['guard'], eps)

            if not g.feasible():
                continue

            path = node.path + ((j, k),)
            post = apply_reset(t, g)
            rv.posts.append((path, t['dst'], node.start + k, post))

            if is_error(spec, t['dst']):
                rv.errors.append((path, node.start + k, g))
                continue

            queue.append(Node(path, t['dst'], node.start + k, post))

    while queue:
        node = queue.pop(0)

        if len(rv.nodes) >= max_nodes:
            rv.truncated = True
            break

        m = spec['modes'][node.mode]
        inv = m['inv']

        if node.mode not in mats:
            mats[node.mode] = ref.step_matrices(m['A'], m.get('B'), spec['step'])

        M, G = mats[node.mode]
        cur = node.entry.cut(inv, eps)

        if not cur.feasible():
            continue

        U = m.get('U')

        if approx:
            cur, G, U = ref.approx_set(cur, approx, m['A'], m.get('B'), U, spec['step'])

        rv.nodes.append(node)
        node.sets.append(cur)
        size += cur.A.size * spec['num_steps']

        if size > MAX_ENTRIES or cur.P.shape[1] > 250:
            raise Discard('too large sets')

        if urgent:
            take(node, 0, cur)

        k = 0

        while node.start + k < spec['num_steps']:
            if k > 0 or approx: # the first set of an approximation model is cut as well
                cur = cur.cut(inv, eps)

                if not cur.feasible():
                    break

            cur = cur.linear(M, G, U)
            k += 1
            take(node, k, cur)

            # with skip_zero, one step is enough in a mode where nothing moves (and that step is not visible)
            if skip_zero and m.get('B') is None and not np.any(np.array(m['A'])):
                break

            node.sets.append(cur)

    return rv

def apply_reset(t, rset):
    'image under the reset of a transition'

    n = rset.dims
    R = np.eye(n) if t.get('R') is None else np.array(t['R'], dtype=float)
    mk = t.get('mink')

    if mk is None:
        return rset.linear(R)

    C = np.array(mk['C'], dtype=float)
    M = np.eye(C.shape[1]) if mk.get('M') is None else np.array(mk['M'], dtype=float)

    return rset.linear(R, M, (C, mk['rhs']))
