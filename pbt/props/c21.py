'''C21: the analyses of a whole and of its parts agree'''

import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model, ref
from pbt.runner import Discard, Violation

ID = 'C21'
QUICK = 900
THOROUGH = 12000
RULE = ('random hybrid automata (up to 8 variables, up to 60 steps, up to 8 transitions) analysed as a whole and in parts: '
        'with a smaller time bound, with the initial set cut in two, with smaller initial sets, inputs, guards and invariants, '
        'without some transitions, continued from a visited set, with and without aggregation; oracle: the analysis with the '
        'smaller bound is a prefix, the parts together give the whole, less gives subsets, the continuation visits what the '
        'whole visits later, aggregated sets cover the exact ones, verdicts accordingly; non-trivial: a jump before the '
        'point at which whole and parts are compared')
ASSUMPTIONS = ['models whose visited sets change when all conditions are moved by 1e-6 or 1e-5 are skipped when results differ']

EPS = 1e-6
TOL = 1e-5
RELS = ('prefix', 'split', 'less', 'continue', 'cover')

@st.composite
def _case(draw):
    size = draw(st.sampled_from(['std', 'std', 'many', 'long', 'wide']))
    args = {'std': {'max_trans': 4, 'pad': True}, 'many': {'max_trans': 8, 'max_modes': 3, 'max_steps': 4, 'pad': False},
            'long': {'max_dims': 2, 'max_trans': 2, 'max_steps': 10, 'pad': False},
            'wide': {'max_dims': 8, 'max_trans': 2, 'max_steps': 5, 'pad': False}}[size]
    spec = draw(gen.automaton(**args))

    if size == 'long': # the same duration in more steps
        f = draw(gen.ints(2, 6))
        spec['step'] = spec['step'] / f
        spec['num_steps'] *= f

    spec['settings'] = {'agg': 'none', 'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()),
                        'skip_zero': draw(st.booleans()), 'approx': draw(st.sampled_from([0, 0, 0, 1, 2]))}
    rels = draw(st.lists(st.sampled_from(RELS), min_size=2, max_size=3, unique=True))

    return {'spec': spec, 'rels': rels, 'agg': draw(gen.agg_settings(('box', 'arnoldi', 'chull'), deagg=gen.chance(draw, 1, 3))),
            'at': draw(gen.ints(0, 11)), 'pick': draw(gen.ints(0, 30)), 'v': [draw(gen.ints(-2, 2)) for _ in range(8)],
            'cuts': [draw(gen.ints(0, 4)) for _ in range(12)]}

def strategy():
    'cases'
    return _case()

def path_of(node):
    'the jumps that led to a node of an unaggregated analysis'

    op = node.parent_ops[0]

    if op.parent_node is None:
        return ()

    t = op.transition

    return path_of(op.parent_node) + ((t.from_mode.name, t.from_mode.transitions.index(t), op.step),)

class Run():
    'an analysis and what it visited'

    def __init__(self, spec, **over):
        np.random.seed(0)
        self.spec = spec
        self.kept = {}
        exact = over.get('agg', 'none') == 'none'

        def observe(core, state, record):
            'remember the path'

            record.path = path_of(core.aggdag.cur_node) if exact else None
            record.pos = len(self.kept)
            self.kept[record.pos] = None

        try:
            self.res, self.records, self.core = model.explore(spec, max_records=500, observe=observe, **over)
        except AssertionError as e:
            if 'lgg approx model beta' in str(e): # a documented refusal
                raise Discard('lgg model refuses') from e

            raise

    def keyed(self):
        'records by (mode, step in mode, step)'

        rv = {}

        for r in self.records:
            rv.setdefault((r.mode, r.step_in_mode, r.lo), []).append(r)

        return rv

    def structure(self):
        'what was visited'

        if self.res is None:
            return None

        return sorted((r.mode, r.step_in_mode, r.lo, r.hi, r.concrete) for r in self.records) + [self.error()]

    def error(self):
        'concrete error?'

        return self.res is not None and bool(self.res.has_concrete_error)

    def horizon(self):
        'largest number of steps'

        return max([r.lo for r in self.records] or [0])

def moved(spec, eps):
    'every guard and invariant moved outwards'

    rv = copy.deepcopy(spec)

    for rows in [t['guard'] for t in rv['trans']] + [m['inv'] for m in rv['modes']]:
        for row in rows:
            row[1] += eps * max(1.0, float(np.abs(row[0]).sum()))

    return rv

def supports(rset, dirs):
    'vector of supports'

    return np.array([rset.support(d) for d in dirs])

def dirs_for(n):
    'test directions'

    return ref.directions(n, num_random=2)[:24]

def match(whole, parts, what, limit=60):
    '''two multisets of sets with the same keys (after the caller has selected them) are the same'''

    for key in sorted(set(whole) | set(parts)):
        if len(whole.get(key, [])) != len(parts.get(key, [])):
            raise Violation(what, f'{len(whole.get(key, []))} sets at (mode, step in mode, step, path) {key} in the whole '
                            f'analysis, {len(parts.get(key, []))} in the part')

    for key in spread(sorted(whole), limit):
        # the order within the same path is the order of the initial sets
        for a, b in zip(whole[key], parts[key]):
            dirs = dirs_for(a.set.dims)
            s, t = supports(a.set, dirs), supports(b.set, dirs)

            if not (np.abs(s - t) <= TOL * (1 + np.abs(s))).all():
                raise Violation(what, f'set at {key}: supports {s.round(6).tolist()} in the whole analysis, '
                                f'{t.round(6).tolist()} in the part')

def spread(keys, limit):
    'at most about limit of them, with the last ones'

    keys = list(keys)
    every = max(1, len(keys) // limit)

    return keys[::every] + (keys[-1:] if every > 1 else [])

def by_path(records, shift=0, prefix=()):
    'records of an unaggregated run'

    rv = {}

    for r in records:
        rv.setdefault((r.mode, r.step_in_mode, r.lo + shift, prefix + r.path), []).append(r)

    return rv

def check_prefix(case, whole, labels):
    'a smaller time bound'

    spec = copy.deepcopy(case['spec'])
    n = whole.spec['num_steps']
    cut = 1 + (n - 1) * (1 + case['at']) // 13

    if cut >= n:
        return

    spec['num_steps'] = cut
    part = Run(spec)

    if (part.res is None) != (whole.res is None):
        raise Violation('prefix', 'feasible initial states depend on the time bound')

    early = [r for r in whole.records if r.lo <= cut]
    match(by_path(early), by_path(part.records), 'prefix')

    if part.error() and not whole.error():
        raise Violation('prefix:verdict', f'an error within {cut} steps, but none within {n}')

    if whole.error() and whole.res.counterexample and not part.error():
        total = sum(seg.steps for seg in whole.res.counterexample)

        if total <= cut:
            raise Violation('prefix:verdict', f'counterexample with {total} steps, but no error within {cut} steps')

    labels.append('nt:prefix' if any(r.path for r in part.records) else 'prefix')

def halves(s, v):
    'two initial sets whose union is the given one, or None'

    rset = ref.init_set(s)
    v = np.array(v[:rset.dims], dtype=float)

    if not v.any():
        v[0] = 1.0

    hi, lo = rset.support(v), -rset.support(-v)

    if hi - lo < 1e-3:
        return None

    mid = gen.q((hi + lo) / 2)

    if s['type'] == 'zono':
        if not s['g']:
            return None

        # halve one generator
        g = np.array(s['g'])
        k = int(np.argmax(np.abs(g).sum(axis=1)))
        rv = []

        for sign in (1, -1):
            t = copy.deepcopy(s)
            t['c'] = [a + sign * b / 2 for a, b in zip(s['c'], s['g'][k])]
            t['g'][k] = [x / 2 for x in s['g'][k]]
            rv.append(t)

        return rv

    if s['type'] == 'box':
        eye = np.eye(rset.dims)
        C = [r.tolist() for r in eye] + [(-r).tolist() for r in eye]
        rhs = [b[1] for b in s['box']] + [-b[0] for b in s['box']]
    else:
        C, rhs = s['C'], s['rhs']

    return [{'type': 'cons', 'mode': s['mode'], 'C': [list(r) for r in C] + [(sign * v).tolist()], 'rhs': list(rhs) + [sign * mid]}
            for sign in (1, -1)]

def check_split(case, whole, labels):
    'the initial set in two parts'

    spec = case['spec']

    if spec['settings']['approx']: # hulls and bloating do not commute with unions and cuts
        return

    i = case['pick'] % len(spec['init'])
    two = halves(spec['init'][i], case['v'])

    if two is None:
        return

    runs = []

    for k in (0, 1):
        part = copy.deepcopy(spec)
        part['init'] = [two[k]] if k else [two[k]] + [s for j, s in enumerate(spec['init']) if j != i]
        runs.append(Run(part))

    if case['at'] % 2: # both parts in the same analysis
        part = copy.deepcopy(spec)
        part['init'][i:i + 1] = two
        runs = [Run(part)]

    if (whole.res is None) != all(r.res is None for r in runs):
        raise Violation('split', 'feasible initial states only in the whole or only in the parts')

    big = whole.keyed()
    small = {}

    for r in runs:
        for key, val in r.keyed().items():
            small.setdefault(key, []).extend(val)

    for key in sorted(set(big) ^ set(small)):
        raise Violation('split', f'sets at (mode, step in mode, step) {key} only in the {"whole" if key in big else "parts"}')

    for key in spread(sorted(big), 50):
        dirs = dirs_for(big[key][0].set.dims)
        s = np.array([supports(r.set, dirs) for r in big[key]]).max(axis=0)
        t = np.array([supports(r.set, dirs) for r in small[key]]).max(axis=0)

        if not (np.abs(s - t) <= TOL * (1 + np.abs(s))).all():
            raise Violation('split', f'sets at {key}: supports {s.round(6).tolist()} in the whole analysis, '
                            f'{t.round(6).tolist()} in the parts')

    if whole.error() != any(r.error() for r in runs):
        raise Violation('split:verdict', f'error in the whole analysis: {whole.error()}, in the parts: {[r.error() for r in runs]}')

    labels.append('nt:split' if any(r.path for r in whole.records) else 'split')

def smaller(case):
    'a model with less behaviour'

    spec = copy.deepcopy(case['spec'])
    cuts = case['cuts']
    k = 0

    def nxt():
        'next amount'
        nonlocal k
        k += 1
        return cuts[k % len(cuts)] / 16

    for s in spec['init']:
        if s['type'] == 'box':
            s['box'] = [[lo + (hi - lo) * nxt(), hi - (hi - lo) * nxt()] for lo, hi in s['box']]
        elif s['type'] == 'zono':
            for g in s['g']:
                f = 1 - nxt()
                g[:] = [x * f for x in g]
        else:
            rset = ref.init_set(s)
            s['rhs'] = [r - nxt() * max(0.0, r + rset.support(-np.array(c))) for c, r in zip(s['C'], s['rhs'])]

            if not ref.init_set(s).feasible():
                return None

    for m in spec['modes']:
        if m['B'] is not None:
            us = ref.cons_set(*m['U'])
            m['U'] = [m['U'][0], [r - nxt() / 2 * (r + us.support(-np.array(c))) for c, r in zip(*m['U'])]]

            if not ref.cons_set(*m['U']).feasible():
                return None
        for row in m['inv']:
            row[1] -= nxt() / 2
        if m['inv'] and not ref.cons_set([r[0] for r in m['inv']], [r[1] for r in m['inv']]).feasible():
            return None

    for t in spec['trans']:
        for row in t['guard']:
            row[1] -= nxt() / 2
        if t['guard'] and not ref.cons_set([r[0] for r in t['guard']], [r[1] for r in t['guard']]).feasible():
            return None

    if spec['trans'] and cuts[0] == 4:
        del spec['trans'][case['pick'] % len(spec['trans'])]

    return spec

def contained(small, big, what):
    'every record of one run lies in a record of the other at the same place'

    for key in spread(sorted(small), 50):
        if key not in big:
            raise Violation(what, f'set at (mode, step in mode, step) {key} only in the analysis of the model with less behaviour')

        dirs = dirs_for(small[key][0].set.dims)
        tops = [supports(r.set, dirs) for r in big[key]]

        for r in small[key]:
            s = supports(r.set, dirs)

            if not np.isfinite(s).all():
                raise Violation(what, f'empty or unbounded set at {key}')

            if not any((s <= t + TOL * (1 + np.abs(t))).all() for t in tops):
                raise Violation(what, f'set at {key} of the model with less behaviour (supports {s.round(6).tolist()}) is in no '
                                f'set of the model with more: {[t.round(6).tolist() for t in tops]}')

def check_less(case, whole, labels):
    'smaller sets and stronger conditions'

    spec = smaller(case)

    if spec is None:
        return

    part = Run(spec)

    if whole.res is None and part.res is not None:
        raise Violation('less', 'feasible initial states only with smaller initial sets')

    contained(part.keyed(), whole.keyed(), 'less')

    if part.error() and not whole.error():
        raise Violation('less:verdict', 'error only in the model with less behaviour')

    labels.append('nt:less' if any(r.path for r in part.records) else 'less')

    if part.error():
        labels.append('nt:less_error')

def check_continue(case, whole, labels):
    'the analysis is started at a set that the whole analysis visits'

    spec = case['spec']

    if spec['settings']['approx']:
        return

    # at the first step in a mode guards would be checked before the invariant cuts
    over = {'urgent': False, 'skip_zero': False}
    whole = Run(spec, **over)
    cand = [r for r in whole.records if r.lo < spec['num_steps']]

    if not cand:
        return

    jumped = [r for r in cand if r.path]
    cand = jumped if jumped and case['at'] % 4 else cand
    at = cand[(case['pick'] * 7) % len(cand)]
    rest = spec['num_steps'] - at.lo

    # once more up to there
    from hylaa import lputil
    from hylaa.stateset import StateSet

    found = []

    def observe(core, state, record):
        'the set to be continued'

        if not found and record.lo == at.lo and record.step_in_mode == at.step_in_mode and record.mode == at.mode and \
                path_of(core.aggdag.cur_node) == at.path:
            dirs = dirs_for(at.set.dims)

            if (np.abs(supports(record.set, dirs) - supports(at.set, dirs)) <= 1e-9).all():
                lpi = state.lpi.clone()
                mode = state.mode
                lputil.add_reset_variables(lpi, mode.mode_id, -1, successor_has_inputs=mode.b_csr is not None)
                found.append((lpi, mode.name))

    model.explore(spec, max_records=500, observe=observe, **over)

    if not found:
        raise Violation('continue', f'a repeated analysis does not visit the set at {at.mode, at.step_in_mode, at.lo, at.path}')

    later = copy.deepcopy(spec)
    later['num_steps'] = rest
    core, _, ha, _, _ = model.build(later, make_ce=False, **over) # (no execution starts at the first set)
    mode = ha.modes[found[0][1]]

    try:
        core.setup([StateSet(found[0][0], mode)])
    except RuntimeError as e:
        if 'feasible initial states' not in str(e):
            raise

        core = None

    records = []

    while core is not None and not core.is_finished():
        core.do_step()
        state = core.aggdag.get_cur_state()

        if state is not None and not state.mode.is_error():
            records.append(model.Record(state))
            records[-1].path = path_of(core.aggdag.cur_node)

        if len(records) > 500:
            raise Discard('too many sets')

    def shifted(r):
        'key in the whole analysis'

        path = r.path

        if not path:
            return (r.mode, r.step_in_mode + at.step_in_mode, r.lo + at.lo, at.path)

        return (r.mode, r.step_in_mode, r.lo + at.lo,
                at.path + (path[0][:2] + (path[0][2] + at.step_in_mode,),) + path[1:])

    part, want = {}, {}

    for r in records:
        if r.step_in_mode > 0 or r.path: # the first set is the given one, cut by the invariant
            part.setdefault(shifted(r), []).append(r)

    k = len(at.path)

    for r in whole.records:
        if r.path == at.path and r.step_in_mode > at.step_in_mode or \
                len(r.path) > k and r.path[:k] == at.path and r.path[k][2] > at.step_in_mode:
            want.setdefault((r.mode, r.step_in_mode, r.lo, r.path), []).append(r)

    for key, val in part.items(): # several initial sets: the descendants of one of them
        if len(want.get(key, [])) < len(val):
            raise Violation('continue', f'set at (mode, step in mode, step, path) {key} only when the analysis is continued from '
                            f'{at.mode, at.step_in_mode, at.lo, at.path}')

    single = len({r.path for r in whole.records if not r.path}) <= 1 and len(spec['init']) == 1

    if single:
        for key, val in want.items():
            if len(part.get(key, [])) != len(val):
                raise Violation('continue', f'set at (mode, step in mode, step, path) {key} is missing when the analysis is '
                                f'continued from {at.mode, at.step_in_mode, at.lo, at.path}')

    for key in spread(sorted(part), 50):
        for r in part[key]:
            dirs = dirs_for(r.set.dims)
            s = supports(r.set, dirs)
            tops = [supports(w.set, dirs) for w in want[key]]

            if not any((np.abs(s - t) <= TOL * (1 + np.abs(t))).all() for t in tops):
                raise Violation('continue', f'set at {key}: supports {s.round(6).tolist()} when continued from '
                                f'{at.mode, at.step_in_mode, at.lo, at.path}, {[t.round(6).tolist() for t in tops]} otherwise')

    labels.append('nt:continue' if at.path or any(r.path for r in records) else 'continue')

def check_cover(case, whole, labels):
    'aggregated sets cover the exact ones'

    spec = case['spec']
    agg = Run(spec, **case['agg'])

    if (agg.res is None) != (whole.res is None):
        raise Violation('cover', 'feasible initial states only with or without aggregation')

    by = {}

    for r in agg.records:
        by.setdefault((r.mode, r.step_in_mode), []).append(r)

    for r in spread(whole.records, 50):
        near = [a for a in by.get((r.mode, r.step_in_mode), []) if a.lo <= r.lo <= a.hi]
        dirs = dirs_for(r.set.dims)
        s = supports(r.set, dirs)

        if any((s <= supports(a.set, dirs) + TOL * (1 + np.abs(s))).all() for a in near):
            continue

        for d in dirs[:8]: # perhaps the parts of the set lie in different ones
            x = r.set.extreme(d)

            if not any(ref.distance(a.set, x) <= TOL * (1 + np.abs(x).max()) for a in near):
                raise Violation('cover:' + case['agg']['agg'], f'state {np.round(x, 6).tolist()} of the set at (mode, step in mode, '
                                f'step) {r.mode, r.step_in_mode, r.lo} lies in none of {len(near)} sets of the aggregated analysis')

    if whole.error() and not (agg.res.has_concrete_error or agg.res.has_aggregated_error):
        raise Violation('cover:verdict', 'error found only without aggregation')

    if agg.error() and not whole.error():
        raise Violation('cover:verdict', 'concrete error found only with aggregation')

    if case['agg']['deagg'] and agg.error() != whole.error():
        raise Violation('cover:verdict', 'error found only without aggregation (deaggregation is enabled)')

    labels.append('nt:cover' if any(not r.concrete for r in agg.records) else 'cover')

CHECKS = {'prefix': check_prefix, 'split': check_split, 'less': check_less, 'continue': check_continue, 'cover': check_cover}

def run_case(case):
    'one case'

    spec = case['spec']
    labels = []

    try:
        whole = Run(spec)

        if whole.res is None:
            labels.append('empty_init')

        for rel in case['rels']:
            CHECKS[rel](case, whole, labels)
    except Violation:
        # is this model decided by rounding?
        runs = [Run(moved(spec, eps)).structure() for eps in (0.0, EPS, -EPS, 10 * EPS, -10 * EPS)]

        if any(r != runs[0] for r in runs):
            raise Discard('borderline') from None

        raise

    if len(whole.records) and whole.horizon() > 8:
        labels.append('nt:many_steps')
    if any(r.set.dims > 3 for r in whole.records):
        labels.append('nt:many_variables')
    if len({r.path for r in whole.records}) > 4:
        labels.append('nt:many_paths')

    return labels
