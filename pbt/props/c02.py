'''C02: without aggregation the analysis computes exactly the discrete-time reachable sets'''

import numpy as np
from hypothesis import strategies as st
from scipy.sparse import csr_matrix
from scipy.sparse.csgraph import maximum_bipartite_matching

from pbt import gen, model, ref
from pbt.runner import Discard, Violation

ID = 'C02'
QUICK = 1500
THOROUGH = 12000
RULE = ('random hybrid automata (1-3 modes, 1-3 dims, inputs, invariants, resets with uncertain terms, urgent guards, '
        'guard strengthening on/off, several initial sets); the multiset of state sets visited without aggregation is '
        'compared by support functions with an independent path-by-path computation, bracketed by models whose guards '
        'and invariants are moved by 1e-6 inwards/outwards; non-trivial: at least one jump, an invariant that cuts, or inputs')
ASSUMPTIONS = ['comparison tolerance 1e-5 relative', 'guards/invariants within 1e-6 of touching may go either way']

EPS = 1e-6
TOL = 1e-5

@st.composite
def _case(draw):
    spec = draw(gen.automaton())
    spec['settings'] = {'agg': 'none', 'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()),
                        'skip_zero': draw(st.booleans())}

    return spec

def strategy():
    'cases'
    return _case()

def supports(rset, dirs):
    'vector of supports'

    return np.array([rset.support(d) for d in dirs])

def keyed(tree, spec):
    'all sets of a tree by (mode name, step in mode, total steps)'

    rv = {}

    for n in tree.nodes:
        for k, s in enumerate(n.sets):
            rv.setdefault((spec['modes'][n.mode]['name'], k, n.start + k), []).append((n.path, s))

    return rv

def matching(adj):
    'size of a maximum matching'

    if adj.size == 0 or not adj.any():
        return 0

    m = maximum_bipartite_matching(csr_matrix(adj.astype(int)), perm_type='column')

    return int((m >= 0).sum())

def compare(spec, records, shrunk, enlarged):
    'bracketed comparison of recorded sets with the reference'

    lo, hi = keyed(shrunk, spec), keyed(enlarged, spec)
    got = {}

    for r in records:
        got.setdefault((r.mode, r.step_in_mode, r.lo), []).append(r.set)

    for key in sorted(set(lo) | set(hi) | set(got)):
        n = len(spec['modes'][[m['name'] for m in spec['modes']].index(key[0])]['A'])
        dirs = ref.directions(n, num_random=2)
        ls = [(p, supports(s, dirs)) for p, s in lo.get(key, [])]
        ls = [(p, l) for p, l in ls if np.isfinite(l).all()] # others are borderline: empty up to the solver's tolerance
        hs = [(p, supports(s, dirs)) for p, s in hi.get(key, [])]
        gs = [supports(s, dirs) for s in got.get(key, [])]
        lo_paths = [p for p, _ in ls]
        ls = [l for _, l in ls]

        for g in gs:
            if not np.isfinite(g).all():
                raise Violation('empty_set', f'visited a state set at {key} that is empty or unbounded: {g}')

        # every set which exists even in the shrunk model must be visited (and no smaller) ...
        adj = np.zeros((len(ls), len(gs)), dtype=bool)

        for i, l in enumerate(ls):
            # the same path in the enlarged model bounds the set from above
            up = [h for p, h in hs if p == lo_paths[i]]
            up = up[0] if up else np.full(len(l), np.inf)

            for j, g in enumerate(gs):
                t = TOL * (1 + np.abs(g))
                adj[i, j] = (g >= l - t).all() and (g <= up + t).all()

        if matching(adj) < len(ls):
            bad = [i for i in range(len(ls)) if not adj[i].any()]
            what = [lo_paths[i] for i in bad] or lo_paths
            raise Violation('missing_set', f'reachable set at (mode, step in mode, step) {key} via {what[0]} is '
                            f'missing or wrong: expected supports {ls[bad[0] if bad else 0].round(6).tolist()}, '
                            f'visited {[g.round(6).tolist() for g in gs]}')

        # ... and every visited set must exist at least in the enlarged model (and be no larger)
        adj = np.zeros((len(gs), len(hs)), dtype=bool)

        for i, g in enumerate(gs):
            for j, (_, h) in enumerate(hs):
                adj[i, j] = (g <= h + TOL * (1 + np.abs(g))).all()

        if matching(adj) < len(gs):
            bad = [i for i in range(len(gs)) if not adj[i].any()]
            raise Violation('extra_set', f'visited a state set at {key} which is not reachable (or too large): '
                            f'{gs[bad[0] if bad else 0].round(6).tolist()}, reachable: '
                            f'{[h.round(6).tolist() for _, h in hs]}')

def run_case(spec):
    'one case'

    enlarged = model.ref_tree(spec, EPS)

    if enlarged.truncated:
        raise Discard('too many paths')

    shrunk = model.ref_tree(spec, -EPS)
    res, records, _ = model.explore(spec)

    if res is None:
        if shrunk.nodes:
            raise Violation('no_init', 'analysis found no feasible initial states, but there are some')
        return ['empty_init']

    compare(spec, records, shrunk, enlarged)

    labels = []

    if len(shrunk.nodes) > 1:
        labels.append('nt:jump')
    if any(len(n.path) > 2 for n in shrunk.nodes):
        labels.append('nt:two_jumps')
    if any(spec['modes'][n.mode]['B'] is not None for n in shrunk.nodes):
        labels.append('nt:inputs')
    if any(len(n.path) > 1 and spec['trans'][n.path[-1][0]]['mink'] for n in shrunk.nodes):
        labels.append('nt:minkowski')
    if any(spec['modes'][n.mode]['inv'] for n in shrunk.nodes):
        labels.append('nt:invariant')
    if any(n.start + len(n.sets) - 1 < spec['num_steps'] for n in shrunk.nodes):
        labels.append('left_invariant')
    if spec['settings']['urgent'] and any(p[1] == 0 for n in shrunk.nodes for p in n.path[1:]):
        labels.append('nt:urgent_jump')
    if any(s['mode'] != 0 for s in spec['init']):
        labels.append('several_init_modes')
    if len(shrunk.nodes) != len(enlarged.nodes):
        labels.append('borderline')

    return labels
