'''C10: the LP layer'''

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.runner import Violation

ID = 'C10'
QUICK = 1500
THOROUGH = 25000
RULE = ('random histories of 3-40 operations on one or several LPs (adding columns and rows of every type, overwriting rows, '
        'columns, right-hand sides and basis-matrix blocks, cloning, resetting, optimising in sequence so that solves are '
        'warm-started); model: a dense matrix per LP; every solve is compared with HiGHS (value, feasibility, feasibility of '
        'the returned point), every accessor with the model; non-trivial: a solve after a modification of a solved LP')
ASSUMPTIONS = ['LPs which are within 1e-6 of changing feasibility are skipped, unbounded ones are not solved']

@st.composite
def _vals(draw, k, dens=2):
    'sparse small vector'

    return [float(draw(gen.ints(-4, 4))) / 2 if draw(gen.ints(0, dens)) else 0.0 for _ in range(k)]

@st.composite
def _row(draw, k):
    'sparse small vector with at least one nonzero'

    rv = draw(_vals(k))

    if not any(rv):
        rv[draw(gen.ints(0, k - 1))] = 1.0

    return rv

@st.composite
def _case(draw):
    ops = []
    dims = draw(gen.ints(1, 3))
    cols = 2 * dims + draw(gen.ints(0, 2))
    # (rows, cols) per lp
    shapes = [[0, cols]]
    ops.append(['new', dims, cols, draw(gen.ints(dims, cols - dims))])
    bounds = draw(gen.ints(1, 4))
    ops.append(['bound', 0, bounds])
    ops.append(['bm', 0, [[1.0 if j == k else 0.0 for j in range(dims)] for k in range(dims)]])
    shapes[0][0] += 2 * cols + dims # first dims rows: basis rows

    for _ in range(draw(gen.ints(3, 40))):
        i = draw(gen.ints(0, len(shapes) - 1))
        rows, cols = shapes[i]
        kind = draw(st.sampled_from(['min', 'min', 'min', 'mincols', 'feas', 'le', 'eq', 'types', 'csr', 'csc', 'rhs',
                                     'clone', 'reset', 'cols', 'get', 'bm', 'dirall', 'export']))

        if kind == 'min':
            ops.append(['min', i, draw(_vals(dims)), draw(st.booleans()), draw(st.booleans())])
        elif kind == 'mincols':
            ops.append(['mincols', i, draw(_vals(draw(gen.ints(1, dims)))),
                        [draw(gen.ints(0, cols - 1)) for _ in range(draw(gen.ints(1, 3)))]])
        elif kind in ('feas', 'reset', 'get', 'export'):
            ops.append([kind, i] + ([draw(gen.ints(0, rows - 1)), draw(gen.ints(0, cols - 1)), draw(gen.ints(1, 3)),
                                     draw(gen.ints(1, 3))] if kind == 'get' else []))
        elif kind == 'le':
            k = draw(gen.ints(1, 2))
            ops.append(['le', i, [draw(_row(cols)) for _ in range(k)], [draw(gen.ints(-4, 8)) / 2 for _ in range(k)],
                        draw(st.booleans())])
            shapes[i][0] += k
        elif kind == 'eq':
            ops.append(['eq', i, [draw(_row(cols))]])
            shapes[i][0] += 1
        elif kind == 'types':
            k = draw(gen.ints(1, 2))
            ops.append(['types', i, [draw(_row(cols)) for _ in range(k)],
                        [draw(st.sampled_from(['ub', 'lb', 'eq'])) for _ in range(k)],
                        [draw(gen.ints(-4, 4)) / 2 for _ in range(k)]])
            shapes[i][0] += k
        elif kind == 'csr':
            k = draw(gen.ints(1, min(2, rows)))
            r = draw(gen.ints(0, rows - k))
            w = draw(gen.ints(1, cols))
            ops.append(['csr', i, r, draw(gen.ints(0, cols - w)), [draw(_vals(w)) for _ in range(k)]])
        elif kind == 'csc':
            h = draw(gen.ints(1, rows))
            w = draw(gen.ints(1, min(2, cols)))
            if gen.chance(draw, 1, 3):
                ops.append(['csc', i, draw(gen.ints(0, rows - h)), draw(gen.ints(0, cols - w)),
                            [draw(_vals(w, 1)) for _ in range(h)]])
            elif gen.chance(draw, 1, 4): # a column is cleared
                ops.append(['csc', i, draw(gen.ints(0, rows - h)), draw(gen.ints(0, cols - w)),
                            [[0.0] + draw(_vals(w - 1, 1)) for _ in range(h)]])
        elif kind == 'rhs':
            ops.append(['rhs', i, draw(gen.ints(0, rows - 1)), draw(gen.ints(-2, 8)) / 2])
        elif kind == 'clone' and len(shapes) < 4:
            ops.append(['clone', i])
            shapes.append([rows, cols])
        elif kind == 'cols':
            k = draw(gen.ints(1, 2))
            half = gen.chance(draw, 1, 5) # only bounded from above
            ops.append(['cols', i, k, bounds] + (['half'] if half else []))
            shapes[i][0] += k if half else 2 * k
            shapes[i][1] += k
        elif kind == 'bm':
            ops.append(['bm', i, [draw(_vals(dims)) for _ in range(dims)]])
        elif kind == 'dirall':
            ops.append(['dirall', i, draw(_vals(cols))])

    return {'ops': ops}

def strategy():
    'cases'
    return _case()

class ModelLp():
    'dense model of an LP'

    def __init__(self, dims, cols, cur):
        self.dims, self.cols, self.cur = dims, cols, cur
        self.rows = []
        self.names = []
        self.dir = np.zeros(cols)
        self.solved = False
        self.modified = False

    def copy(self):
        'independent copy'
        rv = ModelLp(self.dims, self.cols, self.cur)
        rv.rows = [[np.array(v), ty, r] for v, ty, r in self.rows]
        rv.names = list(self.names)
        rv.dir = self.dir.copy()
        rv.solved, rv.modified = self.solved, self.modified
        return rv

    def degenerate(self):
        '''are there empty rows or columns? (they never occur in the analysis; the solver library itself can abort on them)'''
        mat = np.array([r[0] for r in self.rows])
        return not (mat != 0).any(axis=1).all() or not (mat != 0).any(axis=0).all()

    def add_cols(self, k, names):
        'k more columns'
        self.cols += k
        self.names += names
        self.dir = np.concatenate([self.dir, np.zeros(k)])

        for row in self.rows:
            row[0] = np.concatenate([row[0], np.zeros(k)])

    def system(self, eps=0.0):
        'A x <= b and equalities'
        A, b, E, e = [], [], [], []

        for v, ty, r in self.rows:
            if ty == 'ub':
                A.append(v)
                b.append(r + eps)
            elif ty == 'lb':
                A.append(-v)
                b.append(-r + eps)
            elif eps == 0.0:
                E.append(v)
                e.append(r)
            else: # a slab when enlarged (skipped when shrunk: handled by the caller)
                A += [v, -v]
                b += [r + abs(eps) * 0.01, -r + abs(eps) * 0.01]

        return np.array(A).reshape(-1, self.cols), b, np.array(E).reshape(-1, self.cols), e

    def status(self, direction):
        'optimal / infeasible / unbounded / unclear, optimum'

        sts = []

        for eps in (1e-6, -1e-6):
            A, b, _, _ = self.system(eps)
            sts.append(ref.LP(A, b).solve(np.zeros(self.cols))[0])

        A, b, E, e = self.system()
        stt, val, _ = ref.LP(A, b, E, e).solve(-np.asarray(direction))
        sts.append('infeasible' if stt == 'infeasible' else 'optimal')

        if len(set(sts)) != 1:
            return 'unclear', None

        return stt, None if val is None else -val

def run_case(c): # pylint: disable=too-many-branches,too-many-statements,too-many-locals
    'one case'

    import swiglpk as glpk
    from scipy.sparse import csr_matrix, csc_matrix
    from hylaa import lputil
    from hylaa.lpinstance import LpInstance, UnsatError

    gty = {'ub': glpk.GLP_UP, 'lb': glpk.GLP_LO, 'eq': glpk.GLP_FX}
    lps, mods = [], []
    labels = set()
    count = 0

    def append_rows(lp, mod, vecs, types, rhs):
        'constraint coefficients for the rows just added'
        n0 = len(mod.rows)
        for v, ty, r in zip(vecs, types, rhs):
            mod.rows.append([np.array(v, dtype=float), ty, float(r)])
        lp.set_constraints_csr(csr_matrix(np.array(vecs, dtype=float)), offset=(n0, 0))
        mod.modified = True

    def check_point(mod, x, what):
        'is the returned point feasible?'
        for ri, (v, ty, r) in enumerate(mod.rows):
            val = float(np.dot(v, x))
            tol = 1e-6 * (1 + np.abs(v).sum() + abs(r))
            if ty in ('ub', 'eq') and val > r + tol or ty in ('lb', 'eq') and val < r - tol:
                raise Violation(what, f'op {count}: the solution violates row {ri} ({v} {ty} {r}): {val}')

    for op in c['ops']:
        count += 1
        kind = op[0]

        if kind == 'new':
            _, dims, cols, cur = op
            lp = LpInstance()
            mod = ModelLp(dims, 0, cur)
            names = [f'x{j}' for j in range(cols)]
            lp.add_cols(list(names))
            mod.add_cols(cols, names)
            lp.add_rows_equal_zero(dims)

            for _ in range(dims):
                mod.rows.append([np.zeros(cols), 'eq', 0.0])

            lp.set_reach_vars(dims, (0, 0), cur, None)
            lps.append(lp)
            mods.append(mod)
            continue

        lp, mod = lps[op[1]], mods[op[1]]

        if kind == 'bound':
            eye = np.eye(mod.cols)
            vecs = np.vstack([eye, -eye])
            lp.add_rows_less_equal([float(op[2])] * len(vecs))
            append_rows(lp, mod, vecs, ['ub'] * len(vecs), [op[2]] * len(vecs))
        elif kind == 'cols':
            k = op[2]
            names = [f'y{count}_{j}' for j in range(k)]
            lp.add_cols(list(names))
            mod.add_cols(k, names)
            vecs = []

            for j in range(k):
                e = np.zeros(mod.cols)
                e[mod.cols - k + j] = 1
                vecs += [e] if len(op) > 4 else [e, -e]

            lp.add_rows_less_equal(np.array([float(op[3])] * len(vecs)))
            append_rows(lp, mod, vecs, ['ub'] * len(vecs), [op[3]] * len(vecs))
        elif kind == 'le':
            lp.add_rows_less_equal(np.array(op[3]) if op[4] else list(op[3]))
            append_rows(lp, mod, op[2], ['ub'] * len(op[2]), op[3])
        elif kind == 'eq':
            lp.add_rows_equal_zero(1)
            append_rows(lp, mod, op[2], ['eq'], [0.0])
        elif kind == 'types':
            lp.add_rows_with_types([gty[t] for t in op[3]], list(op[4]))
            append_rows(lp, mod, op[2], op[3], op[4])
        elif kind == 'csr':
            _, _, r, col, mat = op
            mat = np.array(mat)
            new = mod.copy()

            for j, row in enumerate(mat):
                v = np.zeros(mod.cols)
                v[col:col + len(row)] = row
                new.rows[r + j][0] = v

            if new.degenerate():
                check_write(lp, new, lambda l, a=csr_matrix(mat), b=(r, col): l.set_constraints_csr(a, offset=b), gty, count)
                labels.add('write_only')
                continue

            lp.set_constraints_csr(csr_matrix(mat), offset=(r, col))
            mod.rows = new.rows
            mod.modified = True
        elif kind == 'csc':
            _, _, r, col, mat = op
            mat = np.array(mat)
            new = mod.copy()

            for j in range(mat.shape[1]):
                for row in new.rows:
                    row[0][col + j] = 0.0
                for k in range(mat.shape[0]):
                    new.rows[r + k][0][col + j] = mat[k, j]

            if new.degenerate():
                check_write(lp, new, lambda l, a=csc_matrix(mat), b=(r, col): l.set_constraints_csc(a, offset=b), gty, count)
                labels.add('write_only')
                continue

            lp.set_constraints_csc(csc_matrix(mat), offset=(r, col))
            mod.rows = new.rows
            mod.modified = True
        elif kind == 'bm':
            mat = np.array(op[2])
            lputil.set_basis_matrix(lp, mat)

            for j in range(mod.dims):
                v = np.zeros(mod.cols)
                v[0:mod.dims] = mat[j]
                v[mod.cur + j] += -1.0
                mod.rows[j][0] = v

            mod.modified = True

            if np.abs(lputil.get_basis_matrix(lp) - mat).max() > 0:
                raise Violation('basis_matrix', f'op {count}: get_basis_matrix differs from what was set')
        elif kind == 'rhs':
            lp.set_constraint_rhs(op[2], op[3])
            mod.rows[op[2]][2] = float(op[3])
            mod.modified = True
        elif kind == 'clone':
            lps.append(lp.clone())
            mods.append(mod.copy())
            labels.add('clone')
        elif kind == 'reset':
            lp.reset_lp()
        elif kind == 'get':
            check_getters(lp, mod, op, gty, count)
        elif kind == 'export':
            check_export(lp, mod, gty, count)
            labels.add('export')
        elif kind in ('min', 'mincols', 'feas', 'dirall'):
            d = mod.dir

            if kind in ('min', 'mincols'):
                d = np.zeros(mod.cols)
                d[mod.cur:mod.cur + len(op[2])] = op[2]
            elif kind == 'dirall':
                d = np.zeros(mod.cols)
                d[:len(op[2])] = op[2]

            stt, val = mod.status(d)

            if stt == 'unclear':
                labels.add('skipped_solve')
                continue

            if stt == 'unbounded':
                check_unbounded(lp, d, count)
                mod.dir = d
                mod.solved, mod.modified = True, False
                labels.add('unbounded')
                continue

            mod.dir = d

            if kind == 'feas':
                got = lp.is_feasible()

                if got != (stt != 'infeasible'):
                    raise Violation('is_feasible', f'op {count}: is_feasible() is {got}, the LP is {stt}')
            elif kind in ('min', 'dirall'):
                if kind == 'dirall':
                    lp.set_minimize_direction(csr_matrix(np.array([op[2]])), is_csr=True, offset=0)
                    args, fail = (), False
                else:
                    fail = op[3]
                    args = (list(op[2]),) if op[4] else (np.array(op[2]),)

                try:
                    res = lp.minimize(*args, fail_on_unsat=fail)
                except UnsatError:
                    if stt != 'infeasible' or not fail:
                        raise Violation('unsat', f'op {count}: UnsatError for an LP which is {stt}') from None
                    res = None
                else:
                    if stt == 'infeasible' and (fail or res is not None):
                        raise Violation('unsat', f'op {count}: infeasible LP, minimize returned {res}')

                if stt == 'optimal':
                    if res is None or len(res) != mod.cols:
                        raise Violation('minimize', f'op {count}: feasible LP, minimize returned {res}')

                    check_point(mod, res, 'point')
                    got = float(np.dot(d, res))

                    if abs(got - val) > 1e-6 * (1 + abs(val)):
                        raise Violation('minimize', f'op {count}: minimum is {val:.9g}, minimize reached {got:.9g}')
            else:
                cols = op[3]
                res = lp.minimize(list(op[2]), columns=list(cols), fail_on_unsat=False)

                if stt == 'infeasible' and res is not None or stt == 'optimal' and res is None:
                    raise Violation('unsat', f'op {count}: LP is {stt}, minimize(columns) returned {res}')

                if stt == 'optimal':
                    full = lp.minimize(fail_on_unsat=False)

                    if full is None or abs(np.dot(full, d) - val) > 1e-6 * (1 + abs(val)) or \
                            len(res) != len(cols) or np.abs(res - full[cols]).max() > 1e-9:
                        raise Violation('columns', f'op {count}: columns {cols} gave {res}, the full solution is {full}')

            if mod.solved and mod.modified:
                labels.add('nt:resolve')
            mod.solved, mod.modified = True, False
            labels.add('solve_' + stt)

    for lp, mod in zip(lps, mods):
        check_getters(lp, mod, ['get', 0, 0, 0, 2, 2], gty, 'end')

    return sorted(labels)

def check_unbounded(lp, d, count):
    'there is no optimal point: one must not be returned'

    from scipy.sparse import csr_matrix

    lp.set_minimize_direction(csr_matrix(d.reshape(1, -1)), is_csr=True, offset=0)

    try:
        res = lp.minimize(fail_on_unsat=False)
    except RuntimeError:
        return

    raise Violation('unbounded', f'op {count}: the LP is unbounded, minimize returned {res}')

def check_export(lp, mod, gty, count):
    'the LP written to a file (GLPK and CPLEX format) and as a string'

    import os
    import tempfile
    import swiglpk as glpk

    rows, cols = len(mod.rows), mod.cols
    want = np.array([r[0] for r in mod.rows])
    glpk.glp_term_out(glpk.GLP_OFF)

    with tempfile.TemporaryDirectory() as tmp:
        for fmt in ('glpk', 'cplex'):
            name = os.path.join(tmp, fmt)
            back = glpk.glp_create_prob()

            if fmt == 'glpk':
                lp.write_lp_glpk(name)
                code = glpk.glp_read_prob(back, 0, name)
            else:
                lp.write_lp_cplex(name)
                code = glpk.glp_read_lp(back, None, name)

            if code != 0:
                raise Violation('export_' + fmt, f'op {count}: the file cannot be read back')

            shape = (glpk.glp_get_num_rows(back), glpk.glp_get_num_cols(back))

            if shape != (rows, cols):
                raise Violation('export_' + fmt, f'op {count}: the file has size {shape}, expected {(rows, cols)}')

            got = np.zeros((rows, cols))
            order = list(range(cols))

            if fmt == 'cplex': # columns in the order in which they occur
                order = [int(glpk.glp_get_col_name(back, j + 1)[2:]) - 1 for j in range(cols)]

            for i in range(rows):
                ind, val = glpk.intArray(cols + 1), glpk.doubleArray(cols + 1)

                for k in range(1, glpk.glp_get_mat_row(back, i + 1, ind, val) + 1):
                    got[i, order[ind[k] - 1]] = val[k]

            types = [glpk.glp_get_row_type(back, i + 1) for i in range(rows)]
            rhs = [glpk.glp_get_row_lb(back, i + 1) if t == glpk.GLP_LO else glpk.glp_get_row_ub(back, i + 1)
                   for i, t in enumerate(types)]

            if np.abs(got - want).max() > 1e-12 or types != [gty[r[1]] for r in mod.rows] or \
                    np.abs(np.array(rhs) - [r[2] for r in mod.rows]).max() > 1e-12:
                raise Violation('export_' + fmt, f'op {count}: the file contains another LP')

            for j in range(cols):
                if glpk.glp_get_col_type(back, j + 1) != glpk.GLP_FR:
                    raise Violation('export_' + fmt, f'op {count}: column {j} is not free in the file')

            glpk.glp_delete_prob(back)

    text = lp.__str__(plain_text=True)
    lines = text.split('\n')
    body = [l for l in lines if ':' in l[:5] and l.split(':')[0].strip().isdigit()]

    def short(v):
        'as in the output'
        return str(float(v) if v else 0)[:6].strip()

    if len(body) != rows:
        raise Violation('str', f'op {count}: the text has {len(body)} rows, expected {rows}: {text}')

    sym = {'ub': '<=', 'lb': '>=', 'eq': '=='}

    for i, (line, row) in enumerate(zip(body, mod.rows)):
        tok = line.split(':', 1)[1].split()[1:]
        exp = [short(v) for v in row[0]]

        if [float(t) for t in tok[:cols]] != [float(t) for t in exp] or tok[cols] != sym[row[1]] or \
                float(tok[cols + 1]) != float(str(row[2])[:6]):
            raise Violation('str', f'op {count}: row {i} is printed as {line!r}, expected {exp} {row[1]} {row[2]}')

    head = lines[1].split()

    if head != [n[:6] for n in mod.names]:
        raise Violation('str', f'op {count}: column names are printed as {head}, expected {mod.names}')

def check_write(lp, new, write, gty, count):
    'a write after which the LP is not solved (it has empty rows or columns): only read back, in a copy'

    copy = lp.clone()
    write(copy)
    check_getters(copy, new, ['get', 0, 0, 0, 2, 2], gty, f'{count} (copy)')

def check_getters(lp, mod, op, gty, count):
    'all accessors against the model'

    rows, cols = len(mod.rows), mod.cols

    if (lp.get_num_rows(), lp.get_num_cols()) != (rows, cols):
        raise Violation('size', f'op {count}: size {lp.get_num_rows()} x {lp.get_num_cols()}, expected {rows} x {cols}')

    want = np.array([r[0] for r in mod.rows])
    got = lp.get_full_constraints()

    if got.shape != want.shape or np.abs(got.toarray() - want).max() > 0:
        raise Violation('get_full_constraints', f'op {count}: differs from what was set')

    rhs = np.array([r[2] for r in mod.rows])

    if np.abs(lp.get_rhs() - rhs).max() > 0:
        raise Violation('get_rhs', f'op {count}: {lp.get_rhs().tolist()} expected {rhs.tolist()}')

    if lp.get_types() != [gty[r[1]] for r in mod.rows]:
        raise Violation('get_types', f'op {count}: {lp.get_types()}')

    if list(lp.get_names()) != mod.names:
        raise Violation('get_names', f'op {count}: {lp.get_names()} expected {mod.names}')

    _, _, r, col, h, w = op
    h, w = min(h, rows - r), min(w, cols - col)

    if np.abs(lp.get_dense_constraints(col, r, w, h) - want[r:r + h, col:col + w]).max() > 0:
        raise Violation('get_dense_constraints', f'op {count}')

    if np.abs(lp.get_row(r).toarray()[0] - want[r]).max() > 0:
        raise Violation('get_row', f'op {count}: row {r}')

    if lp.get_rhs([r, 0]).tolist() != [rhs[r], rhs[0]]:
        raise Violation('get_rhs', f'op {count}: selected rows')
