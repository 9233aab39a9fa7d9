'''C14: symbolic front end'''

from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.runner import Violation

ID = 'C14'
QUICK = 2400
THOROUGH = 40000
RULE = ('random derivative / reset / condition strings over up to 4 variables and 3 named constants (sums, products with '
        'numbers and constants, divisions, powers of constants, nested parentheses, signs, scientific notation, names that '
        'sympy predefines), optionally nonlinear; oracle: own exact rational evaluation of the generated expression tree; '
        'what is returned must denote the same function, linear input must be accepted and nonlinear input rejected; '
        'non-trivial: at least one variable occurs inside parentheses or twice, or the case is nonlinear')

NAMES = ['x', 'y', 'z', 'w', 'vel', 'x_1', 'I', 'E', 'S', 'N', 'pi', 'beta', 'gamma', 'Q', 'x1', 'x10', 't', 'a', 'b',
         'xx', 'O', 'C', 'zeta', 'i', 'e', 'e1', 'k']

# ---------------------------------------------------------------- expression trees
# ['num', text] ['var', i] ['con', i] ['add'|'sub'|'mul', l, r] ['neg', e] ['div', l, r] ['pow', e, n] ['par', e]

NUMS = ['0', '1', '2', '3', '10', '0.5', '1.5', '2.25', '0.1', '1e-3', '2.5e2', '12.75', '0.0', '7.', '.5', '1E2',
        '2.5e-8', '1e-10', '0.123456789', '3.0000001', '1e-20', '123456789.5']

@st.composite
def constant(draw, ncon, depth):
    'expression without variables'

    kind = draw(st.sampled_from(['num', 'num', 'con'] + (['add', 'sub', 'mul', 'div', 'neg', 'pow', 'par'] if depth else [])))

    if kind == 'con' and ncon == 0:
        kind = 'num'

    if kind == 'num':
        return ['num', draw(st.sampled_from(NUMS))]

    if kind == 'con':
        return ['con', draw(gen.ints(0, ncon - 1))]

    if kind in ('neg', 'par'):
        return [kind, draw(constant(ncon, depth - 1))]

    if kind == 'pow':
        return ['pow', draw(constant(ncon, 0)), draw(gen.ints(1, 3))]

    if kind == 'div':
        return ['div', draw(constant(ncon, depth - 1)), ['num', draw(st.sampled_from(['2', '4', '0.5', '1.6', '10']))]]

    return [kind, draw(constant(ncon, depth - 1)), draw(constant(ncon, depth - 1))]

@st.composite
def linear(draw, nvar, ncon, depth):
    'linear expression'

    kinds = ['var', 'var', 'term']

    if depth:
        kinds += ['add', 'sub', 'add', 'sub', 'neg', 'cmul', 'mulc', 'div', 'par', 'const']

    kind = draw(st.sampled_from(kinds))

    if kind == 'var':
        return ['var', draw(gen.ints(0, nvar - 1))]

    if kind == 'term':
        return ['mul', draw(constant(ncon, 0)), ['var', draw(gen.ints(0, nvar - 1))]]

    if kind == 'const':
        return draw(constant(ncon, 1))

    if kind in ('neg', 'par'):
        return [kind, draw(linear(nvar, ncon, depth - 1))]

    if kind == 'cmul':
        return ['mul', draw(constant(ncon, 1)), draw(linear(nvar, ncon, depth - 1))]

    if kind == 'mulc':
        return ['mul', draw(linear(nvar, ncon, depth - 1)), draw(constant(ncon, 1))]

    if kind == 'div':
        return ['div', draw(linear(nvar, ncon, depth - 1)), ['num', draw(st.sampled_from(['2', '4', '0.5', '1.6', '10']))]]

    return [kind, draw(linear(nvar, ncon, depth - 1)), draw(linear(nvar, ncon, depth - 1))]

@st.composite
def nonlinear(draw, nvar, ncon):
    'linear + a nonlinear term'

    v = ['var', draw(gen.ints(0, nvar - 1))]
    w = ['var', draw(gen.ints(0, nvar - 1))]
    kind = draw(st.sampled_from(['prod', 'pow', 'coefprod', 'inv', 'unknown', 'fn']))
    c = ['num', draw(st.sampled_from(['2', '0.5', '3']))]

    t = {'prod': ['mul', v, w], 'pow': ['pow', v, draw(gen.ints(2, 3))], 'coefprod': ['mul', ['mul', v, c], w],
         'inv': ['div', c, v], 'unknown': ['mul', c, ['raw', 'unknownvar']], 'fn': ['fn', draw(st.sampled_from(['sin', 'exp', 'sqrt'])), v]}

    return ['add', draw(linear(nvar, ncon, 2)), t[kind]]

PREC = {'add': 1, 'sub': 1, 'neg': 1, 'mul': 2, 'div': 2, 'pow': 4}

def show(e, variables, consts, sp):
    'the string for an expression'

    k = e[0]

    def sub(x, level, strict=False):
        'child, in parentheses where needed'
        s = show(x, variables, consts, sp)
        p = PREC.get(x[0], 9)
        return f'({s})' if p < level or (strict and p == level) else s

    if k in ('num', 'raw'):
        return e[1]
    if k == 'var':
        return variables[e[1]]
    if k == 'con':
        return consts[e[1]][0]
    if k == 'par':
        return f'({show(e[1], variables, consts, sp)})'
    if k == 'neg':
        return '-' + sub(e[1], 2)
    if k == 'fn':
        return f'{e[1]}({show(e[2], variables, consts, sp)})'
    if k == 'pow':
        return f'{sub(e[1], 9)}{sp}**{sp}{e[2]}'
    if k in ('add', 'sub'):
        return sub(e[1], 1) + sp + ('+' if k == 'add' else '-') + sp + sub(e[2], 1, True)

    return sub(e[1], 2) + sp + ('*' if k == 'mul' else '/') + sp + sub(e[2], 2, True)

def value(e, variables, consts):
    'exact linear form: dict index -> Fraction (None is the constant), or None if it is not linear'

    k = e[0]

    if k == 'num':
        return {None: Fraction(e[1])}
    if k == 'con':
        return {None: Fraction(consts[e[1]][1])}
    if k == 'var':
        return {e[1]: Fraction(1)}
    if k == 'par':
        return value(e[1], variables, consts)
    if k == 'neg':
        v = value(e[1], variables, consts)
        return {i: -x for i, x in v.items()}

    l = value(e[1], variables, consts)

    if k == 'pow':
        assert set(l) <= {None}
        return {None: l.get(None, Fraction(0)) ** e[2]}

    r = value(e[2], variables, consts)

    if k in ('add', 'sub'):
        rv = dict(l)
        for i, x in r.items():
            rv[i] = rv.get(i, Fraction(0)) + (x if k == 'add' else -x)
        return rv

    if k == 'div':
        return {i: x / r[None] for i, x in l.items()}

    if set(r) <= {None}:
        c = r.get(None, Fraction(0))
        return {i: x * c for i, x in l.items()}

    assert set(l) <= {None}
    c = l.get(None, Fraction(0))

    return {i: x * c for i, x in r.items()}

def magnitude(e, variables, consts):
    'like value(), with absolute values instead of signs: bounds for rounding errors'

    def absolute(x):
        if x[0] == 'num':
            return ['num', x[1].lstrip('-')]
        if x[0] == 'con':
            return ['num', consts[x[1]][1].lstrip('-')]
        if x[0] == 'neg':
            return absolute(x[1])
        if x[0] == 'sub':
            return ['add', absolute(x[1]), absolute(x[2])]

        return [x[0]] + [absolute(y) if isinstance(y, list) else y for y in x[1:]]

    return value(absolute(e), variables, consts)

@st.composite
def _case(draw):
    nvar = draw(gen.ints(1, 4))
    ncon = draw(gen.ints(0, 3))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=nvar + ncon, max_size=nvar + ncon, unique=True))
    variables, cn = names[:nvar], names[nvar:]
    consts = [[c, draw(st.sampled_from(['2', '0', '-1', '0.5', '-2.5', '1', '100', '0.125', '1000.25',
                                               '0.333333333', '2.5e-8', '1e-12', '-0.0000001', '1234567.875']))] for c in cn]
    kind = draw(st.sampled_from(['dyn', 'dyn', 'reset', 'cond', 'cond']))
    affine = draw(st.booleans())
    bad = gen.chance(draw, 1, 5)

    def expr():
        'one expression'
        return draw(linear(nvar, ncon, draw(gen.ints(0, 3))))

    if kind in ('dyn', 'reset'):
        items = [expr() for _ in range(nvar)]

        if bad:
            items[draw(gen.ints(0, nvar - 1))] = draw(nonlinear(nvar, ncon))
    else:
        items = [[expr(), draw(st.sampled_from(['<=', '>='])), expr()] for _ in range(draw(gen.ints(1, 3)))]

        if bad:
            i = draw(gen.ints(0, len(items) - 1))
            b = draw(st.sampled_from(['left', 'right', '<', '==', 'two', 'none', '=>']))

            if b in ('left', 'right'):
                items[i][0 if b == 'left' else 2] = draw(nonlinear(nvar, ncon))
            else:
                items[i][1] = b

    return {'vars': variables, 'consts': consts, 'kind': kind, 'affine': affine, 'bad': bool(bad), 'items': items,
            'sp': draw(st.sampled_from([' ', ''])), 'ctype': draw(st.sampled_from(['float', 'num', 'np']))}

def strategy():
    'cases'
    return _case()

def const_value(text, ctype):
    'the value as the user passes it'

    if ctype == 'num':
        return float(text) if '.' in text or 'e' in text else int(text)

    return np.float64(text) if ctype == 'np' else float(text)

def has_var(e):
    'any variable inside?'

    return e[0] == 'var' or any(has_var(x) for x in e[1:] if isinstance(x, list))

def interesting(e):
    'a variable inside parentheses or twice'

    return str(e).count("'var'") > 1

def check_row(form, row, nvar, affine, scale, what):
    'compare one row of coefficients'

    want = [form.get(i, Fraction(0)) for i in range(nvar)]

    if affine is not None:
        want.append(affine)

    if len(row) != len(want):
        raise Violation('row_length', f'{what}: row has {len(row)} entries, expected {len(want)}: {list(row)}')

    for i, (a, b) in enumerate(zip(row, want)):
        if abs(float(a) - float(b)) > 1e-9 * float(scale.get(i if i < nvar else None, 0)):
            raise Violation('wrong_coefficient', f'{what}: entry {i} is {a}, expected {float(b)}')

def run_case(case):
    'one case'

    from hylaa import symbolic

    variables, consts, sp = case['vars'], case['consts'], case['sp']
    nvar, affine = len(variables), case['affine']
    cdict = {c: const_value(v, case['ctype']) for c, v in consts}
    before = (list(variables), dict(cdict))
    labels = ['kind:' + case['kind'], 'affine' if affine else 'no_affine']

    if case['kind'] == 'cond':
        strings = []

        for l, op, r in case['items']:
            ls, rs = show(l, variables, consts, sp), show(r, variables, consts, sp)
            strings.append({'two': f'{ls} <= {rs} <= 5', 'none': ls}.get(op, f'{ls}{sp}{op}{sp}{rs}'))

        func = symbolic.make_condition
    else:
        strings = [show(e, variables, consts, sp) for e in case['items']]
        func = symbolic.make_dynamics_mat if case['kind'] == 'dyn' else symbolic.make_reset_mat

    arg = list(strings)

    if case['bad']:
        try:
            rv = func(variables, arg, cdict, has_affine_variable=affine)
        except Exception: # pylint: disable=broad-except
            return labels + ['nt:rejected']

        raise Violation('accepted_nonlinear', f'{strings} over {variables} was accepted: {rv}')

    forms = []
    need_affine = False

    if case['kind'] == 'cond':
        for l, op, r in case['items']:
            d = value(['sub', l, r], variables, consts)
            forms.append(d if op == '<=' else {i: -x for i, x in d.items()})
    else:
        forms = [value(e, variables, consts) for e in case['items']]
        need_affine = any(f.get(None, 0) != 0 for f in forms)

    if need_affine and not affine:
        # constants that cancel in floating point are borderline: only clear cases must be rejected
        clear = any(abs(f.get(None, 0)) > Fraction(1, 10**9) * magnitude(e, variables, consts).get(None, 0)
                    for f, e in zip(forms, case['items']))

        try:
            rv = func(variables, arg, cdict)
        except RuntimeError:
            return labels + ['nt:needs_affine']

        if clear:
            raise Violation('affine_term_lost', f'{strings}: constant terms without affine variable gave {rv}')

        return labels + ['tiny_constant']

    if not need_affine and not affine and case['kind'] != 'cond':
        # sums of constants can differ from zero by rounding
        try:
            rv = func(variables, arg, cdict)
        except RuntimeError as e:
            if 'has_affine_variable was False' in str(e) and any(has_const(x) for x in case['items']):
                return labels + ['rounding']
            raise
    else:
        rv = func(variables, arg, cdict, has_affine_variable=affine)

    if (list(variables), dict(cdict)) != before or arg != strings:
        raise Violation('arguments_changed', f'arguments were modified: {variables} {cdict} {arg}')

    if case['kind'] == 'cond':
        mat, rhs = rv

        if len(mat) != len(forms) or len(rhs) != len(forms):
            raise Violation('row_count', f'{strings}: {len(mat)} rows, {len(rhs)} right hand sides')

        for (l, _, r), f, row, b, s in zip(case['items'], forms, mat, rhs, strings):
            scale = magnitude(['sub', l, r], variables, consts)
            check_row(f, row, nvar, Fraction(0) if affine else None, scale, s)

            if abs(float(b) + float(f.get(None, 0))) > 1e-9 * float(scale.get(None, 0)):
                raise Violation('wrong_rhs', f'{s}: rhs {b}, expected {-float(f.get(None, 0))}')
    else:
        if len(rv) != nvar + (1 if affine else 0):
            raise Violation('row_count', f'{strings}: {len(rv)} rows for {nvar} variables, affine {affine}')

        for e, f, row, s in zip(case['items'], forms, rv, strings):
            check_row(f, row, nvar, f.get(None, Fraction(0)) if affine else None, magnitude(e, variables, consts), s)

        if affine:
            last = [0.0] * nvar + [1.0 if case['kind'] == 'reset' else 0.0]

            if [float(x) for x in rv[-1]] != last:
                raise Violation('affine_row', f'row of the affine variable is {rv[-1]}, expected {last}')

    flat = [e for it in case['items'] for e in (it if case['kind'] == 'cond' else [it]) if isinstance(e, list)]

    if any(interesting(e) for e in flat):
        labels.append('nt:several_terms')

    if any(len(f) and f.get(None, 0) != 0 for f in forms):
        labels.append('constant_term')

    return labels

def has_const(e):
    'any additive constant inside?'

    return e[0] in ('num', 'con') or any(has_const(x) for x in e[1:] if isinstance(x, list))
