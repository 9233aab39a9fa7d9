'''C18: an analysis depends on its model and settings only'''

import contextlib
import copy
import functools
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model
from pbt.props import c12
from pbt.runner import Discard, Violation

ID = 'C18'
QUICK = 450
THOROUGH = 6000
RULE = ('random hybrid automata (a third with time-triggered transitions) analysed twice: in a fresh automaton, and after a '
        'random history in the same process: analyses of the same automaton object with other step sizes, time bounds and '
        'settings, analyses that fail half-way or have no initial state, simulations, analyses of other models, reused '
        'settings and Core objects; with other output settings (all print levels, stored or drawn plots); oracle: the sequence of '
        'visited sets, the verdict and the printed result are the same, and nothing is printed at level 0; non-trivial: the '
        'history contains an analysis of the same automaton, or the output settings differ, and the run has a jump')

@st.composite
def _case(draw):
    if gen.chance(draw, 1, 3):
        spec = draw(c12._case()) # pylint: disable=protected-access
    else:
        spec = draw(gen.automaton(max_trans=3, max_steps=5, pad=False))

    spec['settings'] = {'urgent': draw(st.booleans()), 'strengthen': draw(st.booleans()), 'skip_zero': draw(st.booleans()),
                        'stop_concrete': draw(st.booleans()), 'tt': draw(st.booleans()),
                        'approx': draw(st.sampled_from([0, 0, 0, 1, 2]))}
    spec['settings'].update(draw(gen.agg_settings(('none', 'none', 'box', 'arnoldi', 'chull'), deagg=draw(st.booleans()))))

    # only some combinations of urgent guards and jumps end
    if spec['settings']['urgent'] and not all(t['src'] < t['dst'] for t in spec['trans']):
        spec['settings']['urgent'] = False

    history = []

    for _ in range(draw(gen.ints(0, 3))):
        kind = draw(st.sampled_from(['same', 'same', 'same', 'fail', 'empty', 'other', 'sim' if gen.chance(draw, 1, 3) else 'same']))
        history.append({'kind': kind, 'step': draw(st.sampled_from([1.0, 0.5, 2.0, 0.1])), 'num_steps': draw(gen.ints(1, 6)),
                        'urgent': False, 'strengthen': draw(st.booleans()), 'skip_zero': draw(st.booleans()),
                        'tt': draw(st.booleans()), 'agg': draw(st.sampled_from(['none', 'box', 'chull'])),
                        'approx': draw(st.sampled_from([0, 0, 1, 2])), 'fail_at': draw(gen.ints(1, 3))})

    return {'spec': spec, 'history': history, 'core': [draw(gen.ints(0, 3)) for _ in range(draw(gen.ints(0, 2)))], 'other': draw(gen.automaton(max_modes=2, max_trans=2, max_steps=4, pad=False)),
            'stdout': draw(gen.ints(0, 3)), 'store': draw(st.booleans()), 'image': gen.chance(draw, 1, 12),
            'reuse': draw(st.booleans())}

def strategy():
    'cases'
    return _case()

class Stop(Exception):
    'raised in the middle of an analysis'

def run(spec, ha, modes, settings, fail_at=None, core=None): # pylint: disable=too-many-arguments
    'the visited sets of core.run(), its result and what was printed'

    from hylaa.stateset import StateSet

    init = [StateSet(model.make_lpi(s, modes[s['mode']]), modes[s['mode']]) for s in spec['init']]
    core = model.bounded_core(ha, settings) if core is None else core
    core.steps_left = 120
    records = []
    step = functools.partial(type(core).do_step, core)

    def do_step():
        'one step, recorded'

        step()
        state = core.aggdag.get_cur_state()

        if fail_at is not None and len(records) >= fail_at:
            raise Stop()

        if state is not None and not state.mode.is_error():
            s = model.lpi_to_ref(state.lpi)
            sup = [s.support(sg * e) for e in np.eye(s.dims) for sg in (1, -1)]

            if np.abs(sup).max() > model.MAX_VALUE:
                raise Discard('large values')

            records.append((state.mode.name, state.cur_step_in_mode, tuple(state.cur_steps_since_start), state.is_concrete,
                            sup))
        else:
            records.append(None)

    core.do_step = do_step
    out = io.StringIO()
    result = None

    with contextlib.redirect_stdout(out):
        try:
            result = core.run(init)
        except RuntimeError as e:
            if 'feasible initial states' not in str(e):
                raise
        except AssertionError as e:
            if 'lgg approx model beta' in str(e): # the approximation model does not apply to this step size
                raise Discard('step size') from e
            raise

    return records, result, out.getvalue()

def past(case, h, ha, modes):
    'something that happened before'

    import matplotlib.pyplot as plt
    from hylaa.core import Core
    from hylaa.settings import PlotSettings

    spec = case['spec']
    own = {k: h[k] for k in ('strengthen', 'skip_zero', 'tt', 'agg', 'approx')}

    if h['kind'] == 'other':
        other = dict(case['other'], settings=own)
        ha2, modes2, _ = model.build_ha(other)
        run(other, ha2, modes2, model.make_settings(other))
        return

    spec = dict(spec, step=gen.q(spec['step'] * h['step']), num_steps=h['num_steps'], settings=own)
    settings = model.make_settings(spec)

    if h['kind'] == 'sim':
        box = spec['init'][0].get('box')

        if box is None or any(m['B'] is not None for m in spec['modes']) or any(t['mink'] for t in spec['trans']):
            return

        tmp = tempfile.mkdtemp(prefix='hylaa-sim-')

        try:
            settings.plot.plot_mode = PlotSettings.PLOT_IMAGE
            settings.plot.plot_size = (3, 3)
            settings.plot.filename = os.path.join(tmp, 'sim.png')
            settings.plot.xdim_dir, settings.plot.ydim_dir = 0, None
            Core(ha, settings).simulate(modes[spec['init'][0]['mode']], box, 2)
        finally:
            plt.close('all')
            shutil.rmtree(tmp, ignore_errors=True)

        return

    if h['kind'] == 'empty':
        # the first initial set is outside of itself
        s = spec['init'][0]
        n = len(spec['modes'][s['mode']]['A'])
        bad = {'type': 'cons', 'C': [[1.0] + [0.0] * (n - 1), [-1.0] + [0.0] * (n - 1)], 'rhs': [0.0, -1.0], 'mode': s['mode']}
        spec = dict(spec, init=[bad])

    try:
        run(spec, ha, modes, settings, h['fail_at'] if h['kind'] == 'fail' else None)
    except Stop:
        pass
    except (AssertionError, RuntimeError) as e:
        if h['kind'] != 'empty': # a set without points may be refused
            raise e

def reuse_core(case, ha, modes, settings):
    'a Core object that was used before'

    import matplotlib.pyplot as plt
    from hylaa.settings import PlotSettings

    spec = case['spec']
    core = model.bounded_core(ha, settings)

    for kind in case['core']:
        try:
            if kind:
                run(spec, ha, modes, settings, kind * 2 if kind < 3 else None, core)
                continue

            box = spec['init'][0].get('box')

            if box is None or any(m['B'] is not None for m in spec['modes']) or any(t['mink'] for t in spec['trans']):
                continue

            tmp = tempfile.mkdtemp(prefix='hylaa-sim-')

            try:
                settings.plot.plot_mode = PlotSettings.PLOT_IMAGE
                settings.plot.plot_size = (3, 3)
                settings.plot.filename = os.path.join(tmp, 'sim.png')
                settings.plot.xdim_dir, settings.plot.ydim_dir = [0], [None]
                core.steps_left = 120
                core.do_step = functools.partial(type(core).do_step, core)
                core.simulate(modes[spec['init'][0]['mode']], box, 2)
            finally:
                settings.plot.plot_mode = PlotSettings.PLOT_NONE
                plt.close('all')
                shutil.rmtree(tmp, ignore_errors=True)
        except Stop:
            pass

    return core

def compare(first, second, what):
    'same records?'

    a = [r and r[:4] for r in first]
    b = [r and r[:4] for r in second]

    if a != b:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation(what + '_sequence', f'analysis step {i}: {a[i] if i < len(a) else "finished"} in the first analysis, '
                        f'{b[i] if i < len(b) else "finished"} in the second')

    for x, y in zip(first, second):
        if x is not None:
            u, v = np.array(x[4]), np.array(y[4])

            if not np.allclose(u, v, rtol=1e-7, atol=1e-7):
                raise Violation(what + '_sets', f'{x[:3]}: supports {u.tolist()} in the first analysis, {v.tolist()} in the second')

def flags(res):
    'verdict'

    return None if res is None else (res.has_concrete_error, res.has_aggregated_error, len(res.counterexample),
                                     [s.steps for s in res.counterexample])

def claims(text):
    'printed results'

    return [l for l in text.split('\n') if l.startswith('Result')]

def shifted(spec, d):
    'the model with all guards and invariants moved a little; opposite conditions remain opposite'

    spec = copy.deepcopy(spec)

    for cons in [m['inv'] for m in spec['modes']] + [t['guard'] for t in spec['trans']]:
        for c in cons:
            sign = next((np.sign(v) for v in c[0] if v != 0), 1.0)
            c[1] = float(c[1] + sign * d)

    return spec

def run_case(case):
    'one case'

    try:
        return run_once(case)
    except Violation as v:
        if v.sig.endswith('silent'):
            raise

        # conditions that hold with equality are decided by rounding errors, which may differ between analyses
        for d in (3e-4, -2.3e-4, 1.1e-3):
            try:
                run_once(dict(case, spec=shifted(case['spec'], d)))
            except Discard:
                pass
            except Violation:
                raise v from None

        raise Discard('touching') from None

def run_once(case):
    'one case'

    import matplotlib.pyplot as plt
    from hylaa.settings import PlotSettings

    spec = case['spec']
    ha, modes, _ = model.build_ha(spec)
    settings = model.make_settings(spec, stdout=1)
    first, res, text = run(spec, ha, modes, settings)

    # once more, after the history
    if not case['reuse']:
        ha, modes, _ = model.build_ha(spec)
        settings = model.make_settings(spec, stdout=1)

    for h in case['history']:
        past(case, h, ha, modes)

    if res is None and not case['history']:
        return ['empty_init']

    core = reuse_core(case, ha, modes, settings) if case['core'] and res is not None else None
    second, res2, text2 = run(spec, ha, modes, settings, core=core)
    compare(first, second, 'history')

    if flags(res) != flags(res2) or claims(text) != claims(text2):
        raise Violation('history_verdict', f'{flags(res)}, {claims(text)} in the first analysis, {flags(res2)}, {claims(text2)} in '
                        'the second')

    # other output settings
    tmp = tempfile.mkdtemp(prefix='hylaa-out-')

    try:
        ha, modes, _ = model.build_ha(spec)
        settings = model.make_settings(spec, stdout=case['stdout'])
        settings.plot.store_plot_result = case['store']
        settings.plot.num_angles = 8
        settings.plot.xdim_dir, settings.plot.ydim_dir = 0, None

        if case['image']:
            settings.plot.plot_mode = PlotSettings.PLOT_IMAGE
            settings.plot.plot_size = (3, 3)
            settings.plot.filename = os.path.join(tmp, 'out.png')

        third, res3, text3 = run(spec, ha, modes, settings)
    finally:
        plt.close('all')
        shutil.rmtree(tmp, ignore_errors=True)

    compare(first, third, 'output')

    if flags(res) != flags(res3) or case['stdout'] and claims(text) != claims(text3):
        raise Violation('output_verdict', f'{flags(res)}, {claims(text)} in the first analysis, {flags(res3)}, {claims(text3)} with '
                        f'print level {case["stdout"]}')

    text3 = '\n'.join(l for l in text3.split('\n') if l and not l.startswith('Warning'))

    if case['stdout'] == 0 and text3:
        raise Violation('output_silent', f'with print level 0, the analysis prints {text3[:200]!r}')

    labels = ['agg:' + spec['settings']['agg'], f'stdout:{case["stdout"]}']
    jump = len({r[0] for r in first if r}) > 1 or len([r for r in first if r and r[1] == 0]) > len(spec['init'])

    if jump and (case['reuse'] or case['core'] or any(h['kind'] != 'other' for h in case['history'])):
        labels.append('nt:same_automaton')
    if jump and case['stdout'] > 1:
        labels.append('nt:printed')
    if jump and case['image']:
        labels.append('nt:image')

    return labels
