'''C19: however an analysis is displayed, it is the same analysis'''

import contextlib
import io
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, model
from pbt.props import c15, c18, c22
from pbt.runner import Discard, Violation

ID = 'C19'
QUICK = 600
THOROUGH = 5000
RULE = ('random hybrid automata x aggregation strategies (half of them with deaggregation) x one to three subplots, analysed '
        'without display, and with an image, a live plot, an interactive plot driven by random button clicks and mouse clicks '
        '(also closed before the end), or a video with pauses and extra frames; oracle: visited sets, verdict, printed result '
        'and stored plot data are the ones of the run without display; the figure contains the stored objects, which lie '
        'within the automatic axis limits; nothing is claimed to be safe before the end; simulations give the same lines; '
        'non-trivial: several modes or a refinement were displayed')
ASSUMPTIONS = ['rendering itself (pixels) is matplotlib\'s', 'no window system: plt.show() is replaced by a driver that draws '
               'the frames of the animation and sends events to the canvas']
MAX_FRAMES = 500

@st.composite
def _case(draw):
    sim = gen.chance(draw, 1, 6)

    if sim:
        base = draw(c15._case()) # pylint: disable=protected-access
        n = min(len(m['A']) for m in base['spec']['modes'] if m['A'] is not None)
        case = {'spec': base['spec'], 'num': base['num'], 'seed': base['seed'], 'single': False, 'markers': False,
                'plots': [[None, i] for i in range(n)]}
    else:
        case = draw(c22.analysis())
        case['seed'] = 0

    case['sim'] = sim
    case['mode'] = draw(st.sampled_from(['image', 'live', 'inter', 'inter', 'video', 'video']))
    case['stride'] = draw(st.sampled_from([1, 1, 1, 2, 3]))
    case['extra'] = draw(gen.ints(0, 3))
    case['pause'] = draw(gen.ints(0, 2))
    case['skip'] = draw(gen.ints(0, 2))
    case['show_frame'] = draw(st.booleans())
    case['buttons'] = [draw(gen.ints(0, 2)) for _ in range(draw(gen.ints(1, 4)))]
    case['clicks'] = [[draw(gen.ints(0, 10)) / 10, draw(gen.ints(0, 10)) / 10] for _ in range(draw(gen.ints(0, 2)))]
    case['close'] = draw(gen.ints(1, 12)) if gen.chance(draw, 1, 5) else None
    case['limits'] = None

    if gen.chance(draw, 1, 4):
        x, y = draw(gen.ints(-3, 3)), draw(gen.ints(-3, 3))
        case['limits'] = [float(x), x + 1.5, y - 0.5, y + 2.0]

    return case

def strategy():
    'cases'
    return _case()

def click(fig, axes, at):
    'a mouse click into an axes object'

    from matplotlib.backend_bases import MouseEvent

    x, y = axes.transAxes.transform(at)

    for name in ('button_press_event', 'button_release_event'):
        MouseEvent(name, fig.canvas, x, y, 1)._process() # pylint: disable=protected-access

class Driver():
    'the user in front of the window'

    def __init__(self, case, core, log):
        self.case = case
        self.log = log # steps of the analysis
        self.core = core
        self.frames = 0
        self.closed = False

    def show(self, *_args, **_kwargs):
        'plt.show'

        core, case = self.core, self.case
        anim = core.plotman._anim # pylint: disable=protected-access
        fig = core.plotman.fig
        subplots = list(core.plotman.axes_list)
        buttons = [a for a in fig.axes if a not in subplots]
        anim._init_draw() # pylint: disable=protected-access
        pressed = 0
        single = self.case['mode'] == 'inter' # the first frame, or the last click asked for a single step
        idle = 0

        for frame in anim.new_frame_seq():
            if case['close'] is not None and self.frames >= case['close']:
                self.closed = True
                break

            before, paused = len(self.log), core.plotman.interactive.paused
            running = not core.is_finished()
            anim._draw_frame(frame) # pylint: disable=protected-access
            self.frames += 1
            self.check_frame(anim, subplots)
            self.check_progress(len(self.log) - before, running, paused, single)
            idle = idle + 1 if running and len(self.log) == before else 0
            single = single and len(self.log) == before

            if idle > 20:
                raise Violation('no_progress', f'{idle} frames were drawn without a step of the analysis')

            if self.frames > MAX_FRAMES:
                raise Discard('too many frames')

            # looking for the clicked set takes long if there are many
            for p in case['clicks'] if self.frames in (2, 5) and case['mode'] == 'inter' else []:
                click(fig, subplots[self.frames % len(subplots)], p)
                single = None # a click on a set continues with single steps

            if buttons and core.plotman.interactive.paused:
                # next, next, or step
                which = int(case['buttons'][pressed % len(case['buttons'])] == 2)
                click(fig, buttons[which], (0.5, 0.5))
                single = bool(which) if single is not None else None
                pressed += 1

    def check_progress(self, steps, running, paused, single):
        'steps of the analysis in this frame'

        want = self.case['stride']

        if single and steps > 1:
            raise Violation('single_step', f'a single step was asked for, but the frame took {steps}')

        if steps > want or not running and steps:
            raise Violation('stride', f'{steps} steps in one frame, but the stride is {want}')

        if single is False and running and not paused and not self.core.is_finished() and steps != want and \
                           not self.core.plotman.interactive.paused:
            raise Violation('stride', f'{steps} steps in one frame, but the stride is {want}')

    def check_frame(self, anim, subplots):
        'everything in the axes is redrawn (animated objects are only drawn if the frame lists them)'

        drawn = {id(a) for a in anim._drawn_artists} # pylint: disable=protected-access

        for i, ax in enumerate(subplots):
            for a in list(ax.collections) + list(ax.lines):
                if a.get_animated() and id(a) not in drawn:
                    raise Violation('frame', f'frame {self.frames} does not draw {type(a).__name__} of subplot {i}')

def configure(case, settings, tmp, mode):
    'plot settings'

    from hylaa.settings import PlotSettings

    c22.set_plot(case, settings, tmp, False)
    p = settings.plot
    settings.stdout = 1
    settings.random_seed = case['seed']
    p.plot_mode = {'none': PlotSettings.PLOT_NONE, 'image': PlotSettings.PLOT_IMAGE, 'live': PlotSettings.PLOT_LIVE,
                   'inter': PlotSettings.PLOT_INTERACTIVE, 'video': PlotSettings.PLOT_VIDEO}[mode]
    p.label.axes_limits = case['limits']

    if mode not in ('none', 'image'):
        p.draw_stride = case['stride']
        p.interactive_skip_count = case['skip']
        p.video_extra_frames = case['extra']
        p.video_pause_frames = case['pause']
        p.video_show_frame = case['show_frame']

def dummy_writer(case, grabbed, log):
    'a writer that only counts frames'

    from matplotlib.animation import AbstractMovieWriter

    class Writer(AbstractMovieWriter):
        'see above'

        def setup(self, fig, outfile, dpi=None):
            'no file is written'
            self.fig, self.outfile, self.dpi = fig, outfile, dpi # pylint: disable=attribute-defined-outside-init

        def grab_frame(self, **_kwargs):
            'count'
            grabbed.append(len(log))

            if len(log) - (grabbed[-2] if len(grabbed) > 1 else 0) > case['stride'] + int(len(grabbed) == 1):
                raise Violation('stride', f'{len(log)} steps after frames at steps {grabbed}, but the stride is {case["stride"]}')

            if len(grabbed) > 30 and grabbed[-30] == len(log):
                raise Violation('no_progress', '30 frames were drawn without a step of the analysis')

            if len(grabbed) > MAX_FRAMES:
                raise Discard('too many frames')

        def finish(self):
            'done'

    return Writer(fps=case.get('fps', 10))

class Run():
    'one run'

    def __init__(self, case, mode, tmp): # pylint: disable=too-many-statements
        import matplotlib.pyplot as plt
        from matplotlib.backend_bases import FigureCanvasBase
        from hylaa import plotutil

        self.drawn = self.limits = self.result = None
        self.records = []
        self.closed = False
        self.grabbed = []
        core, init, _, self.modes, _ = model.build(case['spec'])
        configure(case, core.settings, tmp, mode)
        self.core = core = model.bounded_core(core.hybrid_automaton, core.settings)
        core.steps_left = 150
        core.settings.plot.make_video_writer_func = lambda: dummy_writer(case, self.grabbed, log)
        step = core.do_step
        log = []

        def do_step():
            'recorded'

            done = core.is_finished()
            log.append(done)
            step()

            if not done:
                self.record()

        core.do_step = do_step
        driver = Driver(case, core, log)
        out = io.StringIO()
        old = plt.show, FigureCanvasBase.draw_idle, plotutil.time.sleep
        plt.show = lambda *_args, **_kwargs: driver.show()
        plotutil.time.sleep = lambda _: None
        FigureCanvasBase.draw_idle = lambda *_args, **_kwargs: None # the frames of a video are not looked at

        try:
            with contextlib.redirect_stdout(out):
                if case['sim']:
                    i = case['spec']['init'][0]
                    self.result = core.simulate(self.modes[i['mode']], [tuple(b) for b in i['box']], case['num'])
                else:
                    self.result = core.run(init)

            self.closed = driver.closed

            if mode != 'none':
                self.look(plt, core)
        except RuntimeError as e:
            if 'feasible initial states' not in str(e):
                raise
        finally:
            plt.show, FigureCanvasBase.draw_idle, plotutil.time.sleep = old
            plt.close('all')

        self.claims = c18.claims(out.getvalue())

    def record(self):
        'what the analysis did in this step'

        if self.core.doing_simulation:
            return

        state = self.core.aggdag.get_cur_state()

        if state is None or state.mode.is_error():
            self.records.append(None)
            return

        s = model.lpi_to_ref(state.lpi)
        sup = [s.support(sg * e) for e in np.eye(s.dims) for sg in (1, -1)]

        if np.abs(sup).max() > model.MAX_VALUE:
            raise Discard('large values')

        self.records.append((state.mode.name, state.cur_step_in_mode, tuple(state.cur_steps_since_start), state.is_concrete, sup))

    def look(self, plt, core):
        'what is in the figure'

        self.drawn, self.limits = [], []

        for ax in plt.gcf().axes:
            if ax not in core.plotman.axes_list:
                continue

            polys = [np.array(p.vertices) for c in ax.collections if c.get_alpha() == 0.5 for p in c.get_paths()]
            points = [[float(x), float(y)] for l in ax.lines if l.get_alpha() == 0.5
                      for x, y in zip(l.get_xdata(), l.get_ydata())]
            self.drawn.append((polys, points))
            self.limits.append((ax.get_xlim(), ax.get_ylim()))

def contents(data, i):
    'stored objects of a subplot, comparable'

    return sorted((mode, step, tuple((float(x), float(y)) for x, y in verts), desc)
                  for mode, step, verts, desc in c22.objects(data, i))

ANGLES = np.linspace(0, 2 * np.pi, 24, endpoint=False)
DIRS = np.stack([np.cos(ANGLES), np.sin(ANGLES)])

def close(a, b):
    'same stored object? the corners may be listed from another one on, and are accurate as stated for C16'

    u, v = np.array(a[2]), np.array(b[2])
    tol = 3e-3 * max(np.ptp(u, axis=0).max(), np.ptp(v, axis=0).max()) + 1e-6 * (1 + np.abs(u).max())

    return a[:2] == b[:2] and a[3] == b[3] and np.abs((u @ DIRS).max(axis=0) - (v @ DIRS).max(axis=0)).max() <= tol

def compare_data(plain, shown, full):
    'stored data of both runs'

    if len(plain.mode_to_obj_list) != len(shown.mode_to_obj_list):
        raise Violation('data_subplots', 'different number of stored subplots')

    for i in range(len(plain.mode_to_obj_list)):
        a, b = contents(plain, i), contents(shown, i)
        rest = list(a)

        for o in b:
            j = next((j for j, r in enumerate(rest) if close(o, r)), None)

            if j is None:
                raise Violation('data_extra', f'subplot {i}: {o} is only stored if the analysis is displayed')

            rest.pop(j)

        if full and rest:
            raise Violation('data_missing', f'subplot {i}: {rest[0]} is only stored if the analysis is not displayed')

def check_limits(case, run, points):
    'everything is visible'

    for i, ((x0, x1), (y0, y1)) in enumerate(run.limits):
        if case['limits'] is not None:
            if not np.allclose([x0, x1, y0, y1], case['limits']):
                raise Violation('fixed_limits', f'axis limits {[x0, x1, y0, y1]} instead of {case["limits"]}')

            continue

        p = points[i]

        if len(p) and not (p[:, 0].min() >= x0 - 1e-9 and p[:, 0].max() <= x1 + 1e-9 and p[:, 1].min() >= y0 - 1e-9 and
                           p[:, 1].max() <= y1 + 1e-9):
            raise Violation('limits', f'subplot {i}: x in {[x0, x1]} and y in {[y0, y1]} is shown, but the objects lie in '
                            f'{[p.min(axis=0).tolist(), p.max(axis=0).tolist()]}')

def lines(run):
    'simulated lines: nested lists to tuples'

    return run.result.sim_lines

def run_sim(case, tmp):
    'simulations'

    full = [len(m['A']) for m in case['spec']['modes'] if m['A'] is not None]

    if min(full) != max(full):
        raise Discard('different dimensions')

    plain = Run(case, 'image', tmp)
    shown = Run(case, case['mode'], tmp)
    a, b = lines(plain), lines(shown)

    if shown.closed:
        return ['closed']

    if case['stride'] == 1 or case['mode'] == 'image':
        if len(a) != len(b) or any(len(x) != len(y) for x, y in zip(a, b)):
            raise Violation('sim_lines', 'different number of lines')

        for x, y in zip(a, b):
            for s, t in zip(x, y):
                if len(s) != len(t) or any(len(u) != len(v) or not np.allclose(np.array(u), np.array(v)) for u, v in zip(s, t)):
                    raise Violation('sim_lines', f'{s} without display, {t} with mode {case["mode"]}')

    points = [np.array([p for seg in sub for line in seg for p in line]).reshape(-1, 2) for sub in b]
    check_limits(case, shown, points)

    return ['nt:sim_' + case['mode']] if len(a[0]) > 1 else ['sim']

def run_case(case):
    'one case'

    tmp = tempfile.mkdtemp(prefix='hylaa-show-')

    try:
        if case['sim']:
            return run_sim(case, tmp)

        plain = Run(case, 'none', tmp)
        shown = Run(case, case['mode'], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    if plain.result is None or shown.result is None:
        if plain.result is not shown.result:
            raise Violation('init', 'the analysis has an initial state with or without display only')
        return ['empty_init']

    labels = ['mode:' + case['mode'], f'stride:{case["stride"]}']

    if shown.closed and not shown.core.is_finished():
        c18.compare(plain.records[:len(shown.records)], shown.records, 'closed')

        if any('is safe' in c.lower() for c in shown.claims) or not shown.claims:
            raise Violation('claim', f'the window was closed after {len(shown.records)} analysis steps of {len(plain.records)}, '
                            f'and the result is {shown.claims}')

        labels.append('nt:closed' if len(shown.records) > 2 else 'closed')
    else:
        c18.compare(plain.records, shown.records, 'shown')

        if c18.flags(plain.result) != c18.flags(shown.result) or plain.claims != shown.claims:
            raise Violation('verdict', f'{c18.flags(plain.result)}, {plain.claims} without display, {c18.flags(shown.result)}, '
                            f'{shown.claims} with mode {case["mode"]}')

        compare_data(plain.result.plot_data, shown.result.plot_data, case['stride'] == 1 or case['mode'] == 'image')

    if case['mode'] == 'video' and len(shown.grabbed) * max(1, case['stride']) < len(shown.records) + case['extra']:
        raise Violation('frames', f'{len(shown.grabbed)} frames for {len(shown.records)} steps and {case["extra"]} extra frames')

    c22.check_drawn(shown.result.plot_data, shown.drawn)
    points = [np.array([p for o in c22.objects(shown.result.plot_data, i) for p in o[2]]).reshape(-1, 2)
              for i in range(len(shown.drawn))]
    check_limits(case, shown, points)

    if len({r[0] for r in plain.records if r}) > 1:
        labels.append('nt:modes_' + case['mode'])
    elif case['spec']['settings'].get('deagg') and sum(r is None for r in plain.records) > 2:
        labels.append('nt:refined')

    return labels
