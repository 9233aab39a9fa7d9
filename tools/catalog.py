#!/usr/bin/env python3
'''The property catalogue: writes properties.jsonl and MANIFEST.json (run it after editing; both files are committed).'''

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TECH = 'property-based testing (Hypothesis): '

PROPS = []

def P(pid, title, statement, over, text, why, files, mech, note, tech, observe=()):
    'add a property'

    PROPS.append({'id': pid, 'title': title, 'statement': statement, 'over': over, 'text': text, 'why': why, 'files': files,
                  'mech': mech, 'note': note, 'tech': TECH + tech, 'observe': list(observe)})

P('C01', 'The reachable sets cover every reachable state under all settings',
  'Whatever aggregation strategy, waiting-list order, urgency, guard-strengthening, zero-dynamics and deaggregation setting is '
  'chosen, every state that the discrete-time semantics can reach within the time bound lies in some state set the analysis '
  'visits, in the same mode, after the same number of steps in that mode and with a step interval containing the true step. '
  'If such a state can take a transition into an error mode, the result reports an error.',
  ['programs', 'configurations', 'inputs'],
  'all affine hybrid automata (modes, inputs, invariants, guards, resets with uncertain terms, several initial sets) and all '
  'combinations of analysis settings',
  'the tests run a dozen fixed models with mostly one aggregation setting each; soundness is a statement about every model '
  'and every combination of settings',
  ['hylaa/core.py', 'hylaa/aggdag.py', 'hylaa/aggregate.py', 'hylaa/aggstrat.py', 'hylaa/stateset.py', 'hylaa/lputil.py'],
  [('successor computation and aggregation', 'hylaa/aggdag.py, hylaa/aggregate.py'),
   ('continuous post with invariant trimming', 'hylaa/core.py, hylaa/stateset.py')],
  'random models up to 3 modes, 3 dimensions, 7 steps; membership decided by an independent LP solver (HiGHS)',
  'random hybrid automata against an independent path-enumerating reference model; extreme points of the reference sets must '
  'be covered', ['state sets visited by the analysis', 'result verdict'])

P('C02', 'Without aggregation the analysis is exact',
  'Without aggregation, the state sets visited are exactly the sets of the discrete-time semantics: one set per path and '
  'step, neither larger nor smaller (up to solver tolerance), with correct step counts. Nothing reachable is missing and no '
  'unreachable set is visited.',
  ['programs', 'configurations', 'inputs'],
  'all affine hybrid automata, with urgent guards, guard strengthening and zero-dynamics skipping on or off',
  'unit tests compare single sets of fixed models; exactness must hold for every model and every path',
  ['hylaa/core.py', 'hylaa/stateset.py', 'hylaa/lputil.py', 'hylaa/hybrid_automaton.py', 'hylaa/time_elapse_expm.py'],
  [('symbolic step, guard and reset operations', 'hylaa/stateset.py, hylaa/lputil.py')],
  'bracketed by models whose constraints are moved by 1e-6 inwards and outwards, so borderline sets may go either way',
  'random hybrid automata; differential test of all visited sets (support functions, matched as multisets) against an '
  'independent reference', ['state sets visited by the analysis'])

P('C03', 'The safety verdict is right and the stop settings only stop',
  'A run reports an error mode as reached exactly when the semantics reaches it within the time bound (without aggregation), '
  'and a system reported safe is safe. The stop-on-error settings may end the analysis early but never change whether an '
  'error is reported.',
  ['programs', 'configurations'],
  'all hybrid automata with error modes and all stop / counterexample settings',
  'the tests assert the verdict of a few models in which the error is clearly reachable or clearly not',
  ['hylaa/core.py', 'hylaa/result.py', 'hylaa/aggdag.py'],
  [('error reporting and stop conditions', 'hylaa/core.py')],
  'verdict bracketed by 1e-6; models in which the error is reached after jumps dominate',
  'random automata with error modes; verdict compared with path enumeration and across stop settings',
  ['result flags'])

P('C04', 'A reported counterexample is a real execution',
  'Whenever a concrete error is reported (and counterexamples are enabled, without approximation model), the counterexample '
  'starts in an initial set, follows the dynamics with admissible inputs, satisfies invariants, guards and resets (including '
  'their uncertain terms), respects the time bound and ends by taking a transition into an error mode.',
  ['programs', 'configurations'],
  'all hybrid automata and settings for which a concrete error is found',
  'tests check the end points of counterexamples for a handful of models',
  ['hylaa/result.py', 'hylaa/core.py', 'hylaa/lputil.py'],
  [('counterexample extraction from the LP solution', 'hylaa/result.py')],
  'replayed step by step with an independent discretisation, tolerance 1e-5 relative',
  'random automata; validity predicate: independent replay of each counterexample segment',
  ['result.counterexample'])

P('C05', 'Aggregation with deaggregation gives the exact verdict',
  'With deaggregation enabled, the analysis reports a concrete error exactly when the error is reachable in the discrete-time '
  'semantics, for every aggregation method, merging rule, waiting-list order and refinement preference. Splitting aggregated '
  'sets neither loses reachable behaviour nor invents errors.',
  ['programs', 'configurations', 'histories'],
  'all hybrid automata with error modes and all aggregation / refinement settings',
  'two or three deaggregation models are tested; the refinement history differs for every model',
  ['hylaa/deaggregation.py', 'hylaa/aggdag.py', 'hylaa/aggstrat.py'],
  [('replay of recorded operations on split sets', 'hylaa/deaggregation.py, hylaa/aggdag.py')],
  'verdict bracketed by 1e-6; models with up to 60 paths',
  'random automata x refinement settings; verdict compared with independent path enumeration, counterexamples replayed',
  ['result flags', 'counterexample'])

P('C06', 'Aggregating sets gives a tight enclosure of the documented shape',
  'The aggregation of several state sets contains each of them, and is exactly the smallest set of the requested kind (box, '
  'template directions, Arnoldi directions with optional guard directions, convex hull). Aggregated step counts cover those '
  'of the parts, and the parts are not modified.',
  ['inputs', 'histories'],
  'all lists of state sets in the same mode, however they were produced, and all aggregation kinds',
  'tests aggregate two or three fixed boxes',
  ['hylaa/aggregate.py', 'hylaa/lputil.py', 'hylaa/util.py'],
  [('aggregation operators', 'hylaa/aggregate.py, hylaa/lputil.py')],
  'set recipes with up to 5 operations, 1-3 dimensions, 2-4 parts',
  'random set recipes; support functions of the aggregate against those of the parts computed independently',
  ['aggregated state set'])

P('C07', 'Approximation models cover continuous-time behaviour as documented',
  'With the continuous-time approximation model, every state of every continuous-time execution, also between the time steps, '
  'lies in the visited sets (jumps after at least one step in a mode), for all invariants, inputs and aggregation settings, '
  'and error modes hit by such executions are reported. Without aggregation, the visited sets are those of the documented '
  'models (convex hull of two steps; Le Guernic / Girard) and not larger.',
  ['programs', 'configurations', 'inputs'],
  'all hybrid automata, executions with time-varying inputs and jump times between steps, both approximation models',
  'the tests run two models with an approximation and compare a few plotted vertices',
  ['hylaa/stateset.py', 'hylaa/time_elapse_expm.py', 'hylaa/lputil.py', 'hylaa/core.py'],
  [('bloating of the initial set and per-step input terms', 'hylaa/stateset.py, hylaa/time_elapse_expm.py')],
  'sampled executions at several phases between steps; exact comparison with the documented formulas, bracketed by 1e-6',
  'random automata; sampled continuous-time executions must be covered, and sets compared with an independent evaluation of '
  'the documented formulas', ['state sets visited by the analysis'])

P('C08', 'Time-elapse matrices are exact for any order of requested steps',
  'For every dynamics matrix, input matrix and step size, the matrices returned for step k equal the matrix exponential at '
  'time k times the step and the exact effect of inputs held constant over the k-th step. The answer does not depend on which '
  'steps were requested before, in what order, or how often.',
  ['inputs', 'histories'],
  'all dynamics, input matrices, step sizes and query orders',
  'the tests query a few consecutive steps of fixed matrices',
  ['hylaa/time_elapse.py', 'hylaa/time_elapse_expm.py'],
  [('incremental and direct matrix exponential', 'hylaa/time_elapse_expm.py')],
  'compared with scipy expm of an augmented matrix, 1-4 dimensions, steps up to 60',
  'random matrices and query histories against an independent augmented-matrix exponential', ['returned matrices'])

P('C09', 'Constructing and transforming symbolic sets denotes the right set',
  'Initial sets built from boxes, constraints, zonotopes and input constraints denote exactly the described set, and every '
  'operation on them (scaling, bloating, Minkowski sum, resets, time steps, intersections) denotes the image under the '
  'corresponding mathematical operation. Empty descriptions are rejected or reported as infeasible.',
  ['inputs', 'histories'],
  'all set descriptions and all sequences of set operations',
  'tests build a few two-dimensional sets',
  ['hylaa/lputil.py', 'hylaa/lpinstance.py', 'hylaa/stateset.py'],
  [('LP constructions for set operations', 'hylaa/lputil.py')],
  'support functions in axis, diagonal and random directions against HiGHS',
  'random set expressions against an independent LP model of the same expression', ['symbolic set'])

P('C10', 'The LP layer stores and solves exactly the LP it was given',
  'After any history of adding or overwriting rows, columns, right-hand sides and matrix blocks, cloning, resetting and '
  'solving, the LP reads back exactly as written, and every optimisation returns a feasible optimal point or reports '
  'infeasibility correctly. Clones are independent and earlier solves do not influence later answers.',
  ['histories', 'inputs'],
  'all operation histories on one or several LPs',
  'tests build a handful of LPs and solve them once; warm-started solves after modifications are not covered',
  ['hylaa/lpinstance.py', 'hylaa/lputil.py'],
  [('wrapper of the LP library', 'hylaa/lpinstance.py')],
  'histories of up to 40 operations, LPs within 1e-6 of infeasibility are skipped, no all-zero rows or columns',
  'model-based testing: random operation histories against a dense matrix model and HiGHS', ['LP accessors', 'solutions'])

P('C14', 'Symbolic expressions become the matrices they denote',
  'Derivatives, resets and conditions given as strings are turned into matrices and right-hand sides that denote exactly '
  'the same linear functions and constraints, whatever the spelling, variable names, named constants and use of the affine '
  'variable. Expressions which are not linear, or need an affine variable that is not there, are rejected.',
  ['inputs'],
  'all expression strings over any variables and named constants',
  'the tests convert three or four fixed strings',
  ['hylaa/symbolic.py'],
  [('string to matrix conversion', 'hylaa/symbolic.py')],
  'expression trees up to depth 5, four variables, three constants; exact rational evaluation as the oracle',
  'random expression trees printed in many spellings against exact rational evaluation', ['returned matrices'])

P('C16', 'Plotted vertices outline exactly the projection of the set',
  'For every state set and every choice of plot axes (variables, direction vectors, time), the vertices computed for '
  'plotting lie in the projection, form a closed convex outline in order, and cover the projection up to the stated '
  'accuracy, also for points, segments and other lower-dimensional sets. Vertex enumeration from support functions is exact '
  'in any dimension.',
  ['inputs', 'histories'],
  'all symbolic sets, projections and support functions',
  'the tests compare the vertices of a few boxes; degenerate sets and direction vectors are hardly covered',
  ['hylaa/lpplot.py', 'hylaa/kamenev.py', 'hylaa/stateset.py'],
  [('vertex enumeration', 'hylaa/lpplot.py, hylaa/kamenev.py')],
  'sets in 1-4 dimensions; accuracy 1/1000 of the width as documented, thin sets 1e-4 of the scale',
  'random sets and projections; supports of the polygon against independently computed supports', ['vertex lists'])

P('C11', 'Intersections with invariants and guards are exact after any history',
  'Whatever sequence of time steps, jumps, and invariant or guard intersections a symbolic set went through, intersecting it '
  'with an invariant or a guard gives exactly the set-theoretic intersection, emptiness is reported exactly when that '
  'intersection is empty, and repeating an intersection or asking whether one is possible does not change the set.',
  ['inputs', 'histories'],
  'all symbolic sets, all constraints and all operation histories',
  'redundant-constraint removal, bookkeeping of invariant rows and warm-started feasibility checks depend on the history; '
  'tests use one or two intersections of fixed sets',
  ['hylaa/stateset.py', 'hylaa/hybrid_automaton.py', 'hylaa/lputil.py', 'hylaa/core.py'],
  [('invariant trimming and invariant constraint rows', 'hylaa/stateset.py'),
   ('guard intersection', 'hylaa/hybrid_automaton.py')],
  'bracketed by constraints moved by 1e-6; histories up to about ten operations on sets with up to four earlier operations',
  'random operation histories on a symbolic set against the same history on independent sets (support functions, emptiness)',
  ['symbolic set after every operation', 'return values'])

P('C12', 'Time-triggered transitions are recognised and taken without losing states',
  'With the optimisation for time-triggered transitions enabled, a guard that negates an invariant over clocks is taken at '
  'one instant only, and exactly when the whole set leaves the invariant at the same time. No behaviour is lost: states that '
  'can stay, other transitions and states waiting elsewhere are still explored, and variables that do not advance '
  'deterministically are not treated as clocks.',
  ['programs', 'configurations', 'inputs'],
  'all hybrid automata with clocks, one or several clock conditions per guard, urgent or not',
  'tests have one or two clock models in which every condition is hit exactly',
  ['hylaa/core.py', 'hylaa/hybrid_automaton.py', 'hylaa/stateset.py'],
  [('detection of time-triggered transitions', 'hylaa/hybrid_automaton.py'),
   ('one-step successor semantics', 'hylaa/core.py')],
  'states within 1e-4 of the end of a clock invariant may go either way; up to 60 paths',
  'random clock automata; visited sets and verdict against an independent path enumeration with one-step semantics where the '
  'model is time-triggered', ['state sets visited by the analysis', 'result flags'])

P('C15', 'Simulations follow the discrete-time semantics',
  'Every simulation starts in the given box and follows the dynamics of its mode exactly; it jumps at the first step at which '
  'a guard is enabled, applies the reset, ends when the invariant is violated or at the time bound, and stays inside the '
  'reachable sets. The trajectories do not depend on how many simulations run, which are skipped or which modes are avoided.',
  ['programs', 'inputs', 'histories'],
  'all hybrid automata without inputs, initial boxes and simulation settings',
  'the tests run one simulation without looking at the trajectories',
  ['hylaa/core.py', 'hylaa/plotutil.py', 'hylaa/aggstrat.py'],
  [('simulation loop', 'hylaa/core.py')],
  'trajectories whose guards or invariants are decided within 1e-7 are not judged',
  'random automata; drawn trajectories against an independent simulator, and against the reachable sets',
  ['plotted simulation lines'])

P('C17', 'Models mean what was written and malformed models are refused',
  'Equivalent ways of writing down a model (lists, integer or float arrays, dense or sparse matrices, shared matrices, '
  'different constraint order) give the same analysis; the arguments given by the user are neither modified nor kept as '
  'aliases. Malformed descriptions (wrong shapes, missing parts, unknown settings) are refused before the analysis starts, '
  'and point queries on invariants, guards and constraints agree with their definition.',
  ['inputs', 'configurations'],
  'all models, all ways to spell them and all mistakes of the listed kinds',
  'tests spell each model in one way and never contain mistakes',
  ['hylaa/hybrid_automaton.py', 'hylaa/lputil.py', 'hylaa/settings.py', 'hylaa/util.py'],
  [('model construction and validation', 'hylaa/hybrid_automaton.py')],
  '34 kinds of mistakes; refusal means any exception before the first analysis step',
  'random automata in several representations (differential test), mutated models, random point queries',
  ['visited sets', 'exceptions'])

P('C22', 'The stored and drawn plot data is what the analysis computed',
  'When plot data is stored, every subplot contains exactly one object for every state set that the analysis visited, with '
  'its mode, step and the polygon of its projection; drawn images contain the stored objects and nothing else; queries by '
  'point return an object around that point. With deaggregation, the stored polygons still cover all reachable sets.',
  ['programs', 'configurations', 'histories'],
  'all hybrid automata, aggregation settings and subplot descriptions',
  'tests store one plot and look at a single polygon',
  ['hylaa/plotutil.py', 'hylaa/result.py', 'hylaa/core.py', 'hylaa/deaggregation.py'],
  [('collection of plotted sets', 'hylaa/plotutil.py, hylaa/result.py')],
  'polygons with the accuracy stated for C16; up to three subplots',
  'random automata and plot settings; stored and drawn objects matched one to one with the visited sets of a second run',
  ['result.plot_data', 'matplotlib objects'])

P('C23', 'Replays of traces integrate and judge them correctly',
  'The trace checker integrates piecewise constant inputs exactly as recorded, up to the accuracy of the integrator: every '
  'sample, its time and the final errors are right. Replaying a counterexample accepts every trace whose segments and jumps '
  'are consistent and rejects traces that are broken at any place.',
  ['inputs', 'histories'],
  'all dynamics, input sequences and multi-mode traces',
  'the tests replay one trace',
  ['hylaa/check_trace.py'],
  [('concrete replay', 'hylaa/check_trace.py')],
  '1e-4 relative accuracy; up to 4 dimensions, 3 inputs, 9 steps',
  'random dynamics, inputs and traces (correct or mutated) against matrix exponentials', ['samples', 'verdict of the replay'])

P('C13', 'Each step of an aggregated analysis is exact for the sets it works on',
  'Whatever aggregation strategy is used, also a user-defined one that merges arbitrary waiting states, every analysis step '
  'does what it announces: it removes exactly the merged states from the waiting list, the merged set contains all of them '
  'and is tight in its template (exact for convex hulls), invariants cut it exactly, one time step applies the dynamics '
  'exactly, states are dropped only when they are empty or out of time, and every enabled jump adds exactly its successor.',
  ['programs', 'configurations', 'histories'],
  'all hybrid automata, aggregation strategies, waiting-list orders and settings, at every step of the analysis',
  'the tests compare final verdicts or a few bounds of one run per strategy; an intermediate set that is too small or too '
  'large is not noticed',
  ['hylaa/core.py', 'hylaa/aggdag.py', 'hylaa/aggregate.py', 'hylaa/aggstrat.py', 'hylaa/stateset.py'],
  [('aggregation of waiting states', 'hylaa/aggdag.py, hylaa/aggregate.py'), ('one analysis step', 'hylaa/core.py')],
  'up to 80 analysis steps per case; conditions within 1e-6 of touching may go either way',
  'random automata and strategies; each analysis step against sets derived independently from the snapshot before it',
  ['waiting list and current state after each step'])

P('C18', 'An analysis depends on its model and settings only',
  'Running an analysis gives the same visited sets, verdict and printed result whatever happened before in the process: '
  'earlier analyses of the same automaton object with other settings, interrupted analyses, simulations, other models, reused '
  'settings or Core objects. Print level and plot options only change what is printed and drawn, and nothing is printed at level 0.',
  ['histories', 'configurations'],
  'all sequences of analyses and simulations over shared automata and settings, and all output options',
  'every test builds a new automaton and runs it once',
  ['hylaa/core.py', 'hylaa/hybrid_automaton.py', 'hylaa/time_elapse.py', 'hylaa/timerutil.py', 'hylaa/plotutil.py'],
  [('analysis setup', 'hylaa/core.py'), ('guards changed by an analysis', 'hylaa/hybrid_automaton.py')],
  'differences that disappear when guards and invariants move by 1e-3 are attributed to rounding; up to three earlier runs',
  'random automata and random histories; differential test of a fresh run against a run after the history and a run with '
  'other output settings', ['visited sets', 'result flags', 'printed text'])

P('C19', 'However an analysis is displayed, it is the same analysis',
  'Without a plot, with an image, a live or interactive plot (whatever is clicked) or a video, and whatever the stride, pauses '
  'and extra frames, the analysis visits the same sets, reaches the same verdict and stores the same plot data; the figure '
  'shows exactly what is stored, within the axis limits. A plot that is closed early never leads to a claim of safety.',
  ['configurations', 'histories', 'programs'],
  'all hybrid automata, plot settings and sequences of clicks, and closing the plot after any number of frames',
  'tests never run a live, interactive or video plot',
  ['hylaa/plotutil.py', 'hylaa/core.py', 'hylaa/deaggregation.py', 'hylaa/result.py', 'hylaa/stateset.py'],
  [('animation of an analysis', 'hylaa/plotutil.py'), ('final verdict', 'hylaa/core.py')],
  'frames are drawn into matplotlib\'s Agg canvas; pixels are not looked at; at most 150 analysis steps',
  'random automata and display settings; differential test against the run without display, a driver draws the frames of the '
  'animation and sends mouse events', ['result', 'visited sets', 'matplotlib objects', 'printed text'])

P('C20', 'Time is accounted for exactly',
  'With step size h and time bound T an analysis, and likewise a simulation, performs exactly the smallest number of steps whose '
  'duration is at least T - also for decimal numbers that have no exact binary form - no matter through how many modes the path '
  'leads and with which settings. Every number of steps and every time that is reported (printed, in the result, in counterexample '
  'segments, in plots over time) is the one at which the sets or states are really reached.',
  ['inputs', 'programs', 'configurations'],
  'all step sizes and time bounds, paths through several modes, and all analysis settings',
  'tests use a handful of step sizes and bounds, mostly ones whose quotient is exact',
  ['hylaa/settings.py', 'hylaa/core.py', 'hylaa/stateset.py', 'hylaa/aggdag.py', 'hylaa/plotutil.py'],
  [('number of steps', 'hylaa/settings.py'), ('time bound across modes', 'hylaa/core.py'),
   ('plots over time', 'hylaa/plotutil.py, hylaa/stateset.py')],
  'step sizes from 0.001 to 2 with up to 40 steps; the model is a clock whose guards are half a step away from being touched',
  'random step sizes, bounds and chains of modes against exact rational arithmetic on the decimal numbers',
  ['visited sets', 'result', 'printed text', 'stored plot data', 'simulated lines'])

P('C21', 'The analyses of a whole and of its parts agree',
  'Without aggregation, an analysis with a smaller time bound visits exactly what the longer one visits up to that time; the parts '
  'of an initial set together give the sets of the whole; smaller initial sets, inputs, guards or invariants and fewer transitions '
  'give subsets and no new errors; and an analysis continued from a visited set visits what the whole analysis visits later. '
  'Aggregated sets cover the exact ones, and the verdicts agree (exactly, with deaggregation).',
  ['programs', 'configurations', 'inputs'],
  'all hybrid automata with affine dynamics, all their parts (time bounds, initial sets, stronger conditions, visited sets), all settings',
  'tests never compare two analyses of related models',
  ['hylaa/core.py', 'hylaa/aggdag.py', 'hylaa/stateset.py', 'hylaa/lputil.py', 'hylaa/hybrid_automaton.py', 'hylaa/time_elapse_expm.py'],
  [('analysis loop', 'hylaa/core.py:do_step'), ('state set operations', 'hylaa/stateset.py, hylaa/lputil.py'),
   ('waiting list', 'hylaa/aggdag.py')],
  'up to 8 variables or 60 steps (needs no reference model, hence larger than C01-C05); models whose result changes when conditions '
  'move by 1e-6 or 1e-5 are not compared',
  'metamorphic test: random automata, their parts and their continuations; all visited sets are compared by support functions',
  ['visited sets', 'result'])

P('C24', 'Results do not depend on how a model is written down',
  'The same model written differently gives the same analysis: the same verdict and counterexample, and the same state sets in '
  'the same modes at the same steps, expressed in the other coordinates. Written differently means other variable orders, units, '
  'origins and time units, additional independent variables, equivalent forms of inputs, initial sets, resets and conditions '
  '(scaled, repeated, reordered or relaxed copies), other mode names (in the same alphabetical order) and other creation orders.',
  ['programs', 'configurations', 'inputs'],
  'all pairs of equivalent models, with every aggregation strategy whose template is meant to be independent of the change',
  'tests never analyse two equivalent models',
  ['hylaa/core.py', 'hylaa/aggdag.py', 'hylaa/aggregate.py', 'hylaa/aggstrat.py', 'hylaa/lputil.py', 'hylaa/hybrid_automaton.py',
   'hylaa/stateset.py', 'hylaa/time_elapse_expm.py'],
  [('state set operations', 'hylaa/stateset.py, hylaa/lputil.py'), ('aggregation', 'hylaa/aggregate.py, hylaa/aggstrat.py'),
   ('model construction', 'hylaa/hybrid_automaton.py')],
  'up to 8 variables or 40 steps (needs no reference model); models whose result changes when conditions move by 1e-6 or 1e-5 are '
  'not compared; Arnoldi templates only under changes that keep the coordinates',
  'metamorphic test: random automata and random combinations of 12 equivalence transformations; all visited sets are compared',
  ['visited sets', 'result', 'counterexample'])

def main():
    'write both files'

    implemented = [p for p in PROPS if os.path.exists(os.path.join(VERIF, 'pbt', 'props', p['id'].lower() + '.py'))]

    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in implemented:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')

    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [{'property': p['id'], 'quick_cmd': f'./check.py {p["id"]} --tier quick',
                    'thorough_cmd': f'./check.py {p["id"]} --tier thorough', 'technique': p['tech'],
                    'level': 'exploration', 'level_note': p['note'], 'evidence_file': f'evidence/{p["id"]}.json'}
                   for p in implemented],
        'not_applicable': [],
        'notes': 'Every check is ./check.py <id>; the seed comes from VERIF_SEED, the tier from VERIF_TIER or --tier. '
                 'Replay a failure with ./check.py <id> --replay <file>.'}

    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')

if __name__ == '__main__':
    main()
