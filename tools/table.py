"The properties and how each is decided; mk.py turns this into properties.jsonl and MANIFEST.json."
PROPS = []
NOT_APPLICABLE = {
    'S18': 'parsing and printing are pure functions of one text or one term: there is no schedule, clock, I/O, fault or second party for the result to depend on, so '
           'simulation would be plain input sampling',
    'S19': 'arithmetic, comparison and the term algebra are pure functions of their arguments; the part that does depend on interleaving and interruption (bindings made and '
           'undone while streams are suspended, delayed builtins woken in any order) is decided by S05, S09, S14 and S17',
}

def P(id, title, statement, over, q, why, files, mechanism, state=(), observe=(), technique='', level='exploration', note=''):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': q},
        'why_tests_cant': why,
        'anchors': {'files': list(files),
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'observe_at': list(observe), 'hook_needed': None},
        'technique': technique, 'level': level, 'level_note': note})

TRUST = ('Seeded sampling, not proof. Trusts: the reference evaluator in sim/lang.py (own matcher, own semirings), the '
         'simulator (virtual clock/timer, interrupt delivery at the points where CPython polls for signals), CPython and '
         'third-party packages. ')

P('S01', 'The answer of a solve does not depend on the order of pending updates',
  'For every program that has a finite solution, solving it yields exactly the program\'s solution: each item\'s value '
  'accumulates each of its derivations once, under every order in which pending updates are processed, every priority function, '
  'every order of the rules, and either engine. An undisturbed solve does not report that it was interrupted.',
  ['programs', 'inputs', 'schedules', 'configurations'],
  'all programs with finite solutions over any commutative semiring, all data, all agenda orders (FIFO, LIFO, priority, bucket, '
  'arbitrary), both engines, all rule orders and set iteration orders',
  'Tests solve a few dozen programs with the default priority order; an update-order-dependent miscount (self-joins, repeated '
  'subgoals, overlapping nonground items, lazily built indexes) shows only under particular pop orders.',
  ['dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/execute/base.py', 'dyna/program.py'],
  [('old/new value bookkeeping for self-joins', 'dyna/execute/solver.py Solver._forward_chaining'),
   ('splitting overlapping subgoals', 'dyna/program.py Program.linearize'),
   ('lazily built lookup indexes kept up to date', 'dyna/execute/solver.py Chart'),
   ('pending-change accumulation', 'Solver.update')],
  [('chart', 'item -> value', 'dyna/execute/solver.py Chart.chart'), ('change/agenda', 'pending updates', 'Solver.change, Solver.agenda')],
  ['Solver.sol()', 'Solver.user_query()'],
  'scheduler-chosen agenda orders/priorities/set orders, compared with a reference fixpoint (free-semiring derivation counts)',
  'exploration', TRUST + 'Programs are drawn from six generator families; free-semiring weights make a lost or repeated derivation visible.')

P('S02', 'Data may arrive in any batches, interleaved with solving and querying',
  'A solver that receives its data in several batches or single updates, with solves, queries and retractions in between, always answers '
  'as if a fresh solver had been given exactly the data that has arrived so far.',
  ['histories', 'programs', 'inputs', 'schedules'],
  'all histories of load/update/retract/solve/query operations on one solver, all programs with finite solutions, all agenda orders',
  'Tests load data once and solve once; incremental loading is touched by a handful of fixed examples.',
  ['dyna/execute/base.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py'],
  [('delta propagation on load', 'BaseSolver.load_data, Solver.update'), ('rules initialised once, late rules against the chart', 'BaseSolver.init_rule'),
   ('query first completes pending work', 'BaseSolver.user_query')],
  [('initialized', 'rules already grounded out', 'BaseSolver.initialized')], ['Solver.sol()', 'Solver.user_query()'],
  'generated client histories on one long-lived solver, each step compared with the reference solution of the data so far',
  'exploration', TRUST)

P('S03', 'A cancelled solve is flagged, sound, does not restart, and damages nothing',
  'When Ctrl-C or an expired time budget ends a solve, the solver is marked as interrupted and its exception/return behaviour follows the '
  'caller\'s options; whatever it has computed is a sound under-approximation of the solution. Later queries answer from that partial '
  'result without restarting, an explicit resume or more data never makes it unsound, and the program, its data and fresh solvers are unharmed.',
  ['crash_points', 'programs', 'schedules', 'inputs'],
  'every instant at which a signal can be delivered during load, solve or query, for all programs, budgets, engines and agenda orders',
  'No test interrupts a solve at a chosen instant; the few budget tests rely on wall-clock time.',
  ['dyna/execute/base.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py'],
  [('interrupt handling', 'BaseSolver.__call__'), ('chart/index write order', 'Chart.__setitem__'), ('binding undo on unwinding', 'dyna/term.py unify')],
  [('interrupted', 'solve was cut short', 'BaseSolver.interrupted')], ['Solver.interrupted', 'Solver.sol()', 'Solver.user_query()'],
  'Ctrl-C and budget expiry injected at scheduler-chosen signal-delivery points, then resume/query/fresh-solve; natural-order soundness oracle',
  'fault_enumeration', TRUST + 'Soundness is judged in the natural order of the semiring over nonnegative data.')

P('S04', 'A time budget bounds the call it was given to, and nothing but that call',
  'A budgeted call ends within its budget, is never cut short by a timer that is not its own or its caller\'s, and reports when it did not finish. '
  'However the call ends (result, timeout, Ctrl-C, error), none of its timers survives it, and a timer that the caller had running keeps its '
  'remaining time and its handler.',
  ['histories', 'fault_sequences', 'programs', 'configurations'],
  'all sequences of budgeted and unbudgeted calls (solve, query, goal-directed solve, race), nested in an outer timer or not, on converging, '
  'diverging and failing programs, cancelled at any instant',
  'Tests use one wall-clock budget per test; stale or clobbered timers only show in the next call or after an unlucky cancellation.',
  ['dyna/util/budget.py', 'dyna/execute/base.py', 'dyna/programs.py', 'dyna/search/search.py'],
  [('interval timer set-up and restoration', 'dyna/util/budget.py timelimit'), ('budget plumbing', 'BaseSolver.__call__, Program.__call__, ProgramCollection.race')],
  [('interval timer and SIGALRM handler', 'process-wide timer state', 'dyna/util/budget.py')], ['signal.getitimer', 'elapsed (virtual) time', 'Solver.interrupted'],
  'virtual clock and interval timer; histories of budgeted calls with Ctrl-C, expiry, errors and enclosing watchdogs at chosen instants',
  'fault_enumeration', TRUST + 'Overrun tolerance 0.4 virtual seconds (400 events).')

P('S05', 'Lazy query streams are independent of one another',
  'Any number of lazy query streams over the same rules and charts (rule lookups, joins, guards, chart queries) may be open at once, in any '
  'interleaving. Each yields exactly its own complete set of answers, with the right bindings while it is suspended, regardless of what the '
  'others do; closing, dropping, cancelling or killing one with an exception undoes its bindings, and afterwards the rules, charts and queries are '
  'as they were.',
  ['schedules', 'programs', 'inputs', 'fault_sequences'],
  'all interleavings of any number of streams over any rules/charts, abandoned, closed, interrupted or re-opened at any step',
  'Tests exhaust one stream at a time; a binding leaked by an abandoned generator or a renamed-apart rule copy shared by two open streams needs '
  'a particular interleaving.',
  ['dyna/term.py', 'dyna/program.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py'],
  [('bind/undo in unification', 'dyna/term.py unify, covers'), ('pool of renamed-apart rule copies', 'dyna/term.py FreshCache'),
   ('joins, guards, query streams', 'dyna/term.py Stream, Join; dyna/program.py Program.lookup, __getitem__')],
  [('Var.value', 'binding trail', 'dyna/term.py Var'), ('Program._fresh', 'rule copy pool', 'dyna/program.py')],
  ['answers of Program[...]', 'Solver.user_query()', 'Var bindings'],
  'scheduler-interleaved stream clients with close/drop/exception/Ctrl-C faults, compared with an independent two-way unifier',
  'fault_enumeration', TRUST)

P('S06', 'A program is a mutable bag of rules and every view of it is current',
  'However a program is built up and changed (append, update, remove by position, store a query result, add, subtract, copy, sort, fold constants), '
  'it denotes exactly the bag of rules put in and not removed, with constants for one item accumulated and zero rules dropped. Every derived view '
  '(lookup by pattern, equality, hash, symbols, degrees, analyses) reflects the rules it holds now, also when an earlier read was cancelled or '
  'abandoned, and programs derived from one another do not affect each other.',
  ['histories', 'crash_points', 'inputs'],
  'all histories of mutations and reads on a pool of programs derived from one another, reads cancelled at any instant',
  'Tests build a program and read it once; stale caches and shifted positions need particular mutate/read/mutate sequences.',
  ['dyna/program.py', 'dyna/rule.py', 'dyna/term.py'],
  [('accumulation buckets', 'Program.update, _update_bucket, _make_buckets'), ('position index', 'Program.f2r, pop'),
   ('cache invalidation', 'Program._invalidate_caches'), ('constant folding', 'ConstantFolded')],
  [('_cache_f2r, _buckets', 'position indexes', 'Program'), ('_caches and cached properties', 'derived views', 'Program')],
  ['Program.lookup()', 'Program ==, hash()', 'Program.rules', 'syms, degree(s), coarse_nodes()'],
  'random histories over a pool of programs vs a bag-of-rules model and a program rebuilt from scratch; reads cancelled/abandoned at chosen events',
  'fault_enumeration', TRUST)

P('S07', 'The work queues return the best item, exactly once, for every history',
  'For every history of inserting, re-prioritising, deleting, looking up and draining, the bucket queue yields each item currently in it exactly once, '
  'always one of minimal current priority and with its latest priority, also when the minimum moves down again after draining has begun and when several '
  'draining loops are interleaved. The search agenda always pops an item of least cost and holds each item once.',
  ['histories', 'schedules'],
  'all operation histories by any number of interleaved clients over any items and priorities',
  'The solver only ever exercises a queue as one draining loop; stale minima and ghosts need particular interleavings of insert, delete and drain.',
  ['dyna/util/bucket_queue.py', 'dyna/search/search.py'],
  [('bucket lists and cursor', 'BucketQueue'), ('best-first frontier', 'dyna.search.search.Agenda')],
  [('buckets, priorities, cursor', 'queue contents', 'BucketQueue'), ('heap and version table', 'queue contents', 'search Agenda')],
  ['BucketQueue get/set/del/pop/iteration/len', 'search Agenda insert/pop'],
  'scheduler-interleaved clients on one queue vs a dictionary model, every answer compared, drained at the end',
  'exploration', TRUST)
P('S08', 'Goal-directed solving returns the full answer to the query, or says it was cut',
  'Solving a program for given outputs component by component (with or without the demand transformation) gives every output item its exact value under '
  'the full program, whatever the work-list order, rule order or set iteration order. If Ctrl-C or the time budget cuts a pass short, the result is flagged '
  'as cut, or equals the full answer; a partial result never claims more than the true values, and the program and its data are unchanged.',
  ['schedules', 'crash_points', 'fault_sequences', 'inputs'],
  'all range-restricted programs, data and output queries; all work-list orders; all points at which either pass is cut short',
  'The component-by-component schedule depends on item names, set order and time; tests use a few programs and never cut a pass.',
  ['dyna/program.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/analyze/coarse_graph.py', 'dyna/util/graphs.py'],
  [('demand transformation', 'Program.magic_templates'), ('two-pass component solver', 'Program.scc_solver'), ('priority of an item', 'SCCs of the dependency graph')],
  [('charts of pass 1 and pass 2', 'values computed so far', 'Program.scc_solver'), ('bucket queue', 'pending items', 'Program.scc_solver')],
  ['user_query() on the returned solver', 'interrupted / pass1_interrupted flags', 'sol()'],
  'seeded set/rule orders; Ctrl-C and virtual-clock budget expiry at chosen events of either pass; vs an independent reference evaluator',
  'fault_enumeration', TRUST)
P('S09', 'Every derivation enumerator yields each proof exactly once',
  'The naive, seminaive, work-list driven and top-down enumerators each yield every proof of the program (up to the requested height, where given), each '
  'exactly once and a part never after its whole, whatever pending proof is extended next, however enumerations by different clients are interleaved, '
  'abandoned or cancelled. Each is a well-formed proof by the rules it names, its value, size and height are those of the tree, and where there are '
  'finitely many their values add up to the solved value.',
  ['schedules', 'crash_points', 'inputs'],
  'all range-restricted programs; all orders of extending proofs; all interleavings and cancellations of concurrent enumerations',
  'Tests enumerate a handful of programs in one order by one client, and compare enumerators with each other on those only.',
  ['dyna/derivations.py', 'dyna/program.py'],
  [('bottom-up enumerators', 'derivations.naive, seminaive, agenda'), ('top-down enumerator', 'derivations.sld'), ('proof object', 'Derivation')],
  [('old/new/change charts of proofs', 'proofs found so far', 'derivations.agenda'), ('variable bindings of suspended searches', 'stream state', 'derivations.sld')],
  ['Program.derivations, derivations_seminaive, derivations_agenda, sld', 'Derivation.value/size/height'],
  'scheduler-chosen pop order, interleaved clients, close/throw/Ctrl-C at chosen events; vs an independent proof enumerator and proof checker',
  'fault_enumeration', TRUST)
P('S10', 'What the analyses conclude is sound and independent of the order of discovery',
  'The dependency graph, components, cyclicity and expansiveness tests, input-dependent split, simple types and usefulness of a program over-approximate what '
  'it really derives: no derived item, dependency or needed item is missed, and solving it component by component or half by half gives the same values. '
  'Collections of patterns keep their invariant (distinct; most general; disjoint and covering) in every order of insertion. An analysis that was cancelled '
  'leaves no trace: asked again it answers the same, and neither the program nor the graph asked about is changed.',
  ['schedules', 'crash_points', 'inputs'],
  'all programs and graphs; all insertion orders and set iteration orders; all points at which an analysis is cancelled',
  'Tests analyse a few programs whose nodes are met in one order, and compare with the printed result of that order.',
  ['dyna/term.py', 'dyna/analyze/coarse_graph.py', 'dyna/util/graphs.py', 'dyna/analyze/types.py', 'dyna/analyze/rewrites.py', 'dyna/propagate.py', 'dyna/program.py'],
  [('pattern collections', 'DisjointEstimate, MostGeneralSet, NoDupsSet'), ('graph algorithms', 'util.graphs'), ('abstract forward chaining', 'TypeAnalyzer'), ('dependency analysis', 'CoarseGraph')],
  [('set of patterns', 'partition so far', 'DisjointEstimate.xs'), ('simple types found so far', 'chart', 'TypeAnalyzer.chart')],
  ['add/find/roots', 'condensation/closure/reachability', 'type_analysis, usefulness_analysis, _coarse_graph()'],
  'scheduler-chosen insertion and set orders, Ctrl-C at chosen events then asking again; vs reference unification, graph closure and ground evaluation',
  'fault_enumeration', TRUST)

P('S12', 'A race between programs returns the complete result of the fastest one',
  'However slow, stuck or failing its candidates are, whatever the clock does (including being set back) and wherever Ctrl-C or an enclosing time limit strikes, a race '
  'between programs gives every candidate one attempt per round with the budget of the round, stops after the first round in which some candidate finished, and '
  'returns the candidate that took the least time, that time, and the complete result of that very attempt - never one cut short by the race. An enclosing time '
  'limit ends the race (and any solve inside it) on time, is not swallowed by code that handles its own budget, and keeps running afterwards; Ctrl-C and errors of '
  'a candidate reach the caller; no timer is left behind.',
  ['schedules', 'fault_sequences', 'crash_points', 'programs'],
  'all collections of programs; all stalls, clock steps, expiry and Ctrl-C instants; all nestings of two limits',
  'Tests race a few programs on an idle machine (and are skipped under CI because they depend on the wall clock).',
  ['dyna/programs.py', 'dyna/util/budget.py', 'dyna/execute/base.py'],
  [('race', 'ProgramCollection.race'), ('time limits', 'timelimit, pending'), ('solver budgets', 'BasicSolver.__call__')],
  [('interval timer and handler', 'process state', 'timelimit'), ('best so far', 'time, program, result', 'race')],
  ['ProgramCollection.race(run, tmin, growth_factor)', 'timelimit(...)', 'solver(budget=, throw=)'],
  'scheduler decides stalls, wall clock steps, Ctrl-C and limit expiry on virtual timers; every attempt is recorded and the outcome checked against the record',
  'fault_enumeration', TRUST)

P('S13', 'The shared cache of rendered pictures never serves a torn or foreign one',
  'Whatever sessions render pictures into the shared cache at the same time, and wherever they crash, are cancelled, run out of disk or have their renderer '
  'missing or failing, a call either fails or returns the complete picture of exactly the source it was given; a picture found in the cache is complete and '
  'belongs to its name; and afterwards a call without faults succeeds for every source. A failed call is reported, not returned as an empty picture.',
  ['schedules', 'crash_points', 'fault_sequences', 'histories'],
  'all interleavings of any number of sessions on one cache; all crash points and failing file or subprocess operations',
  'The tests render at most one picture, in one session, with no failure; the cache outlives the session that filled it.',
  ['dyna/util/util.py', 'dyna/util/graphs.py'],
  [('content-addressed cache', 'util.latex, util.graphviz'), ('subprocess runner', 'util.run_cmd')],
  [('files in the cache directory', 'rendered pictures', 'util.latex, util.graphviz')],
  ['latex(...).to_svg/to_png', 'graphviz(...).to_svg/to_png', 'Hypergraph.graphviz'],
  'simulated sessions interleaved at each file, rename and subprocess operation; crashes, torn writes, full disk, failing renderers; vs the source-to-picture map',
  'fault_enumeration', TRUST)

P('S14', 'Every history of program transformations preserves the meaning of the program',
  'Applying any sequence of the transformations (unfold, safe folds, definition, hook, rule elimination, linearisation, binarisation, constant folding, builtin '
  'and unification evaluation, pruning, abbreviation, speculation, left-corner, undo) to any version of a program gives a program that assigns the same '
  'values to the items the transformation promises to keep, whatever version it branches off from. It never changes the version it starts from, and one that '
  'was cancelled half-way leaves no trace: repeated, it behaves as if it had not been.',
  ['histories', 'crash_points', 'programs'],
  'all histories of transformations over all range-restricted programs; all points at which a transformation is cancelled',
  'Tests compose a few transformations on textbook programs; safety depends on the whole history and on coincidences between rules.',
  ['dyna/program.py', 'dyna/transform/fold.py', 'dyna/transform/unfold.py', 'dyna/transform/measure.py', 'dyna/transform/rule_elimination.py',
   'dyna/transform/slash.py', 'dyna/transform/lct.py', 'dyna/analyze/abbreviate.py', 'dyna/analyze/dead.py'],
  [('transformations', 'Program.unfold, elim, define, hook, ...'), ('fold safety', 'safe_by_smt, safe_by_unit, safe_by_rev'), ('history of versions', 'TransformedProgram.parent, undo')],
  [('versions and their parents', 'transformation history', 'TransformedProgram'), ('rule measures', 'provenance', 'Measure')],
  ['Program(data).sol() of each version', 'Program.plaintext()'],
  'scheduler-chosen branching histories, Ctrl-C at chosen events then repeating; every version solved and compared with a reference evaluator of the root',
  'fault_enumeration', TRUST)

P('S11', 'The search for a better program stays within the meaning and reports its best',
  'Whatever order the search explores rewritings in, wherever it is stopped (step or evaluation budget, Ctrl-C at any point, resumed or not) and whatever its costs '
  'and coin flips are, every program that the agenda-based search or the beam search visits, and the one it answers, assigns the same values to the declared outputs '
  'as the program it was given, which is never changed. The answer is the cheapest program visited so far and never gets worse; a Ctrl-C ends the search normally '
  '(or is passed on when asked). The beam search evaluates no more programs than allowed, logs each of them once and in order with elapsed times that never decrease, '
  'and takes a checkpoint, on a complete log, exactly when a minute has passed since the last one.',
  ['schedules', 'crash_points', 'programs', 'histories'],
  'all programs; all orders of exploration, costs, coin flips, stopping and resumption points and clock advances',
  'Tests run a handful of searches to completion on textbook programs and check the cost of the answer, not the meaning of what was visited.',
  ['dyna/search/search.py', 'dyna/search/old.py', 'dyna/programs.py', 'dyna/transform/fold.py', 'dyna/transform/measure.py', 'dyna/transform/rule_elimination.py'],
  [('agenda search', 'AgendaBasedSearch.run_agenda'), ('beam search', 'BeamSearch.run, Search.objective'), ('actions', 'Graph1.actions, Graph2.actions, MacroFold')],
  [('agenda and fifo', 'programs to expand', 'AgendaBasedSearch.agenda, _fifo'), ('best so far', 'answer', '_best, _best_cost'), ('log', 'evaluations', 'Search.log, programs')],
  ['programs yielded by run_agenda', 'optimize_plans()', 'BeamSearch.best, log, programs, top()', 'checkpoint callback'],
  'scheduler decides priorities, costs, coin flips, set orders, clock jumps and Ctrl-C points; every visited program is solved and compared with a reference evaluator',
  'fault_enumeration', TRUST)

P('S16', 'Comparisons of programs are exact, whenever and however they are asked',
  'Two programs compare equal exactly when one is the other with its variables renamed and its subgoals and rules reordered; equal programs have equal hashes; an '
  'alignment is a largest matching of equal rules and accounts for every rule of both. The distance of two programs (and assert_equal, which is decided by it) is the '
  'largest difference of two values once constants are multiplied out and like rules added up, infinite if the rules differ otherwise, and zero for equal values, infinite '
  'ones included; constant folding does exactly that. The answers depend on the rules alone: not on the history of appends, assignments, removals, copies and renamings '
  'that made the programs, on queries still open over them, on hash seeds, or on an edit or a question that was cancelled before. Asking changes nothing, and after '
  'every edit rule lookup finds exactly the rules that match.',
  ['histories', 'inputs', 'schedules', 'crash_points'],
  'all pairs of programs and histories of edits, all sets of suspended queries, all instants of Ctrl-C, all hash seeds and set orders',
  'Tests compare a few dozen fixed pairs, mostly to see them pass; signatures, hashes, buckets and indexes are cached, so what counts is what happened before.',
  ['dyna/program.py', 'dyna/rule.py', 'dyna/term.py', 'dyna/util/util.py'],
  [('rule comparison', 'dyna/rule.py Rule.same, signature'), ('program comparison', 'Program.__eq__, metric, assert_equal, align'), ('folding', 'ConstantFolded'),
   ('edits', 'Program.append, update, pop, __setitem__, __add__, __sub__')],
  [('cached signature and hash', 'shape of the rules', 'Program.signature, _hash_cache'), ('buckets', 'where the values of an item accumulate', 'Program._buckets'),
   ('rule index', 'rules by head name', 'Program._cache_f2r')],
  ['p == q', 'p.metric(q)', 'p.assert_equal(q)', 'p.align(q)', 'hash(p)', 'p.constant_folding()', 'p.lookup(x)'],
  'histories of edits and questions with suspended streams, scheduler-chosen set orders, and Ctrl-C points; compared with a reference that tries every renaming and reordering',
  'fault_enumeration', TRUST)

P('S17', 'Constraint propagation is order-independent, sound, complete and always stops',
  'Propagating constraints under any theory of implications, disjointness, orders and functional dependencies gives, whatever order the pending constraints are '
  'taken in, exactly the constraints and bindings that follow, and reports a contradiction exactly when the theory derives one; it always stops, and a cancelled '
  'propagation leaves no trace in the next one. The comparisons of simple types built on it agree with every model of the theory: a type claimed to cover another '
  'contains it, types claimed disjoint share nothing, an intersection is exact, a generalization contains both, merging or deduplicating loses nothing, and a type '
  'covers its own instances.',
  ['schedules', 'inputs', 'crash_points'],
  'all theories and constraint sets; all orders of the agenda and of set iteration; all points of cancellation',
  'The agenda is an unordered set and the chart is rescanned while it grows: tests see one order per process on a dozen inputs.',
  ['dyna/propagate.py', 'dyna/analyze/rewrites.py', 'dyna/term.py', 'dyna/builtin.py'],
  [('propagation', 'ConstraintPropagation.__call__'), ('builtin checks', 'ConstraintPropagation.check'), ('type algebra', 'Rewrites.covers, intersect, anti_unifier, dedup, disjoin')],
  [('constraint chart', 'known constraints', 'ConstraintPropagation.chart'), ('agenda', 'pending constraints', 'ConstraintPropagation.agenda'), ('unifier', 'equalities so far', 'ConstraintPropagation.bindings')],
  ['ConstraintPropagation(rules)(constraints)', 'Rewrites.covers(r, s)', 'Rewrites.intersect(r, s)', 'Rewrites.disjoin(p)'],
  'scheduler-chosen agenda pops and set orders, Ctrl-C then asking again; compared with an independent chase and with random ground models of the theory',
  'fault_enumeration', TRUST)

P('S15', 'All evaluators agree: whole, truncated, continued, or side by side',
  'One step, naive iteration, seminaive iteration, the agenda method, the Newton method and the linear solver give every item the value that the program gives '
  'it (infinite values included), in every semiring, whatever pending change is taken next and in whatever order rules and sets are visited. Cut off after some rounds, naive and seminaive '
  'iteration give exactly the derivations of that height, and the others give at least what their rounds promise and never more than the true values; continued, '
  'they reach the full answer. The groundings of the rules are each instance once, and the instantiated program has the same solution. Evaluations of one program '
  'may be open side by side, abandoned or cancelled, without affecting one another or the program.',
  ['programs', 'schedules', 'crash_points', 'configurations'],
  'all programs with finite solutions (linear ones for the linear solver), all commutative semirings, all orders of pending changes, all numbers of rounds, all instants of Ctrl-C',
  'Tests compare the methods on about twenty fixed programs, with the first-in-first-out order and in two semirings, and never interrupt or interleave them.',
  ['dyna/program.py', 'dyna/execute/linear.py', 'dyna/term.py'],
  [('one step of the consequence operator', 'dyna/program.py Program.step, __setitem__, __getitem__'), ('old/new bookkeeping', 'Program.agenda, Program.seminaive_update'),
   ('linearisation', 'Program._newton'), ('linear system over the estimated support', 'dyna/execute/linear.py kleene_linsolve'),
   ('instances', 'Program.groundings, Program.instantiate')],
  [('chart', 'current valuation', 'Program.fc/seminaive/agenda'), ('change', 'pending changes', 'Program.agenda')],
  ['Program.fc()', 'Program.seminaive()', 'Program.agenda()', 'Program.newton()', 'Program.solve_linear()', 'Program.groundings()'],
  'scheduler-chosen pending change, rule and set order, interleaving, truncation and Ctrl-C points, compared with iterates of a reference consequence operator',
  'fault_enumeration', TRUST)

P('S18', 'Printing a program and parsing it again gives the same program',
  'For every program and term, the printed text parses, and parses to a program with the same rules up to the names of variables; equal texts parse to equal programs.',
  ['inputs'], 'all programs, all operators, quoting and nesting', 'Tests parse a few dozen fixed texts.',
  ['dyna/syntax.py', 'dyna/pretty.py'], [('precedence and quoting', 'dyna/pretty.py pp, dyna/syntax.py')], observe=['Program.plaintext()', 'Program()'],
  technique='none', note='')

P('S19', 'Builtins and the term algebra compute what they name',
  'Arithmetic and comparison builtins agree with arithmetic; unification yields a most general unifier or none; matching, covering, canonical forms and renaming agree with it.',
  ['inputs'], 'all terms and numbers', 'Tests check fixed examples.',
  ['dyna/builtin.py', 'dyna/term.py'], [('evaluation modes', 'dyna/builtin.py'), ('unification with undo', 'dyna/term.py unify')], observe=['unify()', 'canonicalize()'],
  technique='none', note='')
