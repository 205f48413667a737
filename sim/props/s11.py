"""S11: whatever the search for a better program does, it stays among programs that mean the same."""
import lang, gen, sched, faults
from common import *
from core import Violation, Discard
from interrupt import EVENTS
from env import CLOCK, SimDeadlock
from contextlib import nullcontext
import contextlib, io

WALL = {'quick': 50, 'thorough': 700}
BATCHES = {'quick': (16, 400), 'thorough': (64, 4000)}
LISTS = ('F', 'R', 'b', 'O', 'T', 'runs', 'dup')
PROTECT = ('h', 'kind', 'op')
LEVEL = 'fault_enumeration'
CHUNK = 25
LIMIT = 12_000_000
RULE = ('a run = one search (agenda-based or beam) over the rewritings of one program: greedy/exploring decisions, priorities, costs, iteration order of sets and '
        'clock jumps are chosen by the scheduler, Ctrl-C strikes at chosen events and the search is resumed; every program the search visits, its answer so far and '
        'its final answer are solved; non-trivial = at least two different programs visited and something derived; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (kind, number of programs visited, rules of each visited program, interrupts, checkpoints)'
REAL = REAL_ENGINE + ['AgendaBasedSearch, BeamSearch, Graph1, Graph2', 'all transformations they apply', 'measures (with z3)', 'analyses']
STUB = STUB_ENV + ['random decisions of the search (numpy uniform)', 'priorities and costs (scheduler, in part of the runs)', 'iteration order of sets (scheduler)']
ASSUMPTIONS = ['programs are range restricted; multiplication is commutative', 'only declared outputs keep their values']
MODS = ['dyna.util.graphs', 'dyna.propagate', 'dyna.analyze.types', 'dyna.analyze.rewrites', 'dyna.analyze.coarse_graph', 'dyna.analyze.dead', 'dyna.program', 'dyna.search.search', 'dyna.search.old']


def gen(rng):
    c = nontrivial_case(rng, ('layered', 'layered', 'cyclic', 'interval', 'structured'), ['poly', 'poly', 'float', 'minplus', 'bool'], size=120)
    c['R'] = c['R'][:6]
    if rng.random() < .25: c['R'] = c['R'][:3] + chains(rng, c['F'])
    if rng.random() < .4:
        # the same body under another name: folds with either as the definition
        c['R'] = c['R'][-rng.randint(1, 3):]
        for r in rng.sample(c['R'], min(len(c['R']), rng.randint(1, 2))): c['R'].append(dict(r, h=['w' + str(len(c['R']))] + r['h'][1:]))
        c['twins'] = True
    heads = sorted({(r['h'][0], len(r['h']) - 1) for r in c['R']})
    if not heads: raise Discard()
    c['O'] = [list(h) for h in rng.sample(heads, rng.randint(1, min(2, len(heads))) if not c.get('twins') else len(heads))]
    c['kind'] = rng.choice(['agenda', 'beam'])
    c['sets'] = rng.random() < .5
    c['greedy'] = rng.choice([0, .25, .5, .75, 1])
    c['prio'] = rng.choice([0, 1, 2, 2])
    if c['prio'] == 2: c['greedy'] = rng.choice([.75, 1])
    c['rev'] = rng.random() < .3
    c['runs'] = [{'steps': rng.randint(1, 24 if c['prio'] == 2 else 8), 'kill': rng.random() < .35} for _ in range(rng.randint(1, 3))]
    c['graph'] = rng.choice([1, 2])
    c['T'] = rng.sample(['fold', 'fold+', 'fold*', 'fold*', 'elim', 'unfold', 'noop'], rng.randint(1, 4))
    if c['graph'] == 1 and rng.random() < .4: c['T'].append(rng.choice(['megafold', 'megafold-defs']))
    c['reps'] = rng.randint(1, 25); c['beam'] = rng.randint(1, 6); c['depth'] = rng.randint(1, 4)
    c['tidy'] = rng.random() < .7
    c['dup'] = [rng.choice([-1, -2, rng.randrange(6)])] if rng.random() < .2 else []
    c['jumps'] = rng.choice([0, 0, 1, 2, 4])
    return c


def chains(rng, F):
    "rules with chain-shaped bodies (worth folding) that share a head"
    ds = sorted({(f['h'][0], len(f['h']) - 1) for f in F if len(f['h']) > 1})
    out = []
    for _ in range(rng.randint(1, 3) if ds else 0):
        b, n = [], 0
        for _ in range(rng.randint(2, 4)):
            d, a = rng.choice(ds)
            b.append([d] + [f'X{n}'] + [rng.choice([f'X{n}', f'X{n + 1}', f'Y{rng.randrange(2)}']) for _ in range(a - 2)] + ([f'X{n + 1}'] if a > 1 else []))
            n += a > 1
        out.append({'h': ['z'] if not out or rng.random() < .8 else ['y', 'X0'], 'w': None, 'b': b})
    return out


def run(c, ch, st):
    with contextlib.redirect_stdout(io.StringIO()):
        try: run1(c, ch, st)
        except SimDeadlock:
            st.add('unfinished'); raise Discard() from None      # the space of rewritings is exponential
        except TypeError as e:
            if 'not supported between' in str(e): raise Discard() from None
            raise


def snapshot(p): return p.plaintext(), str(p.inputs and p.inputs.plaintext()), str(p.outputs and p.outputs.plaintext())


class Judge:
    "solves programs and compares their outputs with the reference"
    def __init__(self, c, ch, st, want, D):
        self.c, self.ch, self.st = c, ch, st
        self.S = REF[c['S']]
        self.O = {tuple(o) for o in c['O']}
        self.want = {k: v for k, v in want.items() if (k[0], len(k) - 1) in self.O}
        self.D = D
        self.n = 0
    def __call__(self, p, what):
        from dyna import Term
        self.n += 1
        eng = 2 if self.ch.flip(2, 3) or not p.is_range_restricted() else 1
        lim, EVENTS.limit = EVENTS.limit, min(EVENTS.limit, EVENTS.count + 1_500_000)
        try:
            try: s = p(self.D, solver=eng, budget=400, throw=False)
            except Exception as e:
                if type(e).__name__ != 'SolverLimitation' or eng == 2: raise
                s = p(self.D, solver=2, budget=400, throw=False)
        except SimDeadlock: self.st.add('unsolved.steps'); EVENTS.limit = lim; return
        except Exception as e:
            if type(e).__name__ in ('InstFault', 'NotImplementedError') : self.st.add('unsolved.inst'); return
            raise
        finally: EVENTS.limit = lim
        if s.interrupted: self.st.add('unsolved.budget'); return
        S = self.S
        have = {}
        for r in s.sol():
            if not isinstance(r.head, Term) or (r.head.fn, r.head.arity) not in self.O: continue
            it = lang.to_ground(r.head)
            v = lang.RVAL(r.body, S)
            have[it] = S.plus(have[it], v) if it in have else v
        have = {k: v for k, v in have.items() if not S.close(v, S.zero)}
        d = lang.diff_charts(have, self.want, S)
        if d: raise Violation('meaning', f'{what}: (kind, item, have, want) {fmt(d)}')
        self.st.add('solved')


def run1(c, ch, st):
    if not c['R'] or not c['O']: raise Discard()
    F, R = c['F'], c['R']
    dup = [R[k % len(R)] for k in c['dup']]     # rules present twice, as the very same object
    heads = {(r['h'][0], len(r['h']) - 1) for r in R}
    O = {tuple(o) for o in c['O']}
    if not O <= heads: raise Discard()
    data = [f for f in F if (f['h'][0], len(f['h']) - 1) not in heads]
    own = [f for f in F if f not in data]
    if len(own) > 4: raise Discard()
    ins = sorted({(f['h'][0], len(f['h']) - 1) for f in data})
    want = ref_solution(dict(c, R=R + dup))
    st.add(f'family.{c["fam"]}'); st.add(f'semiring.{c["S"]}'); st.add(f'kind.{c["kind"]}')
    decl = lambda xs: ' '.join(f'{f}({",".join("_" * a)}).' if a else f'{f}.' for f, a in xs)
    root = make_program(own + R, c['S'])
    if dup: root = root.spawn(list(root.rules) + [root.rules[len(own) + k % len(R)] for k in c['dup']])
    root = root.spawn(ch.shuffle(list(root.rules)))
    root.set_input_types(decl(ins)); root.set_output_types(decl(sorted(O)))
    D = make_program(data, c['S']) if data else ''
    before = snapshot(root)
    judge = Judge(c, ch, st, want, D)
    with (sched.set_order(ch, MODS) if c['sets'] else nullcontext()):
        {'agenda': agenda, 'beam': beam}[c['kind']](c, ch, st, root, judge)
    if snapshot(root) != before: raise Violation('damage', 'the search changed the program it was given')
    st.trivial = judge.n < 2 or not judge.want


class uniform:
    "the search's coin flips"
    def __init__(self, ch): self.ch = ch
    def __enter__(self):
        import numpy
        self.old = numpy.random.uniform
        numpy.random.uniform = lambda *a, **k: self.ch.choose(20) / 20 + .025
    def __exit__(self, *a):
        import numpy
        numpy.random.uniform = self.old


def frames(e):
    t, names = e.__traceback__, []
    while t:
        if '/dyna/' in t.tb_frame.f_code.co_filename: names.append(t.tb_frame.f_code.co_name)
        t = t.tb_next
    return names or ['run_agenda@']


def steps_of(k, ch): return 1 + ch.choose(60) if ch.flip(1, 3) else 1 + ch.choose(30_000)


def agenda(c, ch, st, root, judge):
    G = root.optimizer(p_greedy=c['greedy'], ALLOW_REVERSIBLE=c['rev'])
    # its memo table is keyed by the search object: hash that independently of its address
    type(G).__hash__ = lambda self: 4711
    type(G).check_measure.cache_clear()
    if c['prio'] == 1: G.agenda.priority_fn = lambda i: ch.choose(16)
    if c['prio'] == 2: G.agenda.priority_fn = lambda i: ch.choose(40) - 3 * i      # deep first
    start = cost = root.prune_fast().degrees()
    seen = []
    hit = 0
    for r in c['runs']:
        if r['kill']: faults.arm_kill(steps_of(0, ch))
        try:
            with uniform(ch):
                for q in G.run_agenda(r['steps']):
                    seen.append(q)
        except KeyboardInterrupt as e:
            # at the very entry of run_agenda nothing can catch it yet; anywhere below it must be handled
            if frames(e)[-1] not in ('run_agenda', 'run_agenda@'): raise Violation('interrupt', f'the search did not handle Ctrl-C in {frames(e)}')
        finally:
            if r['kill'] and not EVENTS.kill_at: st.add('fault.ctrl-c'); hit += 1
            faults.disarm()
        b = G.optimize_plans()
        bc = b.prune_fast().degrees()
        if cost < bc: raise Violation('worse', f'the answer got worse while the search went on: {cost} to {bc}')
        cost = bc
        if not hit:
            low = min([start] + [p.prune_fast().degrees() for p in G.to_collection()])
            if low != bc: raise Violation('not-best', f'the search visited a program of cost {low} but answers one of cost {bc}')
    n = len(seen)
    if n > 8: seen = seen[-4:] + [seen[ch.choose(n - 4)] for _ in range(4)]
    for q in seen: judge(q, f'a program visited by the search ({n} visited)')
    judge(G.optimize_plans(), 'the answer of the search')
    judge(G.optimize_plans().prune_fast(), 'the pruned answer of the search')
    st.add('visited', n)
    st.state((c['kind'], n, tuple(sorted({len(q) for q in seen})), hit))


def beam(c, ch, st, root, judge):
    T = tuple(c['T'])
    if c['graph'] == 2: T = tuple(t for t in T if not t.startswith('mega'))
    if not T: raise Discard()
    marks = []
    def checkpoint(s):
        if len(s.log) != s.i or len(s.programs) != s.i: raise Violation('checkpoint', f'checkpoint at evaluation {s.i} sees {len(s.log)} log entries and {len(s.programs)} programs')
        marks.append((s.i, CLOCK.now))
    kw = {}
    if c['prio']:
        memo = {}
        kw['cost'] = lambda p: memo.setdefault(p, ch.choose(16))     # any total cost
    kill = c['runs'][0]['kill']
    loud = c['rev']
    if c['jumps'] % 2: EVENTS.skews[EVENTS.count + 1 + ch.choose(20_000)] = [-7200, -61, 90][ch.choose(3)]; st.add('fault.clock-step')
    for _ in range(c['jumps']): EVENTS.jumps[EVENTS.count + 1 + ch.choose(40_000)] = 30 + ch.choose(200)
    if kill: faults.arm_kill(steps_of(0, ch) + 300)
    hit = False
    try:
        s = root.beam(c['reps'], c['beam'], checkpoint=checkpoint, max_depth=c['depth'], TRANSFORMS=T, graph=c['graph'], tidy=c['tidy'],
                      verbosity=ch.choose(2), kill=loud, **kw)
    except KeyboardInterrupt:
        st.add('fault.ctrl-c')
        # the search object does not exist yet, or the caller asked for the interrupt
        return
    finally:
        hit = kill and not EVENTS.kill_at
        faults.disarm()
    if hit:
        st.add('fault.ctrl-c')
        if loud and 'fold*' not in T: raise Violation('interrupt', 'the search swallowed a Ctrl-C it was asked to pass on')
    ps = s.programs
    if s.i > c['reps']: raise Violation('budget', f'{s.i} evaluations, limit {c["reps"]}')
    if [x['i'] for x in s.log] != list(range(1, len(s.log) + 1)): raise Violation('log', f'evaluations logged: {[x["i"] for x in s.log]}')
    if not hit:
        if set(ps) != {x['i'] for x in s.log}: raise Violation('log', 'logged evaluations and remembered programs differ')
        low = min(x['cost'] for x in s.log)
        if s.best_cost != low: raise Violation('not-best', f'lowest cost seen is {low}, reported is {s.best_cost}')
        if s.best is not next(ps[x['i']] for x in s.log if x['cost'] == low): raise Violation('not-best', 'the reported program is not the first one of lowest cost')
    el = [x['elapsed'] for x in s.log]
    if el != sorted(el) or el and el[0] < 0: raise Violation('log', f'elapsed times {el}')
    top = [x['cost'] for x, _ in s.top()]
    if top != sorted(top) or len(top) != len(s.log): raise Violation('log', f'ranking {top}')
    for (x, p) in s.top():
        if p is not ps[x['i']]: raise Violation('log', 'ranking pairs a log entry with another program')
    # a checkpoint is due once a minute has passed since the last one
    t = None
    due = 0
    t0 = s.start_time
    last = 0
    for x in s.log:
        now = t0 + x['elapsed']
        if now - last > 60: due += 1; last = now
    if not hit and len(marks) != due: raise Violation('checkpoint', f'{len(marks)} checkpoints taken, {due} were due')
    n = len(ps)
    qs = [ps[i] for i in sorted(ps)]
    if n > 8: qs = qs[-4:] + [qs[ch.choose(n - 4)] for _ in range(4)]
    for q in qs: judge(q, f'a program evaluated by the beam search ({T})')
    if s.best is not None: judge(s.best, 'the answer of the beam search')
    st.add('visited', n); st.add('checkpoints', len(marks))
    st.state((c['kind'], n, tuple(sorted({len(q) for q in qs})), bool(hit), len(marks)))
