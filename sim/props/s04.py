"""S04: a time budget bounds the call it was given to, the whole call and nothing but the call."""
import lang, gen, sched, faults
from common import *
from env import CLOCK, TICK
from interrupt import EVENTS

WALL = {'quick': 40, 'thorough': 600}
BATCHES = {'quick': (16, 500), 'thorough': (64, 5000)}
LISTS = ('calls',)
PROTECT = ('F', 'R', 'prog')
LEVEL = 'fault_enumeration'
RULE = ('a run = a history of 2-5 budgeted and unbudgeted calls (both engines, program-level solve, goal-directed solve, race) '
        'on converging, diverging and failing programs, optionally under an enclosing watchdog timer, with Ctrl-C and budget '
        'expiry at scheduler-chosen virtual instants; non-trivial = some call was ended by a timer, Ctrl-C or an error; '
        'distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (entry point, program kind, how the call ended, watchdog armed/remaining) per call, with the previous call\'s'
REAL = REAL_ENGINE + ['time-limit code', 'race']
STUB = STUB_ENV
ASSUMPTIONS = ['virtual time advances 1 ms per library event; a call may overrun its budget by at most SLACK events']
LIMIT = 1_500_000

SLACK = 0.4

DIVERGE = ['n(z) += 1. n(s(X)) += n(X).',
           'n(0) += 1. n(Y) += n(X), Y is (X + 1).',
           'a(z) += 1. b(s(X)) += a(X). a(s(X)) += b(X). c += a(X).']
# goal-directed: the first pass diverges, the second, both
SCC_DIVERGE = ['goal += n(0). n(0) += 1. n(Y) += n(X), Y is (X + 1).',
               'goal += x. x += x. x += 1.',
               'goal += x. x += x. x += 1. goal += n(0). n(0) += 1. n(Y) += n(X), Y is (X + 1).',
               'goal += n(0). n(0) += 1. n(Y) += n(X), Y is (X + 1). goal += x. x += 1. x += y(X) * 2. y(1) += x. y(2) += x.']
BETWEEN = 20     # work of a goal-directed solve before, between and after its two passes
FAIL = ['d(1) += 1. d(2) += 1. p(X) += d(X), Y < X.',
        'd(1) += 1. e(X) += d(X). p(X,Y) += e(X), Z = f(Y).',
        'd(1) += 1. e(Y) += d(X), Y is (X + 1). p(X) += e(X), e(Y), Y < Z.']


class Watchdog(Exception): pass


def gen(rng):
    calls = []
    for _ in range(rng.randint(2, 5)):
        kind = rng.choice(['ok', 'ok', 'diverge', 'diverge', 'fail'])
        if kind == 'ok':
            c = nontrivial_case(rng, families=('interval', 'cyclic', 'structured'), semirings=['minplus', 'bool'], size=80)
            prog = lang.show_program(c['F'] + c['R'])
        else: prog = rng.choice(DIVERGE if kind == 'diverge' else FAIL)
        entry = rng.choice(['solver', 'solver', 'solver2', 'call', 'scc', 'race', 'race-nested', 'query'])
        if kind == 'diverge' and entry == 'scc': prog = rng.choice(SCC_DIVERGE)
        calls.append({'kind': kind, 'prog': prog, 'entry': entry, 'throw': rng.random() < .5, 'kill': rng.random() < .5,
                      'budget': kind == 'diverge' or rng.random() < .7,
                      'ctrlc': rng.random() < .3, 'short': rng.random() < .6, 'magic': rng.random() < .4, 'eng': rng.choice([None, None, 1, 2])})
    return {'calls': calls, 'watchdog': rng.random() < .4}


def program(k, kind):
    from dyna import Program
    p = Program(k)
    if kind == 'ok':
        from semirings import Boolean
        p = p.lift_semiring(Boolean)
    return p


def run(c, ch, st):
    trail = 'start'
    ended_early = 0
    for n, k in enumerate(c['calls']):
        p = program(k['prog'], k['kind'])
        budget = None
        if k['budget'] or k['kind'] == 'diverge':
            # up to a few thousand events; "short" ones expire inside most programs
            budget = (1 + ch.choose(1500 if k['short'] else 12000)) * TICK
        watchdog = None
        CLOCK.deadline = None
        faults.disarm()
        entry = k['entry']
        if entry == 'scc' and k['kind'] != 'ok' and k['prog'] not in SCC_DIVERGE: entry = 'solver'
        slack = SLACK
        runs = []
        s = None
        if entry == 'call':      # choosing and building the engine happens outside the budget
            with faults.measure() as m: p.is_range_restricted(); p.solver(); p.solver2()
            slack += 2 * m.n * TICK
        if entry == 'solver' or entry == 'query': s = p.solver()
        elif entry == 'solver2': s = p.solver2()
        elif entry == 'scc': p.set_input_types('').set_output_types(outputs_of(p) if k['kind'] == 'ok' else 'goal.')
        magic = k['kind'] == 'diverge' and k.get('magic', False)
        if entry == 'scc':       # so does the demand transformation
            with faults.measure() as m: p.linearize().magic_templates() if magic else p.linearize()
            slack += 3 * m.n * TICK + BETWEEN
        fired = []
        EVENTS.kills = 0; CLOCK.timer_fires = 0
        if c['watchdog']:
            watchdog = CLOCK.now + (1 + ch.choose(16000)) * TICK
            import signal
            def bark(sig, frame, fired=fired): fired.append(CLOCK.now); raise Watchdog()
            signal.signal(signal.SIGALRM, bark)
            signal.setitimer(signal.ITIMER_REAL, watchdog - CLOCK.now)
        t0 = CLOCK.now
        e0 = EVENTS.count
        if k['ctrlc']: faults.arm_kill(1 + ch.choose(4000))
        how = 'returned'; exc = None
        racing = False
        try:
            if entry in ('solver', 'solver2'): s(budget=budget, throw=k['throw'], kill=k['kill'])
            elif entry == 'call': s = p(budget=budget, throw=k['throw'], kill=k['kill'])
            elif entry == 'query':
                s.user_query(list(p)[-1].head, budget=budget, throw=k['throw'], kill=k['kill'])
            elif entry == 'scc': s = p.scc_solver(budget=budget, magic=magic, solver=k.get('eng') if k['kind'] == 'diverge' else None)
            else:
                racing = True
                from dyna import ProgramCollection
                fast = program('d(1) += 1. p(X) += d(X).', 'fast')
                def go(q):
                    runs.append(CLOCK.now)
                    if entry == 'race-nested': return q(budget=(budget or 0) + 2.5, kill=True)
                    return q(kill=True)
                best = ProgramCollection([p, fast] if k['short'] else [fast, p]).race(go, tmin=(budget or 0.05))
        except KeyboardInterrupt: how = 'ctrl-c'
        except Watchdog: how = 'watchdog'
        except Exception as e:
            exc = e
            how = 'timeout' if type(e).__name__ == 'Timeout' else 'error'
            if how == 'error' and k['kind'] == 'ok': raise
        faults.disarm()
        elapsed = CLOCK.now - t0
        kills = EVENTS.kills
        flagged = s is not None and bool(getattr(s, 'interrupted', False))
        st.add(f'end.{how}'); st.add(f'entry.{entry}'); st.add(f'kind.{k["kind"]}')
        st.add('fault.ctrl-c', kills); st.add('fault.timer', CLOCK.timer_fires)
        where = f'call {n} ({entry}, {k["kind"]} program, budget={budget}, watchdog={"yes" if watchdog else "no"}) ended by {how}'
        if how != 'returned' or flagged: ended_early += 1
        # 1. the budget was not cut short by somebody else's timer
        if (how == 'timeout' or (flagged and not kills)) and not racing:
            if budget is None: raise Violation('spurious', f'{where}: timed out without a budget')
            if elapsed < budget - 2 * TICK:
                raise Violation('early', f'{where}: timed out after {elapsed:.3f}s of {budget:.3f}s')
        if how == 'watchdog' and CLOCK.now < watchdog - 2 * TICK:
            raise Violation('early', f'{where}: the watchdog fired {watchdog - CLOCK.now:.3f}s early')
        # 2. the budget did bound the call
        if budget is not None and entry in ('solver', 'solver2', 'call') and elapsed > budget + slack:
            raise Violation('late', f'{where}: took {elapsed:.3f}s, budget {budget:.3f}s')
        if budget is not None and entry == 'scc' and k['kind'] == 'diverge':
            if elapsed > 3 * budget + slack: raise Violation('late', f'{where}: took {elapsed:.3f}s, budget {budget:.3f}s for each of two passes')
            if how == 'returned' and not flagged and not s.pass1_interrupted:
                raise Violation('unflagged', f'{where}: a diverging program returned as if it had converged')
        if how == 'returned' and budget is not None and not racing and not flagged and k['kind'] == 'diverge' and entry != 'scc':
            raise Violation('unflagged', f'{where}: a diverging program returned as if it had converged')
        # 3. no timer outlives the call
        if watchdog is None:
            if CLOCK.deadline is not None:
                raise Violation('leak', f'{where}: a timer is still armed, to fire in {CLOCK.deadline - CLOCK.now:.3f}s')
        elif how != 'watchdog' and not fired:
            # 4. an enclosing timer survives, with the time it had left and its own handler
            if CLOCK.deadline is None: raise Violation('clobbered', f'{where}: the enclosing timer was disarmed')
            if abs(CLOCK.deadline - watchdog) > SLACK and CLOCK.deadline > CLOCK.now + SLACK:
                raise Violation('clobbered', f'{where}: the enclosing timer moved by {CLOCK.deadline - watchdog:+.3f}s')
            try:
                CLOCK.sleep(1e4)
            except Watchdog: pass
            except Exception as e:
                raise Violation('clobbered', f'{where}: the enclosing handler was replaced ({type(e).__name__})')
            else: raise Violation('clobbered', f'{where}: the enclosing timer never fired')
        # 5. whatever comes next is not disturbed
        if watchdog is None:
            try: CLOCK.sleep(1e4)
            except Exception as e: raise Violation('leak', f'{where}: a stale timer fired later: {e!r}')
        trail = (entry, k['kind'], how, bool(watchdog), flagged)
        st.state((trail, n))
    st.trivial = not ended_early


def outputs_of(p):
    from dyna import Program, Rule, Term, Var
    seen = {}
    for r in p:
        seen[r.head.fn, len(r.head.args)] = 1
    return Program([Rule(Term(f, *[Var() for _ in range(a)])) for f, a in seen])
