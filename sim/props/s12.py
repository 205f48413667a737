"""S12: racing programs: the fastest, its own complete result, and no limit lost on the way."""
import lang, gen, sched, faults
from common import *
from env import CLOCK, TICK
from interrupt import EVENTS

WALL = {'quick': 40, 'thorough': 600}
BATCHES = {'quick': (16, 700), 'thorough': (64, 7000)}
LISTS = ('F', 'R', 'b', 'cands')
PROTECT = ('h', 'kind')
LEVEL = 'fault_enumeration'
LIMIT = 4_000_000
RULE = ('a run = one race between 1-5 programs (equivalent rewritings, diverging, failing and slow ones) on one data set, under growing budgets; candidates are stalled, '
        'the wall clock is set forward and back, Ctrl-C strikes and an enclosing time limit expires at scheduler-chosen instants; non-trivial = at least two '
        'candidates or a fault; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (how the race ended, rounds, outcome of every attempt of the last round)'
REAL = REAL_ENGINE + ['ProgramCollection.race', 'time-limit code', 'transformations that make the candidates']
STUB = STUB_ENV
ASSUMPTIONS = ['virtual time advances 1 ms per library event; wall clock steps do not affect monotonic clocks or interval timers', 'some candidate finishes, or a limit or Ctrl-C ends the race']

DIVERGE = ['n(z) += 1. n(s(X)) += n(X).', 'n(0) += 1. n(Y) += n(X), Y is (X + 1).']
SLACK = 0.6


class Failure(Exception): pass


def gen(rng):
    c = nontrivial_case(rng, ('layered', 'interval', 'cyclic', 'structured'), ['minplus', 'bool', 'maxtimes'], size=60)
    c['cands'] = [{'kind': rng.choice(['same', 'same', 'shuffled', 'unfold', 'noop', 'diverge', 'fail']), 'stall': rng.choice([0, 0, 0, .2, 1, 5]),
                   'own': rng.choice([None, None, None, .05, .5, 4]), 'throw': rng.random() < .6, 'engine': rng.choice([1, 2]), 'a': rng.randrange(40), 'style': rng.choice(['uniform', 'fifo', 'burst', 'heap'])}
                  for _ in range(rng.randint(1, 5))]
    c['tmin'] = rng.choice([.002, .02, .1, .3, 1, 3])
    c['growth'] = rng.choice([1.5, 2, 2, 3, 10])
    c['limit'] = rng.choice([None, None, .5, 2, 8])
    c['kill'] = rng.random() < .25
    c['skew'] = rng.random() < .4
    return c


def build(k, c, root, ch):
    from dyna import Program
    if k['kind'] == 'diverge':
        p = Program(DIVERGE[k['a'] % 2])
        D = lang.dyna_semiring(c['S'])
        return p.lift_semiring(D)
    if k['kind'] == 'shuffled': return root.spawn(ch.shuffle(list(root.rules)))
    if k['kind'] == 'noop': root = root.noop()
    if k['kind'] == 'unfold':
        us = [(i, j) for i, r in enumerate(root) for j, x in enumerate(r.body) if root.safe_inline(x)]
        if us: root = root.unfold(*us[k['a'] % len(us)])
    return root.spawn(list(root.rules))


def run(c, ch, st):
    from dyna import Program, ProgramCollection
    from dyna.util.budget import timelimit
    Timeout = timelimit.Timeout
    if not c['cands']: raise Discard()
    S = REF[c['S']]
    F, R = c['F'], c['R']
    want = ref_solution(c)
    root = make_program(F + R, c['S'])
    cands = ProgramCollection([build(k, c, root, ch) for k in c['cands']])
    if c['limit'] is None and not any(k['kind'] not in ('diverge', 'fail') and (k['own'] is None or not k['throw']) for k in c['cands']): raise Discard()    # need never end
    for p in cands: p.is_range_restricted(); p.solver(); p.solver2()
    log = []                 # one entry per attempt
    byid = {id(p): i for i, p in enumerate(cands)}

    def go(p):
        i = byid[id(p)]; k = c['cands'][i]
        e = {'i': i, 'start': CLOCK.now, 'timer': CLOCK.deadline, 'how': 'cut', 'end': None, 'y': None, 'fires': CLOCK.timer_fires}
        log.append(e)
        if c['skew'] and ch.flip(1, 3): EVENTS.skews[EVENTS.count + 1 + ch.choose(300)] = [-3600, -30, -1, 5, 600][ch.choose(5)]; st.add('fault.clock-step')
        if k['stall'] and ch.flip(2, 3):
            st.add('fault.stall')
            CLOCK.sleep(k['stall'])
        if k['kind'] == 'fail' and ch.flip(1, 2): raise Failure()
        y = p('', solver=k['engine'], budget=k['own'], throw=k['throw'], kill=True, **agenda_kwargs(k['style'], False, ch, st))
        e['how'] = 'flagged' if y.interrupted else 'done'
        e['y'] = y
        e['end'] = CLOCK.now
        return y

    t0 = CLOCK.now
    outer = None if c['limit'] is None else t0 + c['limit']
    CLOCK.timer_fires = 0
    EVENTS.kills = 0
    if c['kill']: faults.arm_kill(1 + ch.choose(200) if ch.flip(1, 4) else 1 + ch.choose(15000))
    best = None
    left = None
    try:
        with timelimit(c['limit']):
            best = cands.race(go, tmin=c['tmin'], growth_factor=c['growth'])
            left = CLOCK.deadline
        how = 'won'
    except KeyboardInterrupt: how = 'ctrl-c'
    except Timeout: how = 'timeout'
    except Failure: how = 'failure'
    finally: faults.disarm()
    kills = EVENTS.kills
    st.add(f'end.{how}'); st.add('fault.ctrl-c', kills); st.add('fault.timer', CLOCK.timer_fires); st.add('attempts', len(log))
    now = CLOCK.now
    where = f'race of {[k["kind"] for k in c["cands"]]}, {len(log)} attempts, ended by {how}'

    # whatever happened, no timer stays behind
    if CLOCK.deadline is not None: raise Violation('leak', f'{where}: a timer is still armed')
    # the enclosing limit holds
    if how == 'timeout':
        if outer is None: raise Violation('spurious', f'{where}: a Timeout escaped although no limit encloses the race')
        if now < outer - 2 * TICK: raise Violation('early', f'{where}: the enclosing limit ended {outer - now:.3f}s early')
    if outer is not None and how != 'failure' and now > outer + SLACK:
        raise Violation('late', f'{where}: {now - outer:.3f}s past the enclosing limit')
    if how == 'won' and outer is not None:
        if left is None: raise Violation('clobbered', f'{where}: the enclosing timer was disarmed')
        if abs(left - outer) > SLACK: raise Violation('clobbered', f'{where}: the enclosing timer moved by {left - outer:+.3f}s')
    if how == 'ctrl-c' and not kills: raise Violation('spurious', 'KeyboardInterrupt without a Ctrl-C')
    if how == 'won' and kills: raise Violation('swallowed', f'{where}: Ctrl-C was lost')

    # rounds: every candidate once, in order, with the budget of the round
    n = len(cands)
    for j, e in enumerate(log):
        if e['i'] != j % n: raise Violation('rounds', f'{where}: attempts were {[x["i"] for x in log]}')
        b = c['tmin'] * c['growth'] ** (j // n)
        timer = e['timer'] and e['timer'] - e['start']
        full = outer is not None and outer - e['start'] <= b + SLACK
        if full:
            if timer is None and now < outer: raise Violation('budget', f'{where}: attempt {j} ran without a timer')
        elif timer is None or timer > b + 1e-6 or timer < b - SLACK:
            raise Violation('budget', f'{where}: attempt {j} had {timer} s, round budget {b}')
        if e['y'] is not None and e['end'] - e['start'] > b + SLACK and not full: raise Violation('budget', f'{where}: attempt {j} took {e["end"] - e["start"]:.3f}s, budget {b:.3f}s')
    fin = [e for e in log if e['y'] is not None]
    if how == 'won':
        t, x, y = best
        if len(log) % n: raise Violation('rounds', f'{where}: the last round was not finished')
        last = log[-n:]
        # an attempt that got its answer may still have been cut before the race took note of it
        if not any(e['y'] is y for e in last): raise Violation('result', f'{where}: the result is none of the last round\'s')
        for e in log[:-n]:
            b = c['tmin'] * c['growth'] ** (log.index(e) // n)
            if e['y'] is not None and e['end'] - e['start'] < b - SLACK: raise Violation('rounds', f'{where}: went on although candidate {e["i"]} had finished')
        [w] = [e for e in last if e['y'] is y]
        if x is not cands[w['i']]: raise Violation('result', f'{where}: the result belongs to another program than the one reported')
        span = w['end'] - w['start']
        if abs(t - span) > SLACK or t < 0: raise Violation('time', f'{where}: reported {t:.3f}s, took {span:.3f}s')
        for e in last:
            if e['y'] is not None and e['end'] - e['start'] < span - .05:
                raise Violation('not-fastest', f'{where}: candidate {w["i"]} took {span:.3f}s, {e["i"]} {e["end"] - e["start"]:.3f}s')
        k = c['cands'][w['i']]
        if w['how'] == 'flagged':
            if k['own'] is None or k['throw']: raise Violation('incomplete', f'{where}: the result is an interrupted one')
            bad = lang.unsound(lang.chart_of(y.sol(), S), want, S)
            if bad and k['kind'] != 'diverge': raise Violation('unsound', f'{where}: {fmt(bad)}')
        elif k['kind'] == 'diverge': raise Violation('incomplete', f'{where}: a diverging program won as if it had finished')
        else:
            have = {a: v for a, v in lang.chart_of(y.sol(), S).items() if not S.close(v, S.zero)}
            d = lang.diff_charts(have, want, S)
            if d: raise Violation('incomplete', f'{where}: result differs: {fmt(d)}')
    # afterwards nothing is disturbed
    try: CLOCK.sleep(1e4)
    except BaseException as e: raise Violation('leak', f'{where}: a stale timer fired later: {e!r}')
    st.state((how, len(log) // n, tuple(e['how'] for e in log[-n:])))
    st.trivial = len(cands) < 2 and not kills and not CLOCK.timer_fires

