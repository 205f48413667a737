"""S03: a cancelled solve is flagged, sound, does not restart, and damages nothing."""
import lang, gen, sched, faults
from common import *
from env import CLOCK, TICK
from interrupt import EVENTS

WALL = {'quick': 45, 'thorough': 900}
BATCHES = {'quick': (16, 500), 'thorough': (96, 5000)}
LISTS = ('F', 'R', 'b')
PROTECT = ('h', 'q', 'dom', 'mode', 'kill', 'throw')
LEVEL = 'fault_enumeration'
RULE = ('a run = one solve of a generated program during which a Ctrl-C and/or the expiry of a time budget is delivered at a '
        'scheduler-chosen event (function entry, generator resumption, loop back-edge) inside the library, followed by '
        'queries, an explicit resume and fresh solves; non-trivial = the fault was delivered before the fixpoint was '
        'complete; distinct = hash of (workload, decision log incl. the fault position)')
STATE_MEASURE = 'hash of (fault kinds delivered, how the call ended, share of the fixpoint present when it ended, engine)'
REAL = REAL_ENGINE + ['arsenal/dyna time-limit code (on the virtual timer)']
STUB = STUB_ENV
ASSUMPTIONS = ['interrupts arrive only at the instants at which CPython polls for signals',
               'values of partial solutions are compared in the semiring\'s natural order; data is nonnegative']


def gen(rng):
    c = nontrivial_case(rng, semirings=['poly', 'poly', 'minplus', 'bool'])
    if rng.random() < .15:
        import gen as G
        F, R, dom = G.nonground(rng, S := rng.choice(['poly', 'minplus']))
        c = {'fam': 'nonground', 'S': S, 'F': F, 'R': R, 'dom': dom, 'engine': 2}
    else: c['engine'] = rng.choice([1, 1, 2])
    c.update(mode=rng.choice(['kill', 'kill', 'timeout', 'both']), kill=rng.random() < .5, throw=rng.random() < .5,
             style=rng.choice(['uniform', 'fifo', 'lifo', 'burst', 'heap', 'bucket']), ags=rng.randrange(1 << 30),
             entry=rng.choice(['solver', 'solver', 'query', 'program']), twice=rng.random() < .3,
             late=rng.random() < .3)
    return tame(c, 'style')


def reference(c, F):
    S = REF[c['S']]
    if c['fam'] == 'nonground': return lang.solve_nonground_ref(F + c['R'], S, c['dom'])
    return ref_solution(c, F=F)


def instances(c, sol, S):
    "chart of a solution; nonground charts are expanded over the finite universe"
    if c['fam'] != 'nonground': return lang.chart_of(sol, S)
    import itertools
    U = list(c['dom']) + [('zz',)]
    out = {}
    for r in sol:
        if r.head.fn.startswith('$'): continue
        pat = from_dyna_term(r.head)
        v = lang.RVAL(r.body, S)
        vs = lang.tvars(pat)
        for combo in itertools.product(U, repeat=len(vs)):
            h = lang.subst(pat, dict(zip(vs, combo)))
            out[h] = S.plus(out[h], v) if h in out else v
    return out


def from_dyna_term(x):
    from dyna.term import Term, Var, snap
    x = snap(x)
    if isinstance(x, Var): return f'_V{id(x)}'
    if isinstance(x, Term): return [x.fn] + [from_dyna_term(a) for a in x.args]
    return x


def run(c, ch, st):
    S = REF[c['S']]
    if c['fam'] == 'nonground':
        from props import s01
        s01.check_ng(c)
    F = c['F']
    if c['mode'] not in ('kill', 'timeout', 'both') : raise Discard()
    k0 = len(F) // 2
    F1, F2 = (F[:k0], F[k0:]) if c['late'] else (F, [])
    want1 = reference(c, F1)
    want = reference(c, F) if F2 else want1
    p = make_program(c['R'], c['S'])
    data = make_program(F1, c['S'])
    before = repr_plain(p), repr_plain(data)

    def build():
        q = Chooser(seed=c['ags'])
        return (p.solver if c['engine'] == 1 else p.solver2)(**agenda_kwargs(c['style'], True, q, st))

    # undisturbed baseline: how many events does the solve take?
    s = build()
    with faults.measure() as m: s(data)
    N = m.n
    if N > 200_000: raise Discard()      # too slow to disturb, resume and repeat within the step bound
    compare_full(c, s.sol(), want1, S, 'baseline')

    # the disturbed run
    at = ch.choose(max(1, N)) + 1
    budget = None
    if c['mode'] in ('timeout', 'both'): budget = max(1, ch.choose(max(1, N)) + 1) * TICK
    direct = c['entry'] != 'program'
    if direct: s = build()
    EVENTS.kills = 0; CLOCK.timer_fires = 0
    if c['mode'] in ('kill', 'both'):
        faults.arm_kill(max(faults.HEAD, at))
    raised = None
    try:
        if c['entry'] == 'query' and c['fam'] != 'nonground':
            s.load_data(data)
            q = [c['R'][0]['h'][0]] + [f'Q{i}' for i in range(len(c['R'][0]['h']) - 1)]
            ans = s.user_query(build_query(q), budget=budget, kill=c['kill'], throw=c['throw'])
        elif direct:
            s(data, budget=budget, kill=c['kill'], throw=c['throw'])
        else:
            q = Chooser(seed=c['ags'])
            s = p(data, budget=budget, kill=c['kill'], throw=c['throw'], solver=c['engine'],
                  **agenda_kwargs(c['style'], True, q, st))
    except KeyboardInterrupt:
        raised = 'ctrl-c'
    except Exception as e:
        if type(e).__name__ != 'Timeout': raise
        raised = 'timeout'
    faults.disarm()
    kills, fires = EVENTS.kills, CLOCK.timer_fires
    armed = CLOCK.deadline
    CLOCK.deadline = None       # (that no timer outlives the call is property S04)
    st.add('fault.ctrl-c', kills); st.add('fault.budget-expiry', fires)
    st.add(f'outcome.{raised or "returned"}')

    if raised and c['entry'] == 'program':
        # the solver object is lost; the program and the data must be unharmed
        s = None
    if raised == 'timeout':
        if not fires: raise Violation('spurious', 'a timeout was raised although no budget expired')
        if not c['throw']: raise Violation('throw', 'a timeout escaped although the caller asked not to throw')
    if raised == 'ctrl-c' and not kills: raise Violation('spurious', 'KeyboardInterrupt without a Ctrl-C')
    outside = c['entry'] in ('query', 'program')   # work before/after the protected region
    inside = kills and faults.HEAD <= at <= N - faults.TAIL
    if raised == 'ctrl-c' and not c['kill'] and not outside and inside:
        raise Violation('kill', 'Ctrl-C escaped although the caller did not ask to be killed')
    if s is not None:
        flagged = bool(s.interrupted)
        if raised and not flagged and not outside and (inside or raised == 'timeout'):
            raise Violation('flag', f'{raised} escaped but the solver is not marked as interrupted')
        if flagged and not (kills or fires):
            raise Violation('flag', 'marked as interrupted although nothing interrupted it')
        if flagged and raised is None and c['kill'] and kills and not fires:
            raise Violation('kill', 'the caller asked to be killed on Ctrl-C but the call returned')
        if flagged and raised is None and c['throw'] and fires and not kills:
            raise Violation('throw', 'the budget expired, the caller asked for an exception but the call returned')
        if not flagged and raised is None:
            compare_full(c, s.sol(), want1, S, 'unflagged result')
        have = instances(c, s.sol(), S)
        bad = lang.unsound(have, want1, S)
        if bad: raise Violation('unsound', f'partial solution exceeds the true one: {fmt(bad)}')
        frac = (10 * len(have)) // max(1, len(want1))
        st.state((bool(kills), bool(fires), raised, frac, c['engine']))
        if flagged and len(have) < len(want1): st.add('probe.partial')
        if flagged:
            # queries answer from what is there and do not restart the computation
            for r in c['R'][:2] + F1[:1]:
                q = [r['h'][0]] + [f'Q{i}' for i in range(len(r['h']) - 1)]
                ans = s.user_query(build_query(q))
                if c['fam'] != 'nonground':
                    a = lang.chart_of(ans, S)
                    bad = lang.unsound(a, want1, S)
                    if bad: raise Violation('unsound', f'query {lang.show(q)} on a partial solution: {fmt(bad)}')
                    d = [x for x in lang.diff_charts(a, lang_eval(q, have), S) if x[0] in ('extra', 'value')]
                    if d: raise Violation('restart', f'query {lang.show(q)} disagrees with the partial solution: {fmt(d)}')
            again = instances(c, s.sol(), S)
            if lang.diff_charts(again, have, S):
                raise Violation('restart', f'a query changed the interrupted solution: {fmt(lang.diff_charts(again, have, S))}')
            # explicit resume (possibly cut short once more)
            if c['twice']: faults.arm_kill(faults.HEAD + ch.choose(max(1, N)))
            try: s(throw=False)
            except KeyboardInterrupt: pass
            faults.disarm()
            bad = lang.unsound(instances(c, s.sol(), S), want1, S)
            if bad: raise Violation('unsound', f'resumed solution exceeds the true one: {fmt(bad)}')
            if not s.interrupted: raise Violation('flag', 'resuming an interrupted solver cleared its mark')
            if F2:
                s(make_program(F2, c['S']))
                bad = lang.unsound(instances(c, s.sol(), S), want, S)
                if bad: raise Violation('unsound', f'after more data: {fmt(bad)}')
                if not s.interrupted: raise Violation('flag', 'loading data cleared the interrupted mark')
    # bystanders
    after = repr_plain(p), repr_plain(data)
    if before != after:
        raise Violation('damage', f'the program or its data changed: {before} -> {after}')
    s2 = build(); s2(data)
    if s2.interrupted: raise Violation('flag', 'a fresh solver starts out interrupted')
    compare_full(c, s2.sol(), want1, S, 'fresh solver on the same program')
    if F2:
        s2(make_program(F2, c['S']))
        compare_full(c, s2.sol(), want, S, 'fresh solver, more data')
    st.trivial = not (kills or fires)


def lang_eval(q, chart):
    return {it: v for it, v in chart.items() if it[0] == q[0] and len(it) == len(q)}


def compare_full(c, sol, want, S, what):
    d = lang.diff_charts({k: v for k, v in instances(c, sol, S).items() if not S.close(v, S.zero)}, want, S)
    if d: raise Violation('incomplete', f'{what}: {fmt(d)}')


def repr_plain(p):
    return p.__repr__(color=False)
