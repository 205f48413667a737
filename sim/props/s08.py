"""S08: goal-directed solving gives the full solution of what was asked for, or says that it was cut short."""
import lang, gen, sched, faults
from common import *
from env import CLOCK, TICK, SimDeadlock
from interrupt import EVENTS

WALL = {'quick': 45, 'thorough': 900}
BATCHES = {'quick': (16, 600), 'thorough': (96, 6000)}
LISTS = ('F', 'R', 'b', 'O')
PROTECT = ('h', 'dom')
LEVEL = 'fault_enumeration'
LIMIT = 4_000_000
RULE = ('a run = one generated program, its data, and 1-3 output patterns, solved goal-directedly (with or without the demand '
        'transformation, either engine or automatic choice) under scheduler-chosen set orders and rule orders; then again with Ctrl-C at a '
        'chosen event and/or a per-pass time budget expiring at a chosen event; non-trivial = some output is derived; distinct = '
        'hash of (workload, decision log)')
STATE_MEASURE = 'hash of (configuration, phase cut short, outcome, fraction of the output that was found)'
REAL = REAL_ENGINE + ['demand transformation (magic templates)', 'linearisation', 'coarse graph', 'Tarjan SCC ordering', 'bucket queue', 'two-pass driver']
STUB = STUB_ENV + ['iteration order of sets (scheduler)']
ASSUMPTIONS = ['reference evaluator (sim/lang.py) is correct', 'declared inputs are the predicates without rules, and their facts come as data']


def gen(rng):
    if rng.random() < .2:
        import gen as G
        F, R, dom = G.nonground(rng, S := rng.choice(['poly', 'minplus']))
        c = {'fam': 'nonground', 'S': S, 'F': F, 'R': R, 'dom': dom, 'engine': rng.choice([None, 2])}
        O = []
        heads = [r['h'] for r in R]
        for _ in range(rng.randint(1, 3)):
            h = rng.choice(heads)
            O.append([h[0]] + [(f'O{i}' if rng.random() < .7 else rng.choice(dom)) for i in range(len(h) - 1)])
    else:
        c = nontrivial_case(rng, ('layered', 'interval', 'cyclic', 'cyclic', 'convergent', 'structured'), ['poly', 'poly', 'minplus', 'bool'])
        c['engine'] = rng.choice([None, 1, 2])
        want = ref_solution(c)
        O = []
        derived = sorted({r['h'][0]: len(r['h']) - 1 for r in c['R']}.items())
        items = sorted((k for k in want if k[0] in dict(derived)), key=str)
        for _ in range(rng.randint(1, 3)):
            if items and rng.random() < .8:
                it = rng.choice(items)
                O.append([it[0]] + [(f'O{i}' if rng.random() < .65 else lang._unfreeze(a)) for i, a in enumerate(it[1:])])
            else:
                f, a = rng.choice(derived)
                O.append([f] + [rng.choice([f'O{i}', 'O0']) for i in range(a)])
    c['O'] = O
    c['magic'] = rng.random() < .5 and c['fam'] != 'structured'      # (demand is infinite when recursion shrinks terms)
    if c['magic'] and c['engine'] == 1: c['engine'] = rng.choice([None, 2])     # demand is nonground in general
    c['sets'] = rng.random() < .4
    c['shuffle'] = rng.random() < .5
    c['asdata'] = rng.random() < .7
    c['mode'] = rng.choice(['none', 'kill', 'kill', 'timeout', 'both'])
    if c['fam'] == 'nonground' and c['asdata']: c['engine'] = 2
    return c


def run(c, ch, st):
    S = REF[c['S']]
    ng = c['fam'] == 'nonground'
    F, R = c['F'], c['R']
    if not c['O'] or not R: raise Discard()
    if ng:
        from props.s01 import check_ng
        check_ng(c)
        want = lang.solve_nonground_ref(F + R, S, c['dom'])
    else:
        want = ref_solution(c)
    heads = {(r['h'][0], len(r['h']) - 1) for r in R}
    if any((o[0], len(o) - 1) not in heads for o in c['O']): raise Discard()
    if c['shuffle']: F, R = ch.shuffle(F), ch.shuffle(R)
    ins = sorted({(f['h'][0], len(f['h']) - 1) for f in F} - heads)
    if not c['asdata']: ins = []
    inputs = ' '.join(f'{f}({",".join("_" * a)}).' if a else f'{f}.' for f, a in ins)
    outputs = ' '.join(lang.show(o) + '.' for o in c['O'])
    FD = [f for f in F if (f['h'][0], len(f['h']) - 1) not in heads] if c['asdata'] else []
    p = make_program([f for f in F if f not in FD] + R, c['S'])
    p.set_input_types(inputs); p.set_output_types(outputs)
    data = make_program(FD, c['S']) if FD else ''
    before = p.plaintext(), repr(data)
    from contextlib import nullcontext

    def solve(budget=None):
        return p.scc_solver(solver=c['engine'], magic=c['magic'], data=data, budget=budget)

    expect = outputs_of(c, want, S)
    st.add(f'family.{c["fam"]}'); st.add('magic' if c['magic'] else 'plain')
    E0 = EVENTS.count
    with (sched.set_order(ch) if c['sets'] else nullcontext()):
        try:
            with faults.measure() as m: s = solve()
        except SimDeadlock:
            if c['magic']: raise Discard() from None       # a huge set of nonground demands
            raise
        except Exception as e:
            # reordering for demand can put a comparison before what binds it: refused loudly
            if c['magic'] and type(e).__name__ == 'InstFault': raise Discard() from None
            raise
    N = m.n
    if s.interrupted or s.pass1_interrupted: raise Violation('flag', 'an undisturbed run reports that it was interrupted')
    full(c, s, want, expect, heads, S, 'undisturbed run')
    st.trivial = not expect
    st.state((c['engine'], c['magic'], 'none', 0))
    if c['mode'] != 'none':
        if N > 200_000: raise Discard()
        budget = None; k0, f0 = EVENTS.kills, CLOCK.timer_fires
        if c['mode'] in ('timeout', 'both'): budget = (1 + ch.choose(max(1, N))) * TICK
        if c['mode'] in ('kill', 'both'): faults.arm_kill(1 + ch.choose(max(1, N)))
        raised = None
        try: s = solve(budget)
        except KeyboardInterrupt: raised = 'ctrl-c'
        except Exception as e:
            if type(e).__name__ != 'Timeout': raise
            raise Violation('throw', 'a timeout escaped from the goal-directed solver')
        faults.disarm()
        kills, fires = EVENTS.kills - k0, CLOCK.timer_fires - f0
        if CLOCK.deadline is not None and raised is None: raise Violation('timer', 'a pass left its timer running')
        CLOCK.deadline = None
        st.add('fault.ctrl-c', kills); st.add('fault.budget-expiry', fires); st.add(f'outcome.{raised or "returned"}')
        if raised is None:
            flags = bool(s.pass1_interrupted), bool(s.interrupted)
            if any(flags) and not (kills or fires): raise Violation('flag', 'reported as interrupted although nothing interrupted it')
            if not any(flags):
                # an interrupt that hit nothing that matters: everything must be there
                full(c, s, want, expect, heads, S, 'run that does not report an interruption')
            have = partial(c, s, S)
            bad = lang.unsound(have, want, S)
            if bad: raise Violation('unsound', f'partial solution (flags {flags}) exceeds the true one: {fmt(bad)}')
            got = sum(1 for k in expect if k in have)
            st.state((c['engine'], c['magic'], flags, 8 * got // max(1, len(expect))))
            if any(flags) and got < len(expect): st.add('probe.partial')
            try: s(throw=False)          # resume
            except KeyboardInterrupt: pass
            bad = lang.unsound(partial(c, s, S), want, S)
            if bad: raise Violation('unsound', f'resumed solution exceeds the true one: {fmt(bad)}')
        if (p.plaintext(), repr(data)) != before: raise Violation('damage', 'the program or its data changed')
        s = solve()
        if s.interrupted or s.pass1_interrupted: raise Violation('flag', 'a fresh undisturbed run reports that it was interrupted')
        full(c, s, want, expect, heads, S, 'fresh run afterwards')


def outputs_of(c, want, S):
    "reference items covered by an output pattern"
    out = {}
    for it, v in want.items():
        if S.close(v, S.zero): continue
        for o in c['O']:
            if it[0] == o[0] and len(it) == len(o) and lang.match(o, it, {}) is not None: out[it] = v
    return out


def partial(c, s, S):
    from props.s03 import instances
    return {k: v for k, v in instances(c, s.sol(), S).items() if k[0][:1] != '$'}


def full(c, s, want, expect, heads, S, what):
    have = partial(c, s, S)
    for it, v in expect.items():
        h = have.get(it, S.zero)
        if not S.close(h, v): raise Violation('output', f'{what}: {it} is {h}, expected {v}')
    for it, h in have.items():
        # whatever was computed was computed in full
        if c['fam'] == 'nonground': break          # (unneeded overlapping items may be left out)
        v = want.get(it, S.zero)
        if not S.close(h, v): raise Violation('value', f'{what}: {it} is {h}, expected {v}')
    if c['fam'] != 'nonground':
        for o in c['O']:
            a = lang.chart_of(s.user_query(build_query(o)), S)
            w = {it: v for it, v in expect.items() if it[0] == o[0] and len(it) == len(o) and lang.match(o, it, {}) is not None}
            d = [x for x in lang.diff_charts(a, w, S)]
            if d: raise Violation('output', f'{what}: query {lang.show(o)}: {fmt(d)}')
    else:
        import itertools
        U = list(c['dom']) + [['zz']]
        for o in c['O']:
            vs = lang.tvars(o)
            for combo in itertools.islice(itertools.product(U, repeat=len(vs)), 16):
                q = rebuild(o, dict(zip(vs, combo)))
                v = S.zero
                for r in s.user_query(build_query(q)): v = S.plus(v, lang.RVAL(r.body, S))
                w = want.get(lang.subst(q, {}), S.zero)
                if not S.close(v, w): raise Violation('output', f'{what}: query {lang.show(q)}: {v}, expected {w}')


def rebuild(x, s):
    if lang.isvar(x): return s.get(x, x)
    if isinstance(x, list): return [x[0]] + [rebuild(a, s) for a in x[1:]]
    return x
