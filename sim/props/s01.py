"""S01: the fixpoint does not depend on the order in which pending updates run."""
import lang, gen, sched
from common import *

WALL = {'quick': 45, 'thorough': 900}
BATCHES = {'quick': (16, 600), 'thorough': (96, 6000)}
LISTS = ('F', 'R', 'b', 'Q')
PROTECT = ('h', 'dom')
RULE = ('a run = one generated program + data (layered / interval-recursive / cyclic / convergent / structured / '
        'nonground family; real, boolean, min-plus, max-times or free-semiring weights) solved by one engine under one '
        'scheduler-chosen agenda order, priority function, rule order and set order; non-trivial = the reference '
        'solution has derived items and at least 3 agenda pops happened; distinct = hash of (workload, decision log)')
LIMIT = 20_000_000
STATE_MEASURE = 'hash of the sequence of (pop index, agenda length) of a run'
REAL = REAL_ENGINE
STUB = STUB_ENV + ['agenda pop order and priorities (scheduler)', 'iteration order of sets built by the engines']
ASSUMPTIONS = ['reference evaluator (naive T_P iteration, own matcher, own semirings) is correct',
               'programs stay inside the generator families']


def gen(rng):
    import gen as G
    if rng.random() < .22:
        S = rng.choice(['float', 'poly', 'minplus'])
        pr = S == 'float' and rng.random() < .5
        F, R, dom = G.nonground(rng, S, pr)
        c = {'fam': 'nonground', 'S': S, 'F': F, 'R': R, 'dom': dom, 'engine': 2, 'project': pr}
    elif rng.random() < .06:
        F, R = G.explosive(rng)
        c = {'fam': 'explosive', 'S': 'float', 'F': F, 'R': R, 'engine': rng.choice([1, 1, 2])}
    else:
        c = with_values(rng) if rng.random() < .1 else nontrivial_case(rng)
        c['engine'] = rng.choice([1, 1, 2])
    c['agenda'] = rng.choice(AGENDAS)
    c['prio'] = rng.random() < .6
    c['via'] = rng.choice(['program', 'data', 'text', 'call'])
    c['shuffle'] = rng.random() < .5
    c['sets'] = rng.random() < .5
    if c['via'] == 'program' and c['fam'] != 'nonground' and rng.random() < .3: c['dup'] = [rng.randrange(40)]
    c['qs'] = rng.randrange(1 << 30)
    return tame(c)


def run(c, ch, st):
    import random
    S = REF[c['S']]
    ng = c['fam'] == 'nonground'
    F, R = c['F'], c['R']
    if ng:
        check_ng(c)
        if c.get('project'):
            want = lang.solve_projected_ref(F + R, S, c['dom'])
            st.add('infinite-sums', sum(v == lang.INF for v in want.values()))
        else: want = lang.solve_nonground_ref(F + R, S, c['dom'])
    else:
        dup = [k % len(F + R) for k in c.get('dup', [])] if F + R else []
        want = ref_solution(c, R=R + [(F + R)[k] for k in dup])
    base = {lang.subst(f['h'], {}) for f in F}
    again = []
    if not ng: again = [(F + R)[k] for k in dup]      # rules the program holds twice, as the very same object
    if c['shuffle']: F, R = ch.shuffle(F), ch.shuffle(R)
    trace = []
    def on_pop(n, k):
        if n < 400: trace.append(k)
    kw = agenda_kwargs(c['agenda'], c['prio'], ch, st, on_pop)
    from contextlib import nullcontext
    from dyna import Program
    with (sched.set_order(ch) if c['sets'] else nullcontext()):
        Sd = lang.dyna_semiring(c['S'])
        via = c['via']
        if via == 'call' and ng:
            s = make_program(F + R, c['S'])(**kw)
        elif via == 'call':
            # the entry point that picks an engine on its own
            p = make_program(R, c['S'])
            s = p(lang.show_program(F), solver=(None if c['engine'] == 1 else 2), **kw)
        else:
            p = make_program((F + R) if via in ('program', 'call') else R, c['S'])
            if again: p = p + [p.rules[(F + R).index(r)] for r in again]
            s = (p.solver if c['engine'] == 1 else p.solver2)(**kw)
            if via == 'data': s(make_program(F, c['S']))
            elif via == 'text': s(lang.show_program(F))
            else: s()
        if getattr(s, 'interrupted', False):
            raise Violation('flag', 'an undisturbed run reports that it was interrupted')
        rng = random.Random(c['qs'])
        if ng:
            check_nonground(c, s, want, S, rng)
        else:
            check_chart('fixpoint', s.sol(), want, S)
            for q in query_terms(rng, want):
                check_query('query', s.user_query(build_query(q)), q, want, S)
    st.add('pops', getattr(s, 'pops', 0)); st.add(f'family.{c["fam"]}'); st.add(f'agenda.{c["agenda"]}')
    st.add(f'engine{c["engine"]}')
    if trace: st.state(trace)
    st.trivial = not any(k not in base for k in want) or getattr(s, 'pops', 9) < 3


def check_ng(c):
    for r in c['R']:
        gv = []
        for b in r['b']:
            if b[0] in ('d0', 'd1'): lang.tvars(b, gv)
        bv = []
        for b in r['b']: lang.tvars(b, bv)
        if any(v not in gv and v not in lang.tvars(r['h']) for v in bv) and not c.get('project'): raise Discard()
    for f in c['F']:
        if f['h'][0] in ('d0', 'd1') and lang.tvars(f['h']): raise Discard()


def check_nonground(c, s, want, S, rng):
    import itertools
    U = list(c['dom']) + [['zz']]
    preds = sorted({(r['h'][0], len(r['h']) - 1) for r in c['F'] + c['R']})
    for f, a in preds:
        for combo in itertools.islice(itertools.product(U, repeat=a), 16):
            q = [f] + list(combo)
            ans = s.user_query(build_query(q))
            v = S.zero
            for r in ans:
                v = S.plus(v, lang.RVAL(r.body, S))
            w = want.get(lang.subst(q, {}), S.zero)
            if not S.close(v, w):
                raise Violation('fixpoint', f'{lang.show(q)}: have {v}, want {w}')
