"""S02: data may arrive in any batches, in any order, interleaved with solving and querying."""
import random
import lang, gen, sched
from common import *

WALL = {'quick': 45, 'thorough': 900}
BATCHES = {'quick': (16, 500), 'thorough': (96, 5000)}
LISTS = ('F', 'R', 'b', 'ops', 'batch')
PROTECT = ('h', 'q', 'dom')
RULE = ('a run = a history of 3-10 client operations (load a batch, push single updates, solve, query, retract) on one '
        'long-lived solver, with scheduler-chosen agenda order; every solve/query is compared with the reference solution of '
        'the data that has arrived so far; non-trivial = at least two batches with a solve or query in between')
STATE_MEASURE = 'hash of (operation kinds so far, number of facts present, size of the answer) after each operation'
REAL = REAL_ENGINE
STUB = STUB_ENV + ['agenda pop order and priorities (scheduler)']
ASSUMPTIONS = ['reference evaluator is correct']


def gen(rng):
    ng = rng.random() < .15
    if ng:
        import gen as G
        F, R, dom = G.nonground(rng, S := rng.choice(['float', 'poly', 'minplus']))
        c = {'fam': 'nonground', 'S': S, 'F': F, 'R': R, 'dom': dom, 'engine': 2}
    else:
        c = nontrivial_case(rng)
        c['engine'] = rng.choice([1, 1, 2])
    fs = list(range(len(c['F'])))
    rng.shuffle(fs)
    can_retract = c['S'] == 'float' and c['fam'] in ('layered', 'interval', 'structured')
    ops = []
    present = []
    start = []
    if rng.random() < .3:      # some data is part of the program itself
        k = rng.randint(0, len(fs)); start, fs = fs[:k], fs[k:]
        present += start
    while fs or not ops:
        x = rng.random()
        if fs and x < .45:
            k = rng.randint(1, len(fs))
            ops.append({'op': rng.choice(['call', 'text', 'load', 'load']), 'batch': fs[:k]})
            present += fs[:k]; fs = fs[k:]
        elif fs and x < .65:
            ops.append({'op': 'update', 'batch': fs[:1]}); present += fs[:1]; fs = fs[1:]
        elif x < .78: ops.append({'op': 'solve'})
        elif can_retract and present and x < .88:
            j = rng.choice(present); present.remove(j)
            ops.append({'op': 'retract', 'batch': [j]})
            if rng.random() < .5: fs.append(j)
        else:
            q = rng.choice(c['R'] + c['F'])['h']
            ops.append({'op': 'query', 'q': [q[0]] + [f'Q{i}' for i in range(len(q) - 1)]})
        if len(ops) > 12: break
    if fs: ops.append({'op': 'call', 'batch': fs})
    c.update(ops=ops, start=start, agenda=rng.choice(AGENDAS), prio=rng.random() < .6,
             sets=rng.random() < .3)
    return tame(c)


def run(c, ch, st):
    from contextlib import nullcontext
    S = REF[c['S']]
    ng = c['fam'] == 'nonground'
    F = c['F']
    if ng:
        from props import s01
        s01.check_ng(c)
    with (sched.set_order(ch) if c['sets'] else nullcontext()):
        have = [F[i] for i in c['start'] if i < len(F)]
        p = make_program(have + c['R'], c['S'])
        kw = agenda_kwargs(c['agenda'], c['prio'], ch, st)
        s = (p.solver if c['engine'] == 1 else p.solver2)(**kw)
        solves = 0; loads = 0

        def reference():
            if ng: return lang.solve_nonground_ref(have + c['R'], S, c['dom'])
            w = ref_solution(c, F=have)
            if any(isinstance(v, (int, float)) and abs(v) > 1e12 and v != lang.INF for v in w.values()): raise Discard()
            return w

        def verify(what):
            want = reference()
            if ng:
                from props import s01
                s01.check_nonground({**c, 'F': have}, s, want, S, random.Random(0))
            else:
                check_chart('incremental', s.sol(), want, S, what)
            st.state((what[:12], len(have), len(want)))

        for k, op in enumerate(c['ops']):
            o = op['op']
            batch = [F[i] for i in op.get('batch', ()) if i < len(F)]
            if o == 'retract':
                batch = [dict(f, w=-f['w']) for f in batch]
                if c['S'] != 'float': raise Discard()
            st.add(f'op.{o}')
            if o in ('call', 'text', 'load', 'retract'):
                if not batch: continue
                data = make_program(batch, c['S']) if o != 'text' else lang.show_program(batch)
                if o == 'load' or (o == 'retract' and ch.flip(1, 2)): s.load_data(data)
                else:
                    s(data)
                    have = have + batch; solves += 1; loads += 1
                    verify(f'{k}:{o}')
                    continue
                have = have + batch; loads += 1
            elif o == 'update':
                for f in batch:
                    r = make_program([f], c['S'], text=False).rules[0]
                    v = s.one
                    for y in r.body: v = v * y
                    s.update(r.head, v)
                    have = have + [f]; loads += 1
            elif o == 'solve':
                s(); solves += 1
                verify(f'{k}:{o}')
            else:
                q = op['q']
                if ng: s(); verify(f'{k}:{o}')
                else:
                    ans = s.user_query(build_query(q))
                    check_query('incremental', ans, q, reference(), S)
                    if ch.flip(1, 2): verify(f'{k}:{o}')
                solves += 1
        s()
        verify('final')
        if s.interrupted: raise Violation('flag', 'an undisturbed history reports that it was interrupted')
    st.trivial = not (loads >= 2 and solves >= 1)
