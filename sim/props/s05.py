"""S05: lazy query streams: interleaving, abandonment and cancellation do not disturb anybody."""
import lang, gen, faults
from common import *
from lang import mgu, resolve, rename, canon, of_dyna, isvar
from interrupt import EVENTS

WALL = {'quick': 45, 'thorough': 600}
BATCHES = {'quick': (16, 700), 'thorough': (64, 6000)}
LISTS = ('rules', 'clients', 'qs', 'ops', 'b', 'F', 'R')
PROTECT = ('h', 'form')
LEVEL = 'fault_enumeration'
RULE = ('a run = 2-5 clients holding lazy query streams (rule lookup, joins, guards, charts of both engines) over one shared program; the '
        'scheduler decides who advances, who is closed, dropped, hit by an exception or by Ctrl-C inside a step, and who re-opens; '
        'non-trivial = two streams were open and suspended at an answer at the same time; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (form, answers so far, open/suspended) of all clients after each step'
REAL = ['terms, variables, unification', 'program rule lookup and copy pool', 'streams, joins, guards', 'charts and indexes of both engines']
STUB = STUB_ENV + ['who advances next (scheduler)']
ASSUMPTIONS = ['clients use their own query variables; the program is not modified while streams are open',
               'interrupts arrive where CPython polls for signals']

VARS = ['X', 'Y', 'Z']


def rterm(rng, depth=0, vs=VARS):
    x = rng.random()
    if x < .45: return rng.choice(vs)
    if x < .8 or depth > 1: return rng.choice([0, 1, 2, ['a'], ['b'], {'s': 'a'}])
    if x < .92: return ['f', rterm(rng, depth + 1, vs)]
    return ['g', rterm(rng, depth + 1, vs), rterm(rng, depth + 1, vs)]


PRED = {'r0': 2, 'r1': 1, 'r2': 2, 'r3': 0, 'r4': 3}


def ratom(rng, vs=VARS, preds=None):
    p = rng.choice(preds or list(PRED))
    return [p] + [rterm(rng, 0, vs) for _ in range(PRED[p])]


def gen(rng):
    preds = rng.sample(list(PRED), rng.randint(1, 3))
    rules = []
    for _ in range(rng.randint(2, 7)):
        rules.append({'h': ratom(rng, preds=preds), 'w': rng.randint(2, 9) if rng.random() < .6 else None,
                      'b': [ratom(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))]})
    clients = []
    base = None
    for _ in range(rng.randint(2, 5)):
        form = rng.choice(['vals', 'vals', 'rules', 'join', 'join', 'jgen', 'guard', 'solver1', 'solver2', 'store'])
        if form.startswith('solver'):
            if base is None: base = nontrivial_case(rng, families=('layered', 'interval', 'structured'), semirings=['float'], size=120)
            h = rng.choice(base['R'] + base['F'])['h']
            q = [h[0]] + [(rng.choice(VARS) if rng.random() < .7 else a if not lang.tvars(a) else ['f', 'X']) for a in h[1:]]
            clients.append({'form': form, 'qs': [q], 'g': []})
            continue
        n = 1 if form in ('vals', 'rules') else rng.choice([1, 2, 2, 3])
        qs = []
        for _ in range(n):
            x = rng.random()
            if x < .04 and form == 'rules': q = 'X'
            elif x < .12: q = ['=', rterm(rng), rterm(rng)]
            elif x < .2: q = [rng.choice(['<', '>=', '!=']), rng.choice(['X', 0, 1]), rng.choice(['Y', 1, 2])]
            elif x < .6:
                h = rng.choice(rules)['h']       # close to some head
                q = [h[0]] + [(a if rng.random() < .5 else rterm(rng)) for a in h[1:]]
            else: q = ratom(rng, preds=preds)
            qs.append(q)
        clients.append({'form': form, 'qs': qs, 'g': [rterm(rng), rterm(rng)]})
    return {'rules': rules, 'clients': clients, 'base': base, 'steps': rng.randint(8, 60),
            'faults': rng.choice(['none', 'close', 'all', 'all'])}


# --- reference ----------------------------------------------------------------
_n = [0]
def answers(c, q, s):
    "[(substitution, body, rule index)] for one subgoal"
    q = lang.resolve(q, s)
    if isvar(q):
        return [x for i, r in enumerate(c['rules']) for x in rule_answer(r, i, q, s)]
    f = q[0]
    if f == '=':
        s2 = mgu(q[1], q[2], s)
        return [] if s2 is None else [(s2, [1], None)]
    if f in lang.CMPS:
        x, y = q[1], q[2]
        if lang.is_ground(x) and lang.is_ground(y):
            if not (isinstance(x, int) and isinstance(y, int)):
                if f != '!=': raise Discard()
                if isinstance(x, int) != isinstance(y, int) or isinstance(x, dict) != isinstance(y, dict): raise Discard()
            return [(s, [1], None)] if lang.CMPS[f](x, y) else []
        return [(s, [q], None)]
    return [x for i, r in enumerate(c['rules']) for x in rule_answer(r, i, q, s)]


def rule_answer(r, i, q, s):
    _n[0] += 1
    t = _n[0]
    s2 = mgu(rename(r['h'], t), q, s)
    if s2 is None: return
    w = [] if r.get('w') is None else [r['w']]
    yield s2, w + [rename(b, t) for b in r['b']], i


def join_answers(c, qs, s):
    if not qs: return [(s, [])]
    return [(s2, b + b2) for s1, b, _ in answers(c, qs[0], s) for s2, b2 in join_answers(c, qs[1:], s1)]


def canon_answer(qvars, body, extra=()):
    m = {}
    q = tuple(canon(x, m) for x in qvars)
    return (q, tuple(y for y in (canon(x, m) for x in body) if y != 1 or isinstance(y, bool)), extra)


def reference(c, k, charts):
    form, qs = k['form'], k['qs']
    if form.startswith('solver'):
        out = []
        [q] = qs
        for item, v in charts['ref'].items():
            s = {}
            if lang.match(q, item, s) is not None:
                out.append((tuple(lang.freeze(s[x]) if x in s else None for x in lang.tvars(q)), round(float(v), 6)))
        return out
    qv = []
    for q in qs: lang.tvars(q, qv)
    out = []
    if form == 'rules':
        for s, b, i in answers(c, qs[0], {}):
            out.append(canon_answer([resolve(v, s) for v in qv], [resolve(x, s) for x in b], i))
        return out
    s0 = {}
    pre = []
    if form == 'guard':
        for g in k['g']: lang.tvars(g, qv)
        s0 = mgu(k['g'][0], k['g'][1], {})
        pre = [7]
        if s0 is None: return []
    for s, b in join_answers(c, qs, s0):
        out.append(canon_answer([resolve(v, s) for v in qv], pre + [resolve(x, s) for x in b]))
    return out


# --- the clients ----------------------------------------------------------------
class Client:
    def __init__(self, c, k, p, solvers, want, rt):
        self.c, self.k, self.p, self.solvers = c, k, p, solvers
        self.form = k['form']
        vs = {}
        self.terms = [build_term(q, vs) for q in k['qs']]
        self.guard = [build_term(g, vs) for g in k['g']] if self.form == 'guard' else []
        qv = []
        for q in k['qs'] + (k['g'] if self.form == 'guard' else []): lang.tvars(q, qv)
        self.vars = [vs[v] for v in qv]
        self.want = want
        self.rt = rt
        self.it = None; self.got = []; self.cur = None; self.stream = None
        self.opened = 0

    def open(self):
        from dyna.term import Constant, I, Product
        from dyna import Program
        f, t, p = self.form, self.terms, self.p
        self.got = []; self.cur = None; self.opened += 1
        if f == 'vals': self.it = p.lookup_vals(t[0])
        elif f == 'rules': self.it = p.lookup(t[0])
        elif f == 'join':
            if self.stream is None: self.stream = p[tuple(t)]
            self.it = iter(self.stream)          # re-iterable: the second pass must give the same answers
        elif f == 'jgen': self.it = p.join(*t)
        elif f == 'guard':
            if self.stream is None: self.stream = I(self.guard[0], self.guard[1], Product([7])) * p[tuple(t)]
            self.it = iter(self.stream)
        elif f == 'store': self.it = self.store()
        else: self.it = self.solvers[f].lookup_vals(t[0])

    def store(self):
        "a join implemented by nested for loops in client code"
        def rec(ts):
            from dyna.term import Product
            if not ts: yield Product(); return
            for x in self.p[ts[0]]:
                for y in rec(ts[1:]): yield x * y
        yield from rec(self.terms)

    def read(self, x):
        if self.form.startswith('solver'):
            return (tuple(lang.to_ground(v) for v in self.vars), round(float(x), 6))
        if self.form == 'rules':
            return canon_answer([of_dyna(v) for v in self.vars], [of_dyna(b) for b in x.body], getattr(x, 'i', None))
        return canon_answer([of_dyna(v) for v in self.vars], [of_dyna(b) for b in x])

    def step(self):
        try:
            self.raw = next(self.it)
        except StopIteration:
            self.it = None; self.cur = None; self.raw = None
            return False
        try: self.cur = self.read(self.raw)
        except lang.NonGround: raise Violation('answer', f'{self} delivered an answer that does not bind the query')
        if self.form.startswith('solver') and abs(self.cur[1]) < 1e-6: return True    # an item whose value cancelled to zero
        self.got.append(self.cur)
        return True

    def __str__(self): return f'{self.form}({", ".join(lang.show(q) for q in self.k["qs"])})'

    def check_free(self, when):
        for v in self.vars:
            if v.is_bound(): raise Violation('bound', f'{self}: variable {v.name} is still bound after {when}')


def multiset(xs):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return d


def sub(a, b):
    a, b = multiset(a), multiset(b)
    return {k: (v, b.get(k, 0)) for k, v in a.items() if v > b.get(k, 0)}


def run(c, ch, st):
    from dyna import Program
    p = make_program(c['rules'], 'float', text=False)
    before = [canon(of_dyna(r)) for r in p.rules]
    solvers, charts = {}, {}
    if c['base'] is not None and any(k['form'].startswith('solver') for k in c['clients']):
        b = c['base']
        charts['ref'] = ref_solution(b)
        if any(abs(v) > 1e12 for v in charts['ref'].values()): raise Discard()     # integers stay exact
        for k in c['clients']:
            if k['form'] == 'solver1' and 'solver1' not in solvers: solvers['solver1'] = make_program(b['F'] + b['R'], 'float')(solver=1)
            if k['form'] == 'solver2' and 'solver2' not in solvers: solvers['solver2'] = make_program(b['F'] + b['R'], 'float')(solver=2)
    clients = []
    for k in c['clients']:
        if not k['qs']: raise Discard()
        if k['form'].startswith('solver') and c['base'] is None: raise Discard()
        want = reference(c, k, charts)
        if len(want) > 400: raise Discard()
        clients.append(Client(c, k, p, solvers, want, None))
    if not clients: raise Discard()
    overlap = 0
    kills = 0
    for n in range(c['steps']):
        a = clients[ch.choose(len(clients))]
        op = 'next'
        if a.it is None: op = 'open'
        elif c['faults'] != 'none' and ch.flip(1, 6):
            op = ch.pick(['close', 'drop'] if c['faults'] == 'close' else ['close', 'drop', 'throw', 'kill', 'kill'])
        st.add(f'op.{op}'); st.add(f'form.{a.form}') if op == 'open' else None
        if op == 'open': a.open(); continue
        if op == 'next':
            if a.step():
                bad = sub(a.got, a.want)
                if bad: raise Violation('answer', f'{a}: {fmt(list(bad.items()))} (have, want) after {len(a.got)} answers')
            else:
                bad = sub(a.want, a.got)
                if bad: raise Violation('answer', f'{a}: exhausted without {fmt(list(bad.items()))} (want, have)')
                a.check_free('the stream was exhausted')
        elif op == 'close':
            a.it.close(); a.it = None; a.cur = None; a.raw = None
            a.check_free('the stream was closed'); st.add('fault.close')
        elif op == 'drop':
            a.it = None; a.cur = None; a.raw = None
            a.check_free('the stream was dropped'); st.add('fault.drop')
        elif op == 'throw':
            class Boom(Exception): pass
            try: a.it.throw(Boom())
            except Boom: pass
            except StopIteration: pass
            else: raise Violation('throw', f'{a}: swallowed an exception')
            a.it = None; a.cur = None; a.raw = None
            a.check_free('an exception in the consumer'); st.add('fault.throw')
        elif op == 'kill':
            k0 = EVENTS.kills
            faults.arm_kill(1 + ch.choose(24))
            try:
                ok = a.step()
            except KeyboardInterrupt:
                ok = None
            faults.disarm()
            if EVENTS.kills > k0:
                kills += 1; st.add('fault.ctrl-c')
                if ok is not None: raise Violation('swallowed', f'{a}: Ctrl-C disappeared inside the stream')
                a.it = None; a.cur = None; a.raw = None
                a.check_free('Ctrl-C')
            elif ok:
                bad = sub(a.got, a.want)
                if bad: raise Violation('answer', f'{a}: {fmt(list(bad.items()))} (have, want)')
            else:
                bad = sub(a.want, a.got)
                if bad: raise Violation('answer', f'{a}: exhausted without {fmt(list(bad.items()))}')
                a.check_free('the stream was exhausted')
        susp = 0
        for b in clients:
            if b.cur is not None:
                susp += 1
                if b is not a and b.it is not None:
                    again = b.read(b.raw)
                    if again != b.cur: raise Violation('disturbed', f'the answer {b.cur} of {b} turned into {again} when {a} did {op}')
        overlap += susp > 1
        st.state(tuple((b.form, len(b.got), b.cur is not None) for b in clients))
    for b in clients:
        if b.it is not None: b.it.close(); b.it = None
        b.check_free('everything was closed')
    after = [canon(of_dyna(r)) for r in p.rules]
    if before != after: raise Violation('damage', f'the program changed: {before} -> {after}')
    for k, a in zip(c['clients'], clients):
        z = Client(c, k, p, solvers, a.want, None); z.open()
        while z.step():
            if len(z.got) > len(z.want): break
        if multiset(z.got) != multiset(z.want):
            raise Violation('answer', f'{z}: afterwards answers {fmt(z.got)}; expected {fmt(z.want)}')
    st.add('probe.overlap', overlap)
    st.trivial = not overlap
