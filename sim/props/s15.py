"""S15: the symbolic evaluators agree with each other and the meaning, whole or truncated, in any order, side by side."""
import lang, gen, sched, faults
from common import *
from contextlib import nullcontext

WALL = {'quick': 40, 'thorough': 600}
BATCHES = {'quick': (16, 900), 'thorough': (64, 8000)}
LISTS = ('F', 'R', 'b', 'clients', 'faults')
PROTECT = ('h', 'form', 'dom')
LEVEL = 'fault_enumeration'
RULE = ('a run = one program object and 1-4 clients that evaluate it (one step, naive, seminaive, agenda, Newton, linear solve, instantiation; to the end, '
        'truncated after a number of rounds, or continued from a truncated result; some as generators that are advanced a step at a time), the scheduler '
        'choosing who runs, which pending change the agenda takes, rule and set order, and who is hit by Ctrl-C at which event and starts over; '
        'non-trivial = derivations of height 2 or more; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (form, rounds, size of the result, how it ended) of each client after each of its steps'
REAL = ['Program.step/fc/seminaive/agenda/newton/solve_linear/groundings/instantiate', 'streams, joins, lookup and copy pool', 'constant folding', 'builtins',
        'Kleene linear solver', 'program equality']
STUB = STUB_ENV + ['which pending change the agenda takes (scheduler)', 'who advances next (scheduler)', 'iteration order of sets (scheduler)']
ASSUMPTIONS = ['programs are range restricted and facts ground, except in the nonground family (ground queries)',
               'solve_linear only of programs with at most one subgoal per rule']
LIMIT = 12_000_000
FORMS = ['step', 'fc', 'semi', 'agenda', 'agenda', 'newton', 'linear', 'inst', 'fcgen', 'newtongen', 'ground', 'ground']


def linear_case(rng):
    "one subgoal per rule"
    S = rng.choice(['poly', 'float', 'minplus', 'bool', 'maxplus', 'maxtimes'])
    import gen as G
    w = G.W(rng, G.wmode({'maxplus': 'minplus'}.get(S, S)))
    cyc = S in ('minplus', 'bool', 'maxtimes')
    n = rng.randint(2, 4)
    dom = list(range(n))
    F = G.facts(rng, 'd0', rng.choice([1, 2]), rng.randint(1, 5), dom, w)
    a0 = len(F[0]['h']) - 1
    ar = {'d0': a0}
    R = []
    for i in range(rng.randint(1, 4)):
        name = f'p{i}'; ar[name] = rng.choice([0, 1, 2])
        for _ in range(rng.randint(1, 3)):
            q = rng.choice([k for k in ar if k != name or cyc])
            if q == name and not any(r['h'][0] == name for r in R): q = 'd0'
            args = [rng.choice(['X', 'Y', rng.choice(dom)]) for _ in range(ar[q])]
            body = [[q] + args]
            bound = lang.tvars(body[0])
            if bound and rng.random() < .25 and not cyc:
                body.append(['is', 'N', ['+', bound[0], 1]]); bound = bound + ['N']
            elif bound and rng.random() < .2:
                body.insert(rng.randrange(2), [rng.choice(['<', '>=']), bound[0], rng.choice(dom)])
            R.append({'h': [name] + [rng.choice(bound) if bound and rng.random() < .8 else rng.choice(dom) for _ in range(ar[name])],
                      'w': w() if rng.random() < .5 else None, 'b': body})
    rng.shuffle(R)
    return {'fam': 'linear', 'S': S, 'F': F, 'R': R}


def linear_nonground(rng):
    "one subgoal per rule; items that overlap, rules that drop variables and introduce new ones"
    import gen as G
    S = rng.choice(['float', 'float', 'poly', 'minplus'])
    pr = S == 'float'
    w = G.W(rng, 'pos' if pr else G.wmode(S))
    dom = [0, 1, 2][:rng.randint(1, 3)]
    F = G.facts(rng, 'd0', 2, rng.randint(1, 3), dom, w)
    ar = {'d0': 2}
    for i in range(rng.randint(1, 2)):
        ar[f'n{i}'] = a = rng.choice([1, 2, 2])
        for _ in range(rng.randint(1, 3)):
            F.append({'h': [f'n{i}'] + [rng.choice(['X', 'Y', 'X', rng.choice(dom)]) for _ in range(a)], 'w': w(), 'b': []})
    R = []
    for i in range(rng.randint(1, 4)):
        name = f'p{i}'; avail = list(ar); ar[name] = rng.choice([0, 1, 2, 2])
        for _ in range(rng.randint(1, 2)):
            q = rng.choice(avail)
            body = [q] + [rng.choice(['X', 'Y', 'X', rng.choice(dom)]) for _ in range(ar[q])]
            bound = lang.tvars(body)
            if pr or not bound: hv = [rng.choice(bound + ['H', rng.choice(dom)]) for _ in range(ar[name])]
            else:
                need = sorted(set(bound))
                if len(need) > ar[name]: continue
                hv = need + [rng.choice(bound + ['H', rng.choice(dom)]) for _ in range(ar[name] - len(need))]
                rng.shuffle(hv)
            R.append({'h': [name] + hv, 'w': w() if rng.random() < .5 else None, 'b': [body]})
    rng.shuffle(R)
    return {'fam': 'nonground', 'S': S, 'F': F, 'R': R, 'dom': dom, 'project': pr, 'linear': True}


def gen(rng):
    import gen as G
    x = rng.random()
    if x < .15:
        S = rng.choice(['float', 'poly', 'minplus'])
        pr = S == 'float' and rng.random() < .6
        F, R, dom = G.nonground(rng, S, pr)
        c = {'fam': 'nonground', 'S': S, 'F': F, 'R': R, 'dom': dom, 'project': pr}
        forms = ['fc', 'semi', 'agenda', 'fcgen', 'newton']
    elif x < .23:
        c = linear_nonground(rng)
        forms = ['linear', 'linear', 'linear', 'newton', 'agenda', 'semi']
    elif x < .27:
        F, R = G.explosive(rng)
        c = {'fam': 'explosive', 'S': 'float', 'F': F, 'R': R}
        forms = ['fc', 'semi', 'agenda', 'agenda', 'fcgen', 'step']
    elif x < .42:
        c = linear_case(rng)
        forms = ['linear', 'linear', 'newton'] + FORMS
    else:
        c = nontrivial_case(rng, size=60)
        if rng.random() < .15: c = with_values(rng, 60)
        if c['S'] == 'minplus' and c['fam'] != 'cyclic' and rng.random() < .4: c['S'] = 'maxplus'
        forms = [f for f in FORMS if f != 'linear']
    c['clients'] = [{'form': rng.choice(forms), 'T': rng.choice([None, None, 0, 1, 2, 3, 4]), 'more': rng.random() < .5}
                    for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    c['shuffle'] = rng.random() < .5
    c['sets'] = rng.random() < .3
    c['rand'] = rng.random() < .7 and c['fam'] != 'convergent'
    c['faults'] = [rng.choice(['kill', 'kill', 'close', 'throw']) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    return c


class popseam:
    "the agenda takes the pending change that the scheduler names, instead of the first"
    def __init__(self, ch, on): self.ch, self.on = ch, on
    def __enter__(self):
        from dyna import Program
        self.P = Program; self.real = Program.pop
        ch, real = self.ch, self.real
        if self.on:
            def pop(p, i):
                if i == 0 and len(p) > 1: i = ch.choose(min(len(p), 12))
                return real(p, i)
            Program.pop = pop
    def __exit__(self, *a):
        self.P.pop = self.real


class Iterates:
    "T_P^k of the empty chart"
    def __init__(self, rules, S, exact):
        self.rules, self.S = rules, S
        self.b = lang.Budget(300_000)
        self.xs = [{}]
    def __getitem__(self, k):
        while len(self.xs) <= k: self.xs.append(lang.tp(self.rules, self.xs[-1], self.S, self.b))
        return self.xs[k]


def nonneg(c):
    return all((r.get('w') is None or not isinstance(r['w'], (int, float)) or r['w'] >= 0) for r in c['F'] + c['R'])


def run(c, ch, st):
    S = REF[c['S']]
    ng = c['fam'] == 'nonground'
    rules = c['F'] + c['R']
    if not c['clients'] or not rules: raise Discard()
    exact = c['fam'] != 'convergent'
    if ng:
        from props.s01 import check_ng, check_nonground
        check_ng(c)
        if c.get('project'):        # rules that drop variables: sums of infinitely many terms
            want = lang.solve_projected_ref(rules, S, c['dom'])
            st.add('infinite-sums', sum(v == lang.INF for v in want.values()))
        else: want = lang.solve_nonground_ref(rules, S, c['dom'])
    else:
        want = lang.solve_ref(rules, S, exact=exact)
    its = Iterates(rules, S, exact)
    order = ch.shuffle(rules) if c['shuffle'] else rules
    p = make_program(order, c['S'])
    before = p.plaintext()
    lin = c['fam'] in ('linear', 'nonground') and all(sum(b[0] not in lang.BUILTIN for b in r['b']) <= 1 for r in rules)
    partial = nonneg(c)
    st.trivial = not want or (not ng and its[1].keys() == want.keys())
    st.add(f'family.{c["fam"]}'); st.add(f'semiring.{c["S"]}')
    import random
    rng = random.Random(7)

    def chart(q, what):
        try: return lang.chart_of(q, S)
        except lang.NonGround as e: raise Violation('nonground', f'{what}: nonground item {e}')

    def same(q, w, what):
        faults.disarm()           # the evaluation is over; asking the checker's questions is not part of it
        if ng:
            class P:       # same interface as a solver
                user_query = staticmethod(q.user_query)
            return check_nonground(c, P, w, S, rng)
        d = lang.diff_charts(chart(q, what), w, S)
        if d: raise Violation('value', f'{what}: (kind, item, have, want) {fmt(d)}')

    def below(q, what, lower=None):
        faults.disarm()
        if not partial or ng: return
        have = chart(q, what)
        bad = [k for k in have if not leq(have[k], want.get(k, S.zero))]
        if bad: raise Violation('unsound', f'{what}: {bad[0]} is {have[bad[0]]}, more than {want.get(bad[0])}')
        if lower is not None:
            bad = [k for k in lower if not leq(lower[k], have.get(k, S.zero))]
            if bad: raise Violation('lost', f'{what}: {bad[0]} is {have.get(bad[0])}, less than {lower[bad[0]]}')

    def leq(a, b): return S.le(a, b) or S.close(a, b)

    def facts_of(x):
        return make_chart(x, c['S'])

    def atend(cl, what): st.state((cl['form'], cl['T'], len(want), what))

    # reference ground instances of the rules against a chart
    def firings(x):
        ix = {}
        for it, v in x.items(): ix.setdefault((it[0], len(it) - 1), []).append((it, v))
        out = []
        for i, r in enumerate(order):
            s = {}
            for vals in lang.firings(r['b'], ix, s, its.b):
                v = S.one
                for y in vals: v = S.times(v, y)
                out.append((i, lang.subst(r['h'], s), v if r.get('w') is None else S.times(S.lift(r['w'], lang.subst(r['h'], s)), v)))
        return out

    def whole(cl):
        "an evaluation that is one call"
        f, T = cl['form'], cl['T']
        what = f'{f}(T={T})'
        if f == 'step':
            k = T or 0
            if ng: raise Discard()
            got = p.step(facts_of(its[k]))
            same(got, its[k + 1], f'step of iterate {k}')
        elif f in ('fc', 'semi'):
            if T is None: got = p.fc() if f == 'fc' else p.seminaive()
            else: got = p.fc(max_iter=T) if f == 'fc' else p.seminaive(T)
            if T is not None and ng: pass
            else: same(got, want if T is None else its[T], what)
            if T is not None and cl['more'] and f == 'fc': same(p.fc(chart=got), want, f'fc continued after {T} rounds')
        elif f == 'agenda':
            if T is None:
                got = p.agenda(precision=None if exact else 12); same(got, want, what)
            else: below(p.agenda(precision=None, max_iter=T * 2), what)
        elif f == 'newton':
            if T is None: same(p.newton(), want, what)
            else: below(p.newton(T=max(T, 1)), what, its[max(T, 1)])
        elif f == 'linear':
            if not lin: raise Discard()
            same(p.solve_linear(), want, what)
        elif f == 'inst':
            G = p.instantiate(facts_of(want))
            got = sorted((lang.to_ground(r.head) for r in G), key=str)
            exp = sorted((h for _, h, _ in firings(want)), key=str)
            if got != exp: raise Violation('instances', f'instantiate: {diff(got, exp)}')
            same(G.seminaive() if cl['more'] else G.agenda(precision=None if exact else 12), want, 'solution of the instantiated program')
        atend(cl, 'done')

    def diff(got, exp):
        from collections import Counter
        a, b = Counter(map(str, got)), Counter(map(str, exp))
        return f'missing {list((b - a).elements())[:3]} extra {list((a - b).elements())[:3]}'

    class Gen:
        def __init__(self, cl): self.cl = cl; self.it = None; self.restart()
        def restart(self): self.it = None; self.k = 0; self.got = []; self.last = None
        def advance(self):
            cl = self.cl; f = cl['form']
            if self.it is None:
                self.k = 0; self.got = []; self.last = None
                if f == 'fcgen': self.it = p._fc()
                elif f == 'newtongen': self.it = p._newton()
                else:
                    self.base = want if cl['T'] is None or ng else its[cl['T']]
                    self.chart = facts_of(self.base)
                    self.it = p.groundings(self.chart)
            try: x = next(self.it)
            except StopIteration:
                if f == 'fcgen':
                    same(self.last, want, 'last of the naive iterates')
                elif f == 'ground':
                    exp = firings(self.base)
                    if len(exp) != len(self.got) or sorted(map(str, [e[:2] for e in exp])) != sorted(map(str, [g[:2] for g in self.got])):
                        raise Violation('groundings', f'groundings: {diff([g[:2] for g in self.got], [e[:2] for e in exp])}')
                    key = lambda e: str(e[:2])
                    tot = {}
                    for g in self.got: tot[key(g)] = S.plus(tot[key(g)], g[2]) if key(g) in tot else g[2]
                    for e in exp:
                        tw = S.zero
                        for e2 in exp:
                            if key(e2) == key(e): tw = S.plus(tw, e2[2])
                        if not S.close(tot[key(e)], tw): raise Violation('groundings', f'value of the instances {key(e)}: {tot[key(e)]}, want {tw}')
                return True
            if f == 'fcgen':
                if not ng: same(x, its[self.k], f'naive iterate {self.k}')
                self.last = x
            elif f == 'newtongen':
                t, _, _, _, nxt = x
                if t != self.k + 1: raise Violation('count', f'Newton iterate {t} after {self.k}')
                below(nxt, f'Newton iterate {t}', its[t])
                if self.last is not None and nxt == self.last:
                    same(nxt, want, 'converged Newton iterate')
                    return True
                self.last = nxt
            else:
                i, r, v = x
                if r.i != i: raise Violation('groundings', f'grounding of rule {i} says it is of rule {r.i}')
                self.got.append((i, lang.to_ground(r.head), lang.RVAL(v, S)))
            self.k += 1
            st.state((f, self.k, len(self.got)))
            return False

    fl = list(c['faults'])
    live = [Gen(cl) if cl['form'] in ('fcgen', 'newtongen', 'ground') else cl for cl in c['clients']]
    for cl in c['clients']: st.add(f'form.{cl["form"]}')
    steps = 0
    with (sched.set_order(ch) if c['sets'] else nullcontext()), popseam(ch, c['rand']):
        while live:
            steps += 1
            if steps > 4000: raise Discard()
            x = ch.pick(live)
            fault = fl.pop() if fl and ch.flip(1, 4) else None
            try:
                if isinstance(x, Gen):
                    if fault == 'close' and x.it is not None: st.add('fault.close'); x.it.close(); x.restart(); continue
                    if fault == 'throw' and x.it is not None:
                        st.add('fault.throw')
                        try: x.it.throw(ZeroDivisionError('client'))
                        except (ZeroDivisionError, StopIteration): pass
                        x.restart(); continue
                    if fault: faults.arm_kill(1 + ch.choose(300) if ch.flip(2, 3) else 1 + ch.choose(5000))
                    for _ in range(1 + ch.choose(3)):
                        if x.advance(): live.remove(x); break
                else:
                    if fault: faults.arm_kill(1 + ch.choose(600) if ch.flip(1, 3) else 1 + ch.choose(20000))
                    whole(x)
                    live.remove(x)
            except KeyboardInterrupt:
                st.add('fault.ctrl-c')
                if isinstance(x, Gen): x.restart()
            finally:
                faults.disarm()
    if p.plaintext() != before: raise Violation('damage', f'the program changed: {before} -> {p.plaintext()}')


def make_chart(x, Sname):
    from dyna import Program, Rule
    D = lang.dyna_semiring(Sname)
    rules = [Rule(build_term(lang._unfreeze(it), {}), lift(v, Sname)) for it, v in x.items()]
    return Program(rules, semiring=D) if D is not None else Program(rules)


def lift(v, Sname):
    D = lang.dyna_semiring(Sname)
    if D is None or Sname == 'float': return v
    return D(v)
