"""S09: every derivation enumerator yields each proof exactly once, in any order, under any interleaving."""
import lang, gen, sched, faults
from common import *
from interrupt import EVENTS
from contextlib import nullcontext

WALL = {'quick': 40, 'thorough': 600}
BATCHES = {'quick': (16, 700), 'thorough': (64, 6000)}
LISTS = ('F', 'R', 'b', 'clients', 'faults')
PROTECT = ('h', 'form')
LEVEL = 'fault_enumeration'
RULE = ('a run = one program and 1-4 clients enumerating its proofs (naive, seminaive, work-list driven, top-down), the scheduler choosing who '
        'advances, which pending proof the work list extends next, set orders, and who is closed, hit by an exception or by Ctrl-C inside a step '
        'and starts over; non-trivial = some proof has height 3 or more, or an item has several proofs; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (form, proofs so far, work-list length, how it ended) of each client'
REAL = ['Derivation, naive/seminaive/agenda/SLD enumerators', 'program joins, lookup and copy pool', 'terms, unification', 'builtins (naive and top-down)']
STUB = STUB_ENV + ['order in which the work list is popped (scheduler)', 'who advances next (scheduler)']
ASSUMPTIONS = ['programs are range restricted and facts ground', 'builtins only with the naive and top-down enumerators (the others document that they lack them)',
               'top-down enumeration only of programs without recursion']
MAXT = 70
LIMIT = 10_000_000


def gen(rng):
    fam = rng.choice(['layered', 'layered', 'interval', 'interval', 'cyclic', 'structured'])
    c = nontrivial_case(rng, (fam,), ['poly', 'float', 'minplus', 'bool'], size=80)
    if rng.random() < .3 and c['R']:
        c['R'].append(dict(rng.choice(c['R'])))          # identical rules are different proofs
    if rng.random() < .3:
        c['F'].append(dict(rng.choice(c['F'])))
    want = sorted(ref_solution(c), key=str)
    if not want: raise Discard()
    forms = ['naive', 'semi', 'agenda', 'agenda', 'agenda'] + ['sld'] * (3 if fam == 'layered' else 0)
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        it = rng.choice(want)
        q = [it[0]] + [(rng.choice(['X', 'Y', 'Z']) if rng.random() < .6 else lang._unfreeze(a)) for a in it[1:]]
        clients.append({'form': rng.choice(forms), 'q': q, 'T': rng.randint(1, 6)})
    c['clients'] = clients
    c['sets'] = rng.random() < .2
    c['rand'] = rng.random() < .7
    c['faults'] = [rng.choice(['kill', 'kill', 'close', 'throw', 'drop']) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    c['probe'] = [[r['h'] for r in c['R'] + c['F']][rng.randrange(len(c['R']) + len(c['F']))][0]]
    return c


# --- reference ------------------------------------------------------------------
def rules_of(p):
    out = []
    for r in p:
        body = []
        for b in r.body:
            j = lang.of_dyna(b)
            body.append(j if isinstance(j, list) else ('c', repr(b)))
        out.append((lang.of_dyna(r.head), body))
    return out


def is_b(b): return isinstance(b, list) and b[0] in lang.BUILTIN


def extend(rules, trees):
    "all trees with subtrees from `trees` ({item: set of trees})"
    out = {}
    n = 0
    ix = {}
    for it in trees: ix.setdefault((it[0], len(it) - 1), []).append((it, (it,)))
    budget = lang.Budget(20000)
    for i, (h, body) in enumerate(rules):
        pats = [b for b in body if isinstance(b, list)]
        s = {}
        for vals in lang.firings(pats, ix, s, budget):
            items = [v[0] for v in vals] if vals else []
            head = lang.subst(h, s)
            if not lang.is_ground(head): raise Discard()
            kids = [()]
            it = iter(items)
            for b in body:
                if isinstance(b, tuple): opts = [b]
                elif is_b(b): opts = [('b',)]
                else: opts = trees[next(it)]
                kids = [k + (o,) for k in kids for o in opts]
                budget.use(len(kids))
            for k in kids:
                n += 1
                out.setdefault(head, set()).add(('d', i, head, k))
    if n > MAXT: raise Discard()
    return out


def reference(rules, T):
    "trees of height <= T, and whether that is all of them"
    trees = {}
    for _ in range(T):
        new = extend(rules, trees)
        if new == trees: return trees, True
        trees = new
    return trees, False


def valid(t, rules, seen):
    "is t a proof according to the rules?"
    if t in seen: return True
    tag, i, head, kids = t
    if not (0 <= i < len(rules)): return False
    h, body = rules[i]
    if len(body) != len(kids): return False
    s = {}
    late = []
    for b, k in zip(body, kids):
        if isinstance(b, tuple):
            if k != b: return False
        elif is_b(b):
            if k != ('b',): return False
            late.append(b)
        else:
            if k[0] != 'd' or lang.match(b, k[2], s) is None or not valid(k, rules, seen): return False
    ok = False
    for _ in lang.firings(late, {}, s, lang.Budget(1000)):
        if lang.subst(h, s) == head: ok = True
    if ok: seen.add(t)
    return ok


def height(t): return 1 + max([0] + [height(k) for k in t[3] if k[0] == 'd'])
def size(t): return 1 + sum(size(k) for k in t[3] if k[0] == 'd')


# --- what dyna says --------------------------------------------------------------
def tree(d):
    from dyna.derivations import Derivation
    from dyna import Program
    if not isinstance(d, Derivation): return ('c', repr(lang_snap(d)))
    if Program.is_builtin(d.head): return ('b',)
    return ('d', d.i, lang.to_ground(d.head), tuple(tree(x) for x in d.body))


def lang_snap(x):
    from dyna.term import snap
    return snap(x)


class SimList(list):
    "the work list of the agenda-driven enumerator; pop(0) takes an element of the scheduler's choice"
    ch = None
    def pop(self, i=-1):
        if i == 0 and SimList.ch is not None and len(self) > 1: i = SimList.ch.choose(min(len(self), 12))
        return list.pop(self, i)


class _M(type):
    def __instancecheck__(cls, x): return isinstance(x, list)
    def __call__(cls, *a): return SimList(*a)
class ListSeam(metaclass=_M):
    __getitem__ = list.__getitem__
    __add__ = list.__add__


class seam:
    def __init__(self, ch, on): self.ch, self.on = ch, on
    def __enter__(self):
        from dyna import derivations
        self.m = derivations
        if self.on:
            SimList.ch = self.ch
            self.m.list = ListSeam
    def __exit__(self, *a):
        SimList.ch = None
        if self.on: del self.m.list


class Client:
    def __init__(self, k, d):
        self.k = k; self.d = d
        self.restart()
    def restart(self):
        self.it = None; self.got = []; self.done = False


def run(c, ch, st):
    if not c['clients'] or not c['R']: raise Discard()
    S = REF[c['S']]
    recursive = c['fam'] != 'layered'
    p = make_program(c['F'] + c['R'], c['S'])
    rules = rules_of(p)
    if any(b[0] in lang.BUILTIN for h, body in rules for b in body if isinstance(b, list)):
        bi = True
    else: bi = False
    full, finite = reference(rules, 12)
    before = p.plaintext()
    nontriv = any(len(v) > 1 for v in full.values()) or any(height(t) >= 3 for v in full.values() for t in v)
    st.trivial = not nontriv
    st.add(f'family.{c["fam"]}'); st.add('finite' if finite else 'infinite')

    def expect(cl):
        f = cl.d['form']
        if f in ('naive', 'semi'):
            ts, _ = reference(rules, cl.d['T'])
        else: ts = full
        if f == 'agenda': return {t for v in ts.values() for t in v}
        q = cl.d['q']
        return {t for it, v in ts.items() if it[0] == q[0] and len(it) == len(q) and lang.match(q, it, {}) is not None for t in v}

    from dyna.derivations import Derivation
    clients = [Client(k, d) for k, d in enumerate(c['clients'])]
    for cl in clients:
        f = cl.d['form']
        if bi and f in ('semi', 'agenda'): raise Discard()
        if f == 'sld' and (recursive or not finite): raise Discard()
        cl.want = expect(cl)
        st.add(f'form.{f}')
    if sum(len(cl.want) for cl in clients) > 150: raise Discard()      # too long a run

    def check(cl, d):
        t = tree(d)
        if t[0] != 'd': raise Violation('shape', f'{cl.d}: not a derivation: {d!r}')
        if cl.d['form'] != 'agenda':
            q = cl.d['q']
            if lang.match(q, t[2], {}) is None: raise Violation('query', f'{cl.d}: {t[2]} does not answer the query')
        if t in cl.gotset: raise Violation('duplicate', f'{cl.d}: derivation of {t[2]} enumerated twice: {t}')
        cl.gotset.add(t)
        if t not in cl.want:
            if finite or cl.d['form'] != 'agenda' or not valid(t, rules, cl.seen):
                raise Violation('invalid', f'{cl.d}: not a proof (or not within the height bound): {t}')
        if cl.d['form'] == 'agenda':
            for k in t[3]:
                if k[0] == 'd' and k not in cl.gotset: raise Violation('order', f'{cl.d}: derivation of {t[2]} before its part {k[2]}')
        if d.height() != height(t) or d.size() != size(t): raise Violation('measure', f'{cl.d}: height/size of {t}')
        if cl.d['form'] != 'sld' or True:
            r = p.rules[d.i]
            if not r.head.fn == d.head.fn: raise Violation('rule', f'{cl.d}: {t}')
        # the value of a proof is the product of its leaves
        v = S.one
        for w in leaves(d): v = S.times(v, S.of_dyna(w))
        have = d.value()
        have = RV(have, S)
        if not S.close(have, v): raise Violation('weight', f'{cl.d}: value of {t}: {have} instead of {v}')
        cl.sum[t[2]] = S.plus(cl.sum[t[2]], v) if t[2] in cl.sum else v

    def leaves(d):
        for x in d.body:
            if isinstance(x, Derivation):
                if not p.is_builtin(x.head): yield from leaves(x)
            else: yield lang_snap(x)

    def RV(x, S):
        if not isinstance(x, tuple): return S.of_dyna(x)
        v = S.one
        for y in x: v = S.times(v, RV(y, S))
        return v

    def open_(cl):
        from dyna.term import Term
        f = cl.d['form']
        cl.gotset = set(); cl.sum = {}; cl.seen = set(); cl.n = 0
        cl.q = build_query(cl.d['q'])
        if f == 'naive': cl.it = iter(p.derivations(cl.d['T'], cl.q))
        elif f == 'semi': cl.it = iter(p.derivations_seminaive(cl.d['T'], cl.q))
        elif f == 'agenda': cl.it = p.derivations_agenda()
        else: cl.it = p.sld(cl.q)

    def finish(cl):
        cl.done = True
        missing = cl.want - cl.gotset
        if missing:
            t = min(missing, key=lambda t: (size(t), str(t)))
            raise Violation('missing', f'{cl.d}: derivation of {t[2]} never enumerated: {t} ({len(missing)} missing)')
        st.state((cl.d['form'], len(cl.gotset), 'done'))

    fl = list(c['faults'])
    with (sched.set_order(ch) if c['sets'] else nullcontext()), seam(ch, c['rand']):
        steps = 0
        live = list(clients)
        while live:
            steps += 1
            cl = ch.pick(live)
            fault = None
            if fl and ch.flip(1, 6): fault = fl.pop()
            try:
                if fault == 'kill': faults.arm_kill(1 + ch.choose(400) if ch.flip(2, 3) else 1 + ch.choose(8000))
                elif fault and cl.it is not None:
                    st.add(f'fault.{fault}')
                    if hasattr(cl.it, 'close'):
                        if fault == 'close': cl.it.close()
                        elif fault == 'throw':
                            try: cl.it.throw(ZeroDivisionError('client'))
                            except (ZeroDivisionError, StopIteration): pass
                        cl.it = None
                        st.state((cl.d['form'], len(cl.gotset), fault))
                        continue
                if cl.it is None: open_(cl)
                k = 1 + ch.choose(4)
                ended = False
                for _ in range(k):
                    try: d = next(cl.it)
                    except StopIteration:
                        ended = True
                        break
                    check(cl, d)
                    cl.n += 1
                    if cl.n > len(cl.want) + 150 and not finite: break
            except KeyboardInterrupt:
                st.add('fault.ctrl-c')
                st.state((cl.d['form'], len(getattr(cl, 'gotset', ())), 'kill'))
                cl.it = None
                continue
            finally:
                faults.disarm()
            if ended:
                if not finite and cl.d['form'] == 'agenda': raise Violation('ended', f'{cl.d}: infinitely many proofs, but the enumeration ended')
                finish(cl); live.remove(cl)
            elif not finite and cl.d['form'] == 'agenda' and cl.n > 15 + ch.choose(25):
                cl.it = None; live.remove(cl)              # a fair share of an endless stream
                st.state((cl.d['form'], cl.n, 'cut'))
            if steps > 3000: raise Discard()
    if p.plaintext() != before: raise Violation('damage', 'the program changed')
    # finitely many proofs: their values add up to the item's value
    if finite and c['fam'] != 'cyclic':
        want = ref_solution(c)
        for cl in clients:
            if cl.d['form'] in ('agenda', 'sld'):
                for it, v in cl.sum.items():
                    if not S.close(v, want.get(it, S.zero)): raise Violation('total', f'{cl.d}: proofs of {it} add up to {v}, not {want.get(it)}')
    from dyna.term import fresh
    for q in {repr(cl.d['q']): cl.q for cl in clients if hasattr(cl, 'q')}.values():
        if any(x.is_bound() for x in vars_of(q)): raise Violation('leak', 'a query variable is still bound after everybody is done')


def vars_of(x):
    from dyna.term import Term, Var
    if isinstance(x, Var): return [x]
    if isinstance(x, Term): return [v for a in x.args for v in vars_of(a)]
    return []
