"""S06: a program is a mutable bag of rules: every view reflects exactly the rules it holds now."""
import itertools
import lang, gen, faults
from common import *
from lang import mgu, resolve, rename, canon, of_dyna, isvar
from interrupt import EVENTS
from props.s05 import rterm, ratom

WALL = {'quick': 45, 'thorough': 600}
BATCHES = {'quick': (16, 700), 'thorough': (64, 6000)}
LISTS = ('rules', 'ops', 'b')
PROTECT = ('h', 'op')
RULE = ('a run = a history of 6-40 operations (append, update, remove by position, store a query stream, combine, subtract, copy, sort, '
        'fold constants; look up, compare, hash, enumerate symbols, analyse) on a pool of programs derived from one another; after each '
        'read the answer is compared with a bag-of-rules model and with a program rebuilt from scratch; reads are cut short by Ctrl-C or '
        'abandoned half way at scheduler-chosen events; non-trivial = a read after a mutation after a read; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (last mutation, last read, number of rules in each program) after each step'
REAL = ['Program container, bucket merging, caches and their invalidation', 'rule lookup index', 'constant folding', 'equality/hash/signature',
        'dead-rule analysis and coarse graph (as cached views)']
STUB = STUB_ENV
ASSUMPTIONS = ['mutations themselves are not interrupted (only reads are)', 'a program is not mutated while one of its own streams feeds the mutation']
LEVEL = 'fault_enumeration'


def grule(rng, preds=None):
    return {'h': ratom(rng, preds=preds), 'w': rng.choice([2, 3, 5, -2]) if rng.random() < .6 else None,
            'b': [ratom(rng, preds=preds) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]}


def gen(rng):
    preds = rng.sample(['r0', 'r1', 'r2', 'r3', 'r4'], rng.randint(1, 3))
    rules = [grule(rng, preds) for _ in range(rng.randint(0, 5))]
    ops = []
    known = list(rules)
    for _ in range(rng.randint(6, 40)):
        x = rng.random()
        if x < .34:
            k = rng.random()
            if known and k < .4:
                r = dict(rng.choice(known))          # same head again (merges), or an identical rule
                if rng.random() < .6: r['w'] = rng.choice([2, 3, -2, None, None])
            else: r = grule(rng, preds if k < .8 else None)
            known.append(r)
            ops.append({'op': rng.choice(['append', 'update', 'append', 'store' if rng.random() < .5 else 'append']), 'r': r,
                        'q': ratom(rng, preds=preds)})
        elif x < .46: ops.append({'op': 'pop'})
        elif x < .58: ops.append({'op': rng.choice(['plus', 'minus', 'fresh', 'sort', 'fold', 'reset', 'spawn'])})
        else:
            q = ratom(rng, preds=preds)
            if known and rng.random() < .6:
                h = rng.choice(known)['h']; q = [h[0]] + [(a if rng.random() < .5 else rng.choice(['X', 'Y'])) for a in h[1:]]
            ops.append({'op': rng.choice(['lookup', 'lookup', 'lookup', 'views', 'eq', 'sym', 'all']), 'q': q, 'f': rng.random() < .3})
    return {'S': rng.choice(['float', 'float', 'minplus']), 'rules': rules, 'ops': ops}


# --- model --------------------------------------------------------------------
def split(r, S):
    "dyna rule -> (head json, coefficient, symbolic subgoals)"
    from dyna.term import Term, Var, snap
    C = S.one; xs = []
    for x in r.body:
        x = snap(x)
        if isinstance(x, (Term, Var)): xs.append(of_dyna(x))
        else: C = S.times(C, S.of_dyna(x))
    return of_dyna(r.head), C, xs


def mkey(h, xs):
    if len(xs) > 3: raise Discard()
    best = None
    for p in itertools.permutations(xs):
        m = {}
        k = (canon(h, m), tuple(canon(x, m) for x in p))
        if best is None or repr(k) < repr(best): best = k
    return best


class Model:
    def __init__(self, S, items=()):
        self.S = S; self.d = dict(items)
    def copy(self): return Model(self.S, self.d)
    def add(self, h, C, xs):
        k = mkey(h, xs)
        if k not in self.d: self.d[k] = (C, h, xs)
        else: self.d[k] = (self.S.plus(self.d[k][0], C), h, xs)
        if self.d[k][0] != self.d[k][0]: raise Discard()      # nan
    def view(self):
        return {k: v[0] for k, v in self.d.items() if not self.S.close(v[0], self.S.zero)}
    def rules(self): return [v for v in self.d.values() if not self.S.close(v[0], self.S.zero)]


def model_of(p, S):
    m = Model(S)
    for r in p.rules: m.add(*split(r, S))
    return m


def show_key(k): return f'{k}'


def compare(what, have, want):
    if have == want: return
    d = [(k, have.get(k), want.get(k)) for k in set(have) | set(want) if have.get(k) != want.get(k)]
    d.sort(key=repr)
    raise Violation('bag', f'{what}: (rule, have, want) {fmt(d)}')


_n = [0]
def ref_lookup(m, q):
    "{canonical (query instance, symbolic body): total coefficient}"
    qv = lang.tvars(q)
    out = {}
    for C, h, xs in m.rules():
        _n[0] += 1
        t = _n[0]
        s = mgu(rename(h, t), q, {})
        if s is None: continue
        acc(out, m.S, [resolve(v, s) for v in qv], [resolve(rename(x, t), s) for x in xs], C)
    return {k: v for k, v in out.items() if not m.S.close(v, m.S.zero)}


def acc(out, S, qv, xs, C):
    k = mkey(['q'] + list(qv), xs)
    out[k] = S.plus(out[k], C) if k in out else C


def lookup(p, q, S, limit=None):
    vs = {}
    t = build_term(q, vs)
    qv = [vs[v] for v in lang.tvars(q)]
    out = {}
    for n, r in enumerate(p.lookup(t)):
        _, C, xs = split(r, S)
        acc(out, S, [of_dyna(v) for v in qv], xs, C)
        if limit is not None and n >= limit: return None
    return {k: v for k, v in out.items() if not S.close(v, S.zero)}


def plain(r):
    "workload rule with its weight lifted by the reference semiring"
    return r


def run(c, ch, st):
    from dyna import Program, Rule
    S = REF[c['S']]
    D = lang.dyna_semiring(c['S'])

    def brule(r):
        x = build_rule(r)
        return x.lift(D) if D is not None else x

    def mrule(r):
        return r['h'], S.one if r.get('w') is None else r['w'], list(r['b'])

    def fresh_program(rs):
        p = Program([Rule(x.head, *x.body) for x in rs])
        p.semiring = D
        p.set_input_types(''); p.set_output_types('')
        return p

    p0 = make_program(c['rules'], c['S'], text=False)
    if D is not None: p0 = p0.reset_transform_history()
    p0.set_input_types(''); p0.set_output_types('')
    m0 = Model(S)
    for r in c['rules']: m0.add(*mrule(r))
    pool = [[p0, m0]]
    snaps = []
    reads = muts = interesting = 0
    dirty = False
    for n, o in enumerate(c['ops']):
        k = ch.choose(len(pool))
        p, m = pool[k]
        op = o['op']
        st.add(f'op.{op}')
        where = f'step {n} ({op}) on program {k}'
        if op in ('append', 'update', 'store', 'pop'):
            muts += 1; dirty = True
            if op == 'append': p.append(brule(o['r'])); add_folded(m, mrule(o['r']))
            elif op == 'update':
                b = brule(o['r']); p.update(b.head, *b.body); add_folded(m, mrule(o['r']))
            elif op == 'store':
                j = ch.choose(len(pool))
                if pool[j][0] is p or len(p) > 40: continue
                store(p, m, pool[j], o, S)
            elif len(p):
                i = ch.choose(len(p))
                h, C, xs = split(p.rules[i], S)
                got = p.pop(i)
                if mkey(*split(got, S)[::2]) != mkey(h, xs): raise Violation('pop', f'{where}: returned another rule')
                remove(m, h, C, xs, p, S)
        elif op in ('plus', 'minus', 'fresh', 'sort', 'fold', 'reset', 'spawn'):
            if op == 'plus':
                j = ch.choose(len(pool))
                q = p + pool[j][0]; mm = m.copy()
                for C, h, xs in pool[j][1].rules(): mm.add(h, C, xs)
            elif op == 'minus':
                if not len(p): continue
                i = ch.choose(len(p)); h, C, xs = split(p.rules[i], S)
                q = p - ({i} if ch.flip(1, 2) else i)
                mm = model_of_rest(p, i, S)
                if len(q) != len(p) - 1: raise Violation('bag', f'{where}: {len(q)} rules left of {len(p)}')
            else:
                q = (p.fresh() if op == 'fresh' else p.sort() if op == 'sort' else p.constant_folding() if op == 'fold' else
                     p.reset_transform_history() if op == 'reset' else p.spawn(list(p.rules)))
                mm = m.copy()
            if len(pool) < 4: pool.append([q, mm])
            else: pool[1 + ch.choose(3)] = [q, mm]
            compare(f'{where}: result', model_of(q, S).view(), mm.view())
        else:
            reads += 1
            if dirty and reads > 1 and muts: interesting += 1
            killed = False
            if o['f'] and ch.flip(1, 2):
                e0 = EVENTS.kills
                faults.arm_kill(1 + ch.choose(60))
                try: read(op, o, p, m, S, c, fresh_program, where, snaps, ch, st)
                except KeyboardInterrupt: killed = True
                faults.disarm()
                st.add('fault.ctrl-c', EVENTS.kills - e0)
            elif o['f'] and op == 'lookup':
                lookup(p, o['q'], S, limit=ch.choose(2)); st.add('fault.abandon')
            else:
                read(op, o, p, m, S, c, fresh_program, where, snaps, ch, st)
            dirty = False
        for j, (q, mq) in enumerate(pool):
            compare(f'{where}: rules of program {j}', model_of(q, S).view(), mq.view())
        st.state((op, tuple(len(q.rules) for q, _ in pool)))
    for j, (q, mq) in enumerate(pool):
        for op in ('views', 'lookup'):
            read(op, {'q': ['r0', 'X', 'Y']}, q, mq, S, c, fresh_program, f'finally, program {j} ({op})', snaps, ch, st)
    st.trivial = not interesting


def add_folded(m, r):
    h, C, xs = r
    if m.S.close(C, m.S.zero): return
    m.add(h, C, xs)


def remove(m, h, C, xs, p, S):
    "after popping one rule: recompute its group from the rules that are left plus nothing else"
    k = mkey(h, xs)
    left = model_of(p, S).d.get(k)
    if S.idem:
        if left is None: m.d.pop(k, None)
        else: m.d[k] = left
        return
    v = m.d.get(k)
    tot = v[0] - C if v is not None else -C
    if abs(tot) == lang.INF or tot != tot: raise Discard()
    if left is None:
        if not S.close(tot, 0): raise Violation('pop', f'removing {k} lost {tot} as well')
        m.d.pop(k, None)
    else: m.d[k] = (tot, h, xs)


def model_of_rest(p, i, S):
    m = Model(S)
    for j, r in enumerate(p.rules):
        if j != i: m.add(*split(r, S))
    return m


def store(p, m, other, o, S):
    from dyna.term import Var
    q = o['q']; h = o['r']['h']
    src, ms = other
    vs = {}
    t = build_term(q, vs); hd = build_term(h, vs)
    p[hd] = src[t]
    qv = lang.tvars(q, lang.tvars(h))
    # the answers of each rule, applied to the head; variables that vanish count infinitely often
    for C, rh, xs in ms.rules():
        _n[0] += 1
        tag = _n[0]
        s = mgu(rename(rh, tag), q, {})
        if s is None: continue
        H = resolve(h, s); X = [resolve(rename(x, tag), s) for x in xs]
        seen = lang.tvars(H)
        for x in X: lang.tvars(x, seen)
        lost = []
        for v in qv: lang.tvars(resolve(v, s), lost)
        if any(v not in seen for v in lost):
            if not S.idem: raise Discard()
        m.add(H, C, X)


def read(op, o, p, m, S, c, fresh_program, where, snaps, ch, st):
    from dyna import Program
    if op == 'lookup':
        compare(f'{where}: lookup {lang.show(o["q"])}', lookup(p, o['q'], S), ref_lookup(m, o['q']))
    elif op == 'all':
        # every functor, most general
        for f, a in sorted({(v[1][0], len(v[1]) - 1) for v in m.d.values()} | {('nope', 1)}):
            q = [f] + [f'Q{i}' for i in range(a)]
            compare(f'{where}: lookup {lang.show(q)}', lookup(p, q, S), ref_lookup(m, q))
    elif op == 'views':
        z = fresh_program(p.rules)
        for name, f in (('hash', lambda x: hash(x)), ('signature', lambda x: x.signature), ('syms', lambda x: x.syms),
                        ('degree', lambda x: x.degree), ('degrees', lambda x: x.degrees()),
                        ('text', lambda x: x.__repr__(color=False, open_brace='', close_brace='')),
                        ('range restricted', lambda x: x.is_range_restricted()),
                        ('coarse graph', lambda x: (set(map(str, x.coarse_nodes())))),
                        ('live rules', lambda x: model_of(x.prune_very_fast(), S).view())):
            a, b = f(p), f(z)
            if a != b: raise Violation('stale', f'{where}: {name} is {a}, but {b} for a program rebuilt from the same rules')
        if not (p == z): raise Violation('stale', f'{where}: not equal to a program rebuilt from the same rules')
        if len(p) != len(z) or len(list(p)) != len(z.rules): raise Violation('stale', f'{where}: length')
    elif op == 'eq':
        snaps.append((fresh_program(p.rules), m.view()))
        q, v = snaps[ch.choose(len(snaps))]
        a, b = p.constant_folding(), q.constant_folding()
        za = [r for r in list(a.rules) + list(b.rules) if S.close(split(r, S)[1], S.zero)]
        if not za:
            same = v == m.view()
            if (a == b) != same: raise Violation('stale', f'{where}: comparison with an earlier snapshot says {a == b}, expected {same}')
            if same and hash(a) != hash(b): raise Violation('stale', f'{where}: equal programs hash differently')
    elif op == 'sym':
        f = p.gen_functor()
        g = p._gen_functor('r0')
        for f in (f, g):
            for r in p.rules:
                for x in (r.head, *r.body):
                    if getattr(x, 'fn', None) == f: raise Violation('stale', f'{where}: "fresh" name {f} is in use')
