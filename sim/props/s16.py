"""S16: a program holds the rules its history of edits gave it, and comparisons of programs are exact."""
import lang, faults, sched
from common import *
from lang import mgu, isvar, tvars, of_dyna, canon
from contextlib import nullcontext

WALL = {'quick': 40, 'thorough': 600}
BATCHES = {'quick': (16, 700), 'thorough': (64, 6000)}
LISTS = ('start', 'ops', 'b', 'rules')
PROTECT = ('h', 'op')
LEVEL = 'fault_enumeration'
RULE = ('a run = up to 6 program objects and a history of edits (append, assign through a stream, concatenate, remove, pop, copy, rename, sort, reorder) and of '
        'questions (==, hash, metric, assert_equal, align, lookup, text), in the order the case and the scheduler give, with query streams left suspended on '
        'programs that are being compared, some questions and edits hit by Ctrl-C and asked again; non-trivial = two distinct program objects with rules were '
        'compared; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (operation, sizes of the programs, answer)'
REAL = ['Program edits, caches and indexes', 'rule and program comparison', 'constant folding', 'terms, matching, renaming', 'parser and printer']
STUB = STUB_ENV + ['iteration order of sets (scheduler)', 'the order in which sessions act (scheduler)']
ASSUMPTIONS = ['weights are positive', 'a program is not edited while a stream over it is suspended (only compared, copied and asked)',
               'a Ctrl-C during an edit leaves the program as before or as after it']
MODS = ['dyna.program', 'dyna.term', 'dyna.rule']

PRED = {'p': 2, 'q': 1, 'e': 2, 'f': 1, 'n': 0}
VARS = ['X', 'Y', 'Z', 'U']


def term(rng, vs, d=0):
    x = rng.random()
    if x < .75: return rng.choice(vs)
    if x < .92 or d: return rng.choice([0, 1, ['a']])
    return ['k', term(rng, vs, 1), term(rng, vs, 1)]


def atom(rng, vs, preds=None):
    p = rng.choice(preds or list(PRED))
    return [p] + [term(rng, vs) for _ in range(PRED[p])]


def rule(rng):
    vs = VARS[:rng.randint(1, 4)]
    n = rng.choice([0, 0, 1, 2, 2, 3, 4])
    preds = rng.choice([None, None, ['e'], ['e', 'f'], ['q', 'f']])     # many subgoals of one name: hard to match up
    b = [atom(rng, vs, preds) for _ in range(n)]
    for _ in range(rng.choice([0, 0, 1, 2]) if n else 1): b.insert(rng.randint(0, len(b)), weight(rng))
    return {'h': atom(rng, vs, ['p', 'q', 'n', 'p']), 'b': b}


def weight(rng): return rng.choice([1, 2, 3, 5, 0.5, 0.25, 1, 2, INF if rng.random() < .3 else 4])

INF = float('inf')


def variant(rng, r):
    "the same rule, with other names for its variables and its subgoals in another order"
    names = rng.sample(['X', 'Y', 'Z', 'U', 'V', 'W', 'T', 'S1'], 8)
    m = {}
    def go(x):
        if isvar(x): return m.setdefault(x, names[len(m)])
        if isinstance(x, list): return [x[0]] + [go(y) for y in x[1:]]
        return x
    b = [go(y) for y in r['b']]; rng.shuffle(b)
    return {'h': go(r['h']), 'b': b}


def spoil(rng, r):
    "nearly the same rule"
    r = variant(rng, r)
    vs = []
    for y in [r['h']] + r['b']: tvars(y, vs)
    k = rng.randrange(6)
    def sub(x, a, b, once=[0]):
        if x == a and isvar(x): return b
        return [x[0]] + [sub(y, a, b) for y in x[1:]] if isinstance(x, list) else x
    if k == 0 and len(set(vs)) > 1:       # identify two variables
        a, b = rng.sample(sorted(set(vs)), 2)
        return {'h': sub(r['h'], a, b), 'b': [sub(y, a, b) for y in r['b']]}
    if k <= 2 and vs:                     # one occurrence of a variable becomes another variable
        at = [(y, i) for y in [r['h']] + r['b'] if isinstance(y, list) for i in range(1, len(y)) if isvar(y[i])]
        if at:
            y, i = rng.choice(at)
            y[i] = rng.choice(sorted(set(vs)) + ['R'])
            return r
    if k == 3 and r['b']:
        r['b'][rng.randrange(len(r['b']))] = weight(rng) if rng.random() < .4 else atom(rng, VARS[:2])
        return r
    if k == 4 and len(r['b']) > 1: r['b'].pop(rng.randrange(len(r['b']))); return r
    r['b'].append(rng.choice(r['b']) if r['b'] else 1)
    return r


def gen(rng):
    pool = [rule(rng) for _ in range(rng.randint(1, 4))]
    for _ in range(rng.randint(1, 6)):
        r = rng.choice(pool)
        pool.append(variant(rng, r) if rng.random() < .55 else spoil(rng, r))
    a = [rng.choice(pool) for _ in range(rng.randint(0, 5))]
    b = [variant(rng, r) for r in a] if rng.random() < .6 else [rng.choice(pool) for _ in range(rng.randint(0, 5))]
    rng.shuffle(b)
    if b and rng.random() < .35: i = rng.randrange(len(b)); b[i] = spoil(rng, b[i])
    if rng.random() < .3 and a: x = rng.choice(a); a.append(variant(rng, x)); b.append(variant(rng, x))      # the same rule several times over
    ops = []
    for _ in range(rng.randint(3, 12)):
        op = rng.choice(OPS)
        o = {'op': op, 'i': rng.randrange(6), 'j': rng.randrange(6), 'k': rng.randrange(60), 'kill': rng.random() < .22}
        if op in ('append', 'assign', 'plus', 'lookup', 'open'): o['r'] = variant(rng, rng.choice(pool))
        ops.append(o)
    ops += [{'op': q, 'i': 0, 'j': 1, 'k': 0, 'kill': False} for q in ('eq', 'metric')]
    return {'start': [{'rules': a}, {'rules': b}], 'ops': ops, 'sets': rng.random() < .5}


OPS = ['eq', 'eq', 'eq', 'metric', 'metric', 'assert', 'align', 'append', 'append', 'assign', 'plus', 'minus', 'pop', 'fresh', 'sort', 'spawn', 'twist', 'twist',
       'lookup', 'lookup', 'open', 'open', 'advance', 'close', 'text', 'hash', 'fold']


# --- reference ----------------------------------------------------------------
def iso(x, y, f, g):
    "match term x with y under a bijection of variables (f forward, g back); extends copies"
    if isvar(x) or isvar(y):
        if not (isvar(x) and isvar(y)): return None
        if f.get(x, y) != y or g.get(y, x) != x: return None
        return {**f, x: y}, {**g, y: x}
    if isinstance(x, list) and isinstance(y, list):
        if len(x) != len(y) or x[0] != y[0]: return None
        for a, b in zip(x[1:], y[1:]):
            r = iso(a, b, f, g)
            if r is None: return None
            f, g = r
        return f, g
    if isinstance(x, list) or isinstance(y, list): return None
    return (f, g) if x == y else None


def alike(r, s):
    "rule equality modulo renaming and reordering, by trying everything"
    if len(r['b']) != len(s['b']): return False
    def go(i, left, f, g):
        if i == len(r['b']): return True
        for j in left:
            m = iso(r['b'][i], s['b'][j], f, g)
            if m is not None and go(i + 1, left - {j}, *m): return True
        return False
    m = iso(r['h'], s['h'], {}, {})
    return m is not None and go(0, frozenset(range(len(s['b']))), *m)


def matching(a, b):
    "size of the largest matching (alike is an equivalence)"
    left = list(b); n = 0
    for r in a:
        for k, s in enumerate(left):
            if alike(r, s): left.pop(k); n += 1; break
    return n


def number(x): return not isinstance(x, (list, str))


def folded(rules):
    "rules with their constants multiplied out and like rules added up"
    out = []
    for r in rules:
        C = 1.0
        for y in r['b']:
            if number(y): C *= y
        s = {'h': r['h'], 'b': [y for y in r['b'] if not number(y)]}
        for e in out:
            if alike(e[0], s): e[1] += C; break
        else: out.append([s, C])
    return out


def distance(a, b):
    A, B = folded(a), folded(b)
    if len(A) != len(B): return INF
    d = 0
    B = list(B)
    for s, C in A:
        for k, (t, D) in enumerate(B):
            if alike(s, t):
                B.pop(k)
                if s['b']: d = max(d, 0 if C == D else INF)
                else: d = max(d, 0 if C == D else abs(C - D))
                break
        else: return INF
    return d


def appended(rules, r):
    "what append leaves: constants folded; values of one item accumulate in its first rule"
    C = 1.0
    for y in r['b']:
        if number(y): C *= y
    b = [y for y in r['b'] if not number(y)]
    if b: return rules + [{'h': r['h'], 'b': b if C == 1 else [C] + b}]
    for k, s in enumerate(rules):
        if all(number(y) for y in s['b']) and len(s['b']) <= 1 and iso(s['h'], r['h'], {}, {}):
            return rules[:k] + [{'h': s['h'], 'b': [(s['b'][0] if s['b'] else 1) + C]}] + rules[k + 1:]
    return rules + [{'h': r['h'], 'b': [C]}]


# --- the system ---------------------------------------------------------------
def build(r):
    from dyna import Rule
    vs = {}
    return Rule(build_term(r['h'], vs), *[y if number(y) else build_term(y, vs) for y in r['b']])


def read(rule):
    "dyna rule -> reference rule"
    m = {}
    def go(x):
        from dyna.term import snap, Var, Term
        x = snap(x)
        if isinstance(x, Var): return m.setdefault(x, f'V{len(m)}')
        if isinstance(x, Term): return [x.fn] + [go(y) for y in x.args]
        return x
    return {'h': go(rule.head), 'b': [go(y) for y in rule.body]}


class Held:
    def __init__(self, p, ref):
        self.p, self.ref = p, ref
        self.open = []
        self.text = p.plaintext()


def run(c, ch, st):
    from dyna import Program
    if not c['start']: raise Discard()
    ps = []
    for s in c['start']: ps.append(Held(Program([build(r) for r in s['rules']]), list(s['rules'])))
    st.trivial = True
    with (sched.set_order(ch, MODS) if c['sets'] else nullcontext()):
        for o in c['ops']:
            go(o, ps, ch, st)
        for h in ps: holds(h, 'at the end')


def holds(h, what):
    have = [read(r) for r in h.p.rules]
    if len(have) != len(h.ref) or not all(alike(a, b) for a, b in zip(have, h.ref)):
        raise Violation('rules', f'{what}: the program holds {h.p.plaintext()!r}, expected {[show(r) for r in h.ref]}')


def show(r): return lang.show(r['h']) + ' += ' + ' * '.join(str(y) if number(y) else lang.show(y) for y in r['b'])


def unchanged(h, what):
    t = h.p.plaintext()
    if t != h.text: raise Violation('damage', f'{what} changed a program from {h.text!r} to {t!r}')


def attempt(o, ch, st, f):
    "carry out f; first, perhaps, cancel it"
    if o['kill']:
        faults.arm_kill(1 + ch.choose(60) if ch.flip(1, 2) else 1 + ch.choose(1500))
        try: return f()
        except KeyboardInterrupt: st.add('fault.ctrl-c')
        finally: faults.disarm()
        return None
    return f()


def go(o, ps, ch, st):
    from dyna import Program
    op = o['op']
    h = ps[o['i'] % len(ps)]; g = ps[o['j'] % len(ps)]
    st.add(f'op.{op}')
    if op in ('eq', 'metric', 'assert', 'align', 'hash', 'text'):
        if o['kill']:
            attempt(o, ch, st, lambda: question(op, h, g))
            unchanged(h, f'a cancelled {op}'); unchanged(g, f'a cancelled {op}')
        have = question(op, h, g)
        want = answer(op, h, g)
        if want is not None and have != want and not (op == 'metric' and have < INF and abs(have - want) <= 1e-9 * max(1, want)):
            raise Violation('answer', f'{op} of {h.text!r} and {g.text!r}: {have}, expected {want}')
        if h is not g and h.ref and g.ref: st.trivial = False
        unchanged(h, op); unchanged(g, op)
        st.state((op, len(h.ref), len(g.ref), str(have)[:20], len(h.open)))
    elif op == 'lookup':
        want = sorted(i for i, r in enumerate(h.ref) if mgu(lang.rename(o['r']['h'], 'q'), lang.rename(r['h'], 'r'), {}) is not None)
        have = sorted(r.i for r in h.p.lookup(build_query(o['r']['h'])))
        if have != want: raise Violation('lookup', f'lookup {lang.show(o["r"]["h"])} in {h.text!r}: rules {have}, expected {want}')
        unchanged(h, op)
    elif op == 'open':
        if len(h.open) < 3:
            q = build_query(o['r']['h'])
            it = iter(h.p.lookup(q)); h.open.append(it)
            for _ in range(1 + o['k'] % 2): next(it, None)
    elif op == 'advance':
        for it in h.open: next(it, None)
    elif op == 'close':
        if h.open: h.open.pop(o['k'] % len(h.open)).close()
    else: edit(op, o, h, g, ps, ch, st)


def question(op, h, g):
    p, q = h.p, g.p
    if op == 'eq': return (p == q, q == p, p != q)
    if op == 'metric': return p.metric(q)
    if op == 'assert':
        try: p.assert_equal(q); return True
        except AssertionError: return False
    if op == 'hash': return hash(p) == hash(q)
    if op == 'align':
        A = p.align(q)
        pairs = [(i, j) for i, j in A if i is not None and j is not None]
        if sorted(i for i, _ in A if i is not None) != list(range(len(p))) or sorted(j for _, j in A if j is not None) != list(range(len(q))):
            return f'not a partition {A}'
        for i, j in pairs:
            if not alike(h.ref[i], g.ref[j]): return f'{i} is not {j}'
        return len(pairs)
    if op == 'text':
        from dyna import Program
        return Program(p.plaintext()) == p


def answer(op, h, g):
    same = len(h.ref) == len(g.ref) == matching(h.ref, g.ref)
    if op == 'eq': return (same, same, not same)
    if op == 'metric': return distance(h.ref, g.ref)
    if op == 'assert': return distance(h.ref, g.ref) <= 1e-5
    if op == 'hash': return True if same else None
    if op == 'align': return matching(h.ref, g.ref)
    if op == 'text': return None if any(y == INF for r in h.ref for y in r['b'] if number(y)) else True


def edit(op, o, h, g, ps, ch, st):
    "edits in place (only of programs nobody is reading), and edits that make a new program"
    k = o['k']
    if op in ('append', 'assign', 'pop'):
        for it in h.open: it.close()
        h.open = []
        if op == 'pop':
            if not h.ref: return
            i = k % len(h.ref); new = h.ref[:i] + h.ref[i + 1:]
            act = lambda: h.p.pop(i)
        else:
            new = appended(h.ref, o['r'])
            r = build(o['r'])
            if op == 'append': act = lambda: h.p.append(r)
            else:
                if not r.body: return
                def act(): h.p[r.head] = tuple(r.body)
        if len(new) > 9: return
        if o['kill']:
            old = h.p.plaintext()
            attempt(o, ch, st, act)
            now = [read(r) for r in h.p.rules]
            if match(now, new): h.ref = new
            elif not match(now, h.ref): raise Violation('edit', f'a cancelled {op} turned {old!r} into {h.p.plaintext()!r}')
        else:
            act(); h.ref = new
        h.text = h.p.plaintext()
        holds(h, f'after {op}')
        st.state((op, len(h.ref)))
        return
    p = h.p
    from dyna import Program
    if op == 'plus': make = lambda: p + [build(o['r'])]; ref = h.ref + [o['r']]
    elif op == 'minus':
        if not h.ref: return
        S = {k % len(h.ref), (k // 7) % len(h.ref)}
        make = lambda: p - S; ref = [r for i, r in enumerate(h.ref) if i not in S]
    elif op == 'fresh': make = p.fresh; ref = h.ref
    elif op == 'spawn': make = lambda: p.spawn(p.rules); ref = h.ref
    elif op == 'twist':
        perm = ch.shuffle(list(range(len(h.ref))))
        def tw(r):
            b = list(r.body)
            b = b[k % len(b):] + b[:k % len(b)] if b else b
            if k % 3: b = b[::-1]
            from dyna import Rule
            from dyna.term import fresh
            return fresh(Rule(r.head, *b))
        make = lambda: p.spawn([tw(p.rules[i]) for i in perm])
        ref = [h.ref[i] for i in perm]
    elif op == 'sort':
        make = lambda: p.sort(key=lambda r: (len(r.body), str(r.head.fn)))
        ref = [h.ref[i] for i in sorted(range(len(h.ref)), key=lambda i: (len(h.ref[i]['b']), h.ref[i]['h'][0]))]
    elif op == 'fold':
        make = p.constant_folding
        ref = None
    if o['kill']: attempt(o, ch, st, make)
    unchanged(h, f'a cancelled {op}')
    q = make()
    unchanged(h, op)
    if ref is None:
        got = [read(r) for r in q.rules]
        if distance(got, h.ref) > 1e-9 or len(got) != len(folded(h.ref)):
            raise Violation('folding', f'constant folding of {h.text!r} is {q.plaintext()!r}')
        ref = got
    new = Held(q, list(ref))
    holds(new, f'after {op}')
    st.state((op, len(ref)))
    if len(ref) > 9: return
    if len(ps) < 6: ps.append(new)
    else:
        for it in ps[o['j'] % len(ps)].open: it.close()
        ps[o['j'] % len(ps)] = new


def match(a, b): return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
