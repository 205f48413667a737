"""S17: constraint propagation reaches the same, sound conclusion in every order; type comparisons built on it are sound."""
import lang, sched, faults
from common import *
from core import Violation, Discard
from lang import mgu, isvar, resolve
from interrupt import EVENTS
from env import SimDeadlock
from contextlib import nullcontext

WALL = {'quick': 45, 'thorough': 500}
BATCHES = {'quick': (16, 1500), 'thorough': (64, 12000)}
LISTS = ('T', 'D', 'types', 'W', 'b', 'calls')
PROTECT = ('h', 'kind', 'op')
LEVEL = 'fault_enumeration'
CHUNK = 60
LIMIT = 60_000_000
RULE = ('a run = either 1-3 propagations of random constraint sets under one random theory (implications, disjointness, orders, functional dependencies, '
        'lists, arithmetic) or comparisons (covers, intersect, disjoint, anti-unifier, dedup, disjoin) of random simple types; agenda pops and set '
        'iteration in scheduler order; Ctrl-C at a chosen event of a propagation that is then asked again on the same object; non-trivial = the theory '
        'fired / the types overlap; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (outcome, number of constraints derived, number of equalities) of each propagation or comparison'
REAL = ['ConstraintPropagation', 'Rewrites', 'Builtins', 'Subst, unification, terms']
STUB = STUB_ENV + ['order in which the agenda (a set) is popped and charts are scanned (scheduler)']
ASSUMPTIONS = ['theory rules are range restricted and do not build new terms', 'comparisons of things that are not numbers are out of scope']
MODS = ['dyna.propagate', 'dyna.analyze.rewrites']

UN = ['p', 'q', 'r', 'k']


def theory(rng, egd=True):
    T = []
    def rule(h, *b): T.append({'h': h, 'b': list(b)})
    F = ['$fail']
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(['sub', 'sub', 'disj', 'disj', 'fact', 'fact', 'neg', 'list', 'dom', 'trans', 'fd', 'lt', 'elt', 'join', 'join', 'chain', 'chain', 'irr', 'diag', 'bot', 'comp', 'comp'])
        x, y = rng.choice(UN), rng.choice(UN)
        c = rng.choice([0, 1, 2, ['a'], ['b'], ['nil']])
        if k == 'sub' and x != y: rule([x, 'X'], [y, 'X'])
        elif k == 'disj' and x != y: rule(F, [x, 'X'], [y, 'X'])
        elif k == 'fact': rule([x, c])
        elif k == 'neg': rule(F, [x, c])
        elif k == 'list':
            rule(['l', 'Xs'], ['l', ['c', 'X', 'Xs']]); rule([x, 'X'], ['l', ['c', 'X', 'Xs']])
            if rng.random() < .7: rule(['l', ['nil']])
        elif k == 'dom': rule([x, rng.choice(['X', 'Y'])], ['e', 'X', 'Y'])
        elif k == 'trans': rule(['e', 'X', 'Z'], ['e', 'X', 'Y'], ['e', 'Y', 'Z'])
        elif k == 'fd' and egd:
            if rng.random() < .5: rule(['=', 'Y', 'Z'], ['e', 'X', 'Y'], ['e', 'X', 'Z'])
            else: rule(['=', 'X', 'Y'], ['e', 'X', 'Y'], ['e', 'Y', 'X'])
        elif k == 'lt':
            rule(['<', 'X', 'Z'], ['<', 'X', 'Y'], ['<', 'Y', 'Z']); rule(F, ['<', 'X', 'X'])
            if rng.random() < .5: rule(F, ['<', 'X', 'Y'], ['<', 'Y', 'X'])
        elif k == 'elt' and egd is not None: rule(['<', 'X', 'Y'], ['e', 'X', 'Y'])
        elif k == 'join': rule([x, rng.choice(['X', 'Y'])], ['e', 'X', 'Y'], [y, rng.choice(['X', 'Y'])])
        elif k == 'chain':
            z = rng.choice(UN)
            b = [['e', 'X', 'Y'], [y, rng.choice(['X', 'Y'])]]
            if rng.random() < .3: b.append([z, rng.choice(['X', 'Y'])])
            rng.shuffle(b)
            rule([x, rng.choice(['X', 'Y'])] if rng.random() < .8 else F, *b)
            if y != z: rule([y, 'X'], [z, 'X'])
            if rng.random() < .5: rule([z, rng.choice(['X', 'Y'])], ['e', 'X', 'Y'])
        elif k == 'comp':      # a predicate used twice, unevenly
            g, f = rng.sample(['e', 'g', 'h'], 2)
            if rng.random() < .5: rule([g, 'X', 'Z'], [f, 'X', 'Y'], [f, 'Y', 'Z'])
            elif rng.random() < .5: rule([x, rng.choice('XYZ')], [f, 'X', 'Y'], [f, 'Y', 'Z'])
            else: rule([x, rng.choice('XY')], [f, 'X', 'Y'], [y, 'X'], [y, 'Y'])
            rule([f, 'X', 'Y'], *([[g, 'X', 'Y']] if rng.random() < .5 else [['e', 'X', 'Y']] if f != 'e' else [['h', 'Y', 'X']]))
        elif k == 'irr': rule(F, ['e', 'X', 'X'])
        elif k == 'diag': rule([x, 'X'], ['e', 'X', 'X'])
        elif k == 'bot': rule(F, [x, 'X'])
    rng.shuffle(T)
    return T


def arg(rng, vs, d=0):
    x = rng.random()
    if x < .6: return rng.choice(vs)
    if x < .9 or d > 1: return rng.choice([0, 1, 2, ['a'], ['b'], ['nil']])
    return ['c', arg(rng, vs, d + 1), arg(rng, vs, d + 1)]


def num(rng, vs): return rng.choice(vs) if rng.random() < .6 else rng.choice([0, 1, 2, 3])


def constraints(rng, vs, n, arith=.25):
    D = []
    for _ in range(n):
        x = rng.random()
        if x < .4: D.append([rng.choice(UN), arg(rng, vs)])
        elif x < .65: D.append([rng.choice(['e', 'e', 'g', 'h']), arg(rng, vs), arg(rng, vs)])
        elif x < .75: D.append(['l', arg(rng, vs)])
        elif x < .75 + arith / 2: D.append(['<', num(rng, vs), num(rng, vs)])
        elif x < .75 + arith * .8: D.append(['is', num(rng, vs), [rng.choice('+-'), num(rng, vs), num(rng, vs)]])
        else: D.append(['=', rng.choice(vs), arg(rng, vs)])
    return D


def gen(rng):
    kind = rng.choice(['prop', 'types'])
    vs = ['A', 'B', 'C', 'D'][:rng.randint(1, 4)]
    if kind == 'prop':
        return {'kind': kind, 'T': theory(rng), 'sets': rng.random() < .85,
                'calls': [{'D': constraints(rng, vs, rng.randint(1, 6)), 'kill': rng.random() < .3} for _ in range(rng.randint(1, 3))]}
    n = rng.randint(1, 3)
    types = []
    vs = vs[:3]
    for _ in range(rng.randint(2, 4)):
        types.append({'h': ['t'] + [arg(rng, vs, 1) for _ in range(n)], 'b': constraints(rng, vs, rng.randint(0, 3), arith=.1)})
        if rng.random() < .15: types[-1]['b'].append(['$bound', rng.choice(vs)])
    W = []
    for _ in range(rng.randint(0, 12)):
        p = rng.choice(UN + ['e', 'e', 'g', 'h', 'l'])
        W.append([p] + [arg(rng, [0, 1, ['a']], 1) for _ in range(2 if p in 'egh' else 1)])
    return {'kind': kind, 'T': theory(rng, egd=True if rng.random() < .3 else None), 'types': types, 'W': W, 'sets': rng.random() < .85,
            'share': rng.choice([0, 0, 0, 0, 1, 1, 2]), 'sub': [arg(rng, vs) for _ in vs],
            'op': rng.choice(['instance', 'covers', 'covers', 'intersect', 'disjoint', 'anti', 'dedup', 'disjoin']), 'merge': rng.random() < .5,
            'kill': rng.random() < .2}


# --- reference: the chase ---------------------------------------------------------
class Fail(Exception): pass


def isnum(x): return isinstance(x, (int, float)) and not isinstance(x, bool)


def ematch(p, x, s):
    "one-way match of a theory pattern against an atom whose variables are constants"
    if isvar(p):
        if p in s: return s if s[p] == x else None
        return {**s, p: x}
    if isinstance(p, list):
        if not isinstance(x, list) or len(x) != len(p) or x[0] != p[0]: return None
        for a, b in zip(p[1:], x[1:]):
            s = ematch(a, b, s)
            if s is None: return None
        return s
    return s if not isvar(x) and not isinstance(x, list) and p == x else None


def inst(p, s):
    if isvar(p): return s[p]
    if isinstance(p, list): return [p[0]] + [inst(y, s) for y in p[1:]]
    return p


def joins(body, atoms, s):
    if not body: yield s; return
    for x in atoms:
        s1 = ematch(body[0], x, s)
        if s1 is not None: yield from joins(body[1:], atoms, s1)


def evaluate(x):
    "equalities a ground enough builtin implies; None = not ready"
    if x[0] == '<':
        a, b = x[1:]
        if isvar(a) or isvar(b): return None
        if not isnum(a) or not isnum(b): raise Discard()
        if not a < b: raise Fail()
        return []
    v, (op, a, b) = x[1:]
    if op == '-': v, (a, b) = a, (v, b)       # v is a - b  <=>  a is v + b
    if isnum(a) and isnum(b): return [(v, a + b)]
    if isnum(v) and isnum(a): return [(b, v - a)]
    if isnum(v) and isnum(b): return [(a, v - b)]
    if isnum(a) and a == 0: return [(v, b)]
    if isnum(b) and b == 0: return [(v, a)]
    return None


def chase(T, D, bound=60):
    """closure of the constraints D under theory T: (atoms, unifier), or Fail"""
    s = {}
    atoms = []
    def eq(a, b):
        nonlocal s
        s1 = mgu(a, b, s)
        if s1 is None: raise Fail()
        s = s1
    def norm():
        out = []
        for x in atoms:
            x = resolve(x, s)
            if x not in out: out.append(x)
        atoms[:] = out
    def put(x):
        if x == ['$fail']: raise Fail()
        if x[0] == '=': eq(x[1], x[2])
        elif x not in atoms: atoms.append(x)
    for x in D: put(x)
    for _ in range(bound):
        norm()
        before = (len(atoms), dict(s))
        old = list(atoms)
        for x in old:
            if x[0] in ('<', 'is'):
                for a, b in evaluate(x) or (): eq(a, b)
        if s != before[1]: continue
        fired = False
        for r in T:
            for m in list(joins(r['b'], old, {})):
                put(inst(r['h'], m))
            if len(atoms) > 150: raise Discard()
        if (len(atoms), s) == before: return atoms, s
    raise Discard()


def classes(atoms, s, vs):
    "canonical picture of a closed constraint set: what each variable of D equals, and the atoms"
    rep = {}
    for v in sorted(vs):
        x = walkvar(v, s)
        if isvar(x): rep.setdefault(x, v)
    def can(x):
        if isvar(x): return rep.get(x, x)
        if isinstance(x, list): return (x[0],) + tuple(can(y) for y in x[1:])
        return ('#', x) if not isinstance(x, float) or x != int(x) else ('#', int(x))
    bind = {v: can(resolve(v, s)) for v in vs}
    return bind, {can(resolve(x, s)) for x in atoms}


def walkvar(v, s): return resolve(v, s)


# --- the system ---------------------------------------------------------------------
def theory_text(T):
    out = []
    for r in T:
        h = lang.show(r['h']) if r['h'][0] not in ('=', '<') else f'({lang.show(r["h"])})'
        b = ', '.join(f'({lang.show(x)})' if x[0] in ('<', '=') else lang.show(x) for x in r['b'])
        out.append(f'{h} :- {b}.' if b else f'{h}.')
    return '\n'.join(out)


def make_theory(T):
    from dyna import Program, Rule
    rs = []
    for r in T:
        if not set(lang.tvars(r['h'])) <= set(lang.tvars(['b'] + r['b'])): raise Discard()
        vs = {}
        rs.append(Rule(build_term(r['h'], vs), *[build_term(x, vs) for x in r['b']]))
    return Program(rs)


def back(x, names):
    from dyna.term import Term, Var, snap
    x = snap(x)
    if isinstance(x, Var):
        return names.get(x) or names.setdefault(x, f'N{len(names)}')
    if isinstance(x, Term): return [x.fn] + [back(y, names) for y in x.args]
    return x


def run(c, ch, st):
    {'prop': run_prop, 'types': run_types}[c['kind']](c, ch, st)


class numeric:
    "comparisons of things that are not numbers are out of scope: notice them"
    def __enter__(self):
        from dyna.builtin import Builtins
        from dyna.term import Term, deref, is_var
        self.cls, self.old = Builtins, Builtins.__call__
        old = self.old
        def call(b, q):
            k = deref(q).args[-1]
            if isinstance(k, Term) and k.fn in ('<', '>', '<=', '>=') and not any(is_var(x) or isnum(x) for x in k.args): raise Discard()
            return old(b, q)
        Builtins.__call__ = call
    def __exit__(self, *a): self.cls.__call__ = self.old


def order(c, ch): return sched.set_order(ch, MODS) if c['sets'] else nullcontext()


def killable(f, kill, ch, st, span):
    if kill:
        faults.arm_kill(1 + ch.choose(max(2, span())))
        try: return f()
        except KeyboardInterrupt:
            st.add('fault.interrupt')
        finally: faults.disarm()
    return f()


def run_prop(c, ch, st):
    from dyna.propagate import ConstraintPropagation
    cp = ConstraintPropagation(make_theory(c['T']))
    st.trivial = True
    for call in c['calls']:
        D = call['D']
        make_theory(c['T'])
        try: want = chase(c['T'], D)
        except Fail: want = None
        vs = lang.tvars(['d'] + D)
        def go():
            m = {}
            with order(c, ch): return cp([build_term(x, m) for x in ch.shuffle(D)]), m
        def span():
            with order(c, ch), faults.measure() as k: cp([build_term(x, {}) for x in D])
            return k.n
        try: got, m = killable(go, call['kill'], ch, st, span)
        except TypeError as e:
            if 'not supported between' in str(e): raise Discard()
            raise
        st.add('propagations')
        what = f'theory {{{theory_text(c["T"])}}} on {", ".join(map(lang.show, D))}'.replace('\n', ' ')
        if want is None:
            st.add('unsatisfiable'); st.trivial = False
            if got is not None: raise Violation('missed-contradiction', f'{what}: no contradiction found; chart {sorted(map(str, got))[:12]}')
            st.state(('fail', len(D)))
            continue
        if got is None: raise Violation('false-contradiction', f'{what}: reported contradictory, but it is satisfiable')
        names = {v: k for k, v in m.items()}
        have = [back(x, names) for x in got]
        s = {}
        for x in have:
            if isinstance(x, list) and x[0] == '=':
                s = mgu(x[1], x[2], s)
                if s is None: raise Violation('inconsistent', f'{what}: equalities of the result are contradictory')
        A, sA = want
        # atoms over variables that the constraints do not mention would be inventions
        b1, a1 = classes([x for x in have if isinstance(x, list) and x[0] != '='], s, vs)
        b2, a2 = classes(A, sA, vs)
        if b1 != b2: raise Violation('bindings', f'{what}: implied bindings {b2}, found {b1}')
        if a1 - a2: raise Violation('unsound', f'{what}: derived {sorted(map(str, a1 - a2))[:3]}, which does not follow')
        if a2 - a1: raise Violation('incomplete', f'{what}: stopped without {sorted(map(str, a2 - a1))[:3]}')
        if len(a2) > len({str(x) for x in D}) or sA: st.trivial = False
        # the recorded bindings describe the same unifier
        s = {}
        for x in cp.bindings:
            s = mgu(back(x.args[0], names), back(x.args[1], names), s)
            if s is None: raise Violation('bindings', f'{what}: the recorded bindings are contradictory')
        if classes([], s, vs)[0] != b2: raise Violation('bindings', f'{what}: the recorded bindings are {classes([], s, vs)[0]}, implied are {b2}')
        st.state((len(a1), len(sA), len(D)))


# --- simple types ---------------------------------------------------------------------
def world(c):
    "a ground model closed under the theory, and its universe"
    U = [0, 1, 2, ['a'], ['b'], ['nil'], ['c', 0, ['nil']], ['c', ['a'], ['nil']]]
    LT = [['<', a, b] for a in (0, 1, 2) for b in (0, 1, 2) if a < b]
    atoms = []
    ok = []
    def close(xs):
        for _ in range(40):
            n = len(xs)
            for r in c['T']:
                for m in list(joins(r['b'], xs + LT, {})):
                    try: h = inst(r['h'], m)
                    except KeyError: raise Discard()
                    if h == ['$fail']: raise Fail()
                    if h[0] == '=':
                        if h[1] != h[2]: raise Fail()
                    elif h[0] == '<':
                        if not (isnum(h[1]) and isnum(h[2]) and h[1] < h[2]): raise Fail()
                    elif h not in xs: xs.append(h)
            if len(xs) == n: return xs
            if len(xs) > 200: raise Discard()
        raise Discard()
    try: ok = close([])
    except Fail: return None
    for a in c['W']:
        try: ok = close(ok + [a])
        except Fail: pass
    return U, ok + LT


def solved(rule):
    "the rule with its equations solved, or None"
    s = {}
    for b in rule['b']:
        if b[0] == '=':
            s = mgu(b[1], b[2], s)
            if s is None: return None
    return {'h': resolve(rule['h'], s), 'b': [resolve(b, s) for b in rule['b'] if b[0] != '=']}


def denot(rule, U, W):
    "ground heads of a simple type in world W"
    out = set()
    rule = solved(rule)
    if rule is None: return out
    for s in ground_solutions(rule['b'], U, W, {}):
        vs = [v for v in lang.tvars(rule['h']) if v not in s]
        def rec(i, s):
            if i == len(vs): out.add(lang.subst(inst(rule['h'], s), {})); return
            for u in U: rec(i + 1, {**s, vs[i]: u})
        rec(0, s)
    return out


NUMS = list(range(-4, 9))


def ground_solutions(body, U, W, s):
    if not body: yield s; return
    # atoms first, builtins last
    for i, b in enumerate(body):
        if b[0] not in ('is', '<', '=', '$free', '$bound'):
            for x in W:
                s1 = ematch(b, x, s)
                if s1 is not None: yield from ground_solutions(body[:i] + body[i + 1:], U, W, s1)
            return
    body = sorted(body, key=lambda b: b[0] in ('$bound', '$free'))
    b, rest = body[0], body[1:]
    vs = [v for v in lang.tvars(['x', b]) if v not in s]
    dom = U if b[0] in ('=', '$bound', '$free') else NUMS
    def rec(i, s):
        if i < len(vs):
            for u in dom: yield from rec(i + 1, {**s, vs[i]: u})
            return
        x = inst(b, s)
        if x[0] == '=': ok = x[1] == x[2]
        elif x[0] in ('$bound', '$free'): ok = True
        elif x[0] == '<': ok = isnum(x[1]) and isnum(x[2]) and x[1] < x[2]
        else:
            e = evaluate(x)
            ok = e is not None and all(l == r for l, r in e)
        if ok: yield from ground_solutions(rest, U, W, s)
    yield from rec(0, s)


def thaw(x):
    if isinstance(x, tuple): return [x[0]] + [thaw(y) for y in x[1:]]
    return x


def member(rule, g, U, W):
    "does the ground head g belong to the simple type in world W?"
    rule = solved(rule)
    if rule is None: return False
    s = ematch(rule['h'], thaw(g), {})
    if s is None: return False
    for _ in ground_solutions(rule['b'], U, W, s): return True
    return False


def resolve1(x, m):
    if isvar(x): return m.get(x, x)
    if isinstance(x, list): return [x[0]] + [resolve1(y, m) for y in x[1:]]
    return x


def showt(r): return f'{lang.show(r["h"])} :- {", ".join(map(lang.show, r["b"]))}'


def shared_rules(types):
    from dyna import Rule
    vs = {}
    return [Rule(build_term(t['h'], vs), *[build_term(b, vs) for b in t['b']]) for t in types]


def run_types(c, ch, st):
    from dyna.analyze.rewrites import Rewrites
    from dyna import Program
    types = c['types']
    if len(types) < 2: raise Discard()
    if any(len(t['h']) != len(types[0]['h']) for t in types): raise Discard()
    for i, t in enumerate(types):     # comparisons with things that are not numbers are errors
        for j, u in enumerate(types):
            D = t['b'] if i == j else [['=', t['h'], lang.rename(u['h'], 1)]] + t['b'] + [lang.rename(x, 1) for x in u['b']]
            try: chase(c['T'], D)
            except Fail: pass
    w = world(c)
    op = c['op']
    R = Rewrites(make_theory(c['T']))
    rs = [build_rule(t) for t in types]
    if c['share'] and op in ('intersect', 'disjoint', 'anti'):     # these rename apart
        if c['share'] == 2: types = [types[0], types[0]]; rs = [rs[0], rs[0]]
        else: rs = shared_rules(types)
    st.add(f'op.{op}')
    if op == 'instance':    # a type covers each of its instances with further constraints
        r = solved(types[0])
        if r is None or not set(lang.tvars(['b'] + r['b'])) <= set(lang.tvars(r['h'])): raise Discard()
        m = dict(zip(sorted(lang.tvars(['r', types[0]['h']] + types[0]['b'])), c['sub']))
        def sub(x): return resolve1(x, m)
        rs[0] = build_rule(r)
        inst_t = {'h': sub(r['h']), 'b': [sub(b) for b in r['b']] + types[1]['b']}
        inst_rule = build_rule(inst_t)
    def call():
        with order(c, ch), numeric():
            if op == 'covers': return R.covers(rs[0], rs[1])
            if op == 'instance': return R.covers(rs[0], inst_rule)
            if op == 'intersect': return R.intersect(rs[0], rs[1], ALLOW_FREE_MERGE=c['merge'])
            if op == 'disjoint': return R.disjoint(rs[0], rs[1])
            if op == 'anti': return R.anti_unifier(rs[0], rs[1])
            if op == 'dedup': return list(R.dedup(Program(rs)))
            if op == 'disjoin': return list(R.disjoin(Program(rs)))
    def span():
        with faults.measure() as k: call()
        return k.n
    try: got = killable(call, c['kill'], ch, st, span)
    except TypeError as e:
        if 'not supported between' in str(e): raise Discard()
        raise
    st.add('comparisons')
    if op in ('covers', 'disjoint', 'intersect'):
        again = call()
        if bool(again) != bool(got): raise Violation('order', f'{op} of {" | ".join(showt(t) for t in types)}: {got} in one order, {again} in another; theory {theory_text(c["T"])}')
    if op == 'instance':
        if not got: raise Violation('covers', f'theory {{{theory_text(c["T"])}}}: {showt(r)} should cover its own instance {showt(inst_t)}')
        st.state((op, len(r['b']), len(inst_t['b'])))
        return
    if w is None: st.trivial = True; return
    U, W = w
    den = [denot(t, U, W) for t in types]
    what = f'theory {{{theory_text(c["T"])}}}: {op} of {" | ".join(showt(t) for t in types)}'.replace('\n', ' ')
    def unrule(r):
        n = {}
        return {'h': back(r.head, n), 'b': [back(x, n) for x in r.body]}
    st.trivial = not (den[0] and den[1])
    wd = f'world {[lang.show(x) for x in W if x[0] != "<"]}'
    def missing(gs, r): return sorted((g for g in gs if not member(r, g, U, W)), key=str)
    if op == 'covers':
        bad = missing(den[1], types[0]) if got else ()
        if bad: raise Violation('covers', f'{what}: claimed to cover, but {fmt(bad)} belongs to the second only; {wd}')
        st.state((op, bool(got), len(den[0]) > 0, len(den[1]) > 0))
    elif op in ('intersect', 'disjoint'):
        both = {g for g in den[0] if member(types[1], g, U, W)} | {g for g in den[1] if member(types[0], g, U, W)}
        empty = got is None if op == 'intersect' else got
        if empty and both: raise Violation('disjoint', f'{what}: claimed disjoint, but both contain {fmt(sorted(both, key=str))}; {wd}')
        if not empty and op == 'intersect':
            t = unrule(got)
            bad = missing(both, t)
            if bad: raise Violation('intersect', f'{what}: intersection {showt(t)} lacks {fmt(bad)}; {wd}')
            d = denot(t, U, W)
            bad = missing(d, types[0]) + missing(d, types[1])
            if bad: raise Violation('intersect', f'{what}: intersection {showt(t)} has {fmt(bad)} extra; {wd}')
        st.state((op, empty, bool(both)))
    elif op == 'anti':
        t = unrule(got)
        bad = missing(den[0] | den[1], t)
        if bad: raise Violation('anti', f'{what}: result {showt(t)} lacks {fmt(bad)}; {wd}')
        st.state((op, len(t['b'])))
    else:
        ts = [unrule(r) for r in got]
        bad = [g for g in set().union(*den) if not any(member(t, g, U, W) for t in ts)]
        if bad: raise Violation(op, f'{what}: result {" | ".join(map(showt, ts))} lacks {fmt(sorted(bad, key=str))}; {wd}')
        ds = [denot(t, U, W) for t in ts]
        if op == 'dedup':
            bad = [g for g in set().union(*ds) if not any(member(t, g, U, W) for t in types)]
            if bad: raise Violation(op, f'{what}: result {" | ".join(map(showt, ts))} has {fmt(sorted(bad, key=str))} extra; {wd}')
        else:
            for i in range(len(ts)):
                for j in range(len(ts)):
                    bad = [g for g in ds[i] if i != j and member(ts[j], g, U, W)]
                    if bad: raise Violation(op, f'{what}: result {" | ".join(map(showt, ts))} overlaps on {fmt(sorted(bad, key=str))}; {wd}')
        st.state((op, len(ts), len(types)))
