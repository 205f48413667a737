"""Seeded workload generators.  Every generator returns JSON-able rules.

All programs are range restricted unless named otherwise.  Families:

  layered      acyclic predicate graph; any semiring (exact with `poly`)
  interval     recursion whose (interval length, rank) measure decreases;
               finitely many derivations, any semiring (exact with `poly`)
  cyclic       arbitrary recursion over finite data; idempotent semirings
  convergent   cyclic recursion in the reals, contraction by construction
  structured   recursion over compound terms (lists, successor numerals)
"""
import random

CONSTS = [0, 1, 2, ['a'], ['b'], ['f', 0], ['f', ['a']], ['g', 1, ['b']], {'s': 'a'}]
VARS = ['X', 'Y', 'Z', 'U', 'V', 'W']


class W:
    "distinct integer weights"
    def __init__(self, rng, mode):
        self.rng, self.mode, self.n = rng, mode, 1
    def __call__(self):
        if self.mode == 'poly':
            self.n += 1
            return self.n
        if self.mode == 'float':
            return self.rng.choice([1, 2, 3, 5, 7, -1, -2]) if self.rng.random() < .3 else self.rng.randint(1, 5)
        if self.mode == 'prob':
            return self.rng.choice([0.5, 0.25, 0.75, 0.9, 1])
        return self.rng.randint(1, 6)


def wmode(S):
    return {'poly': 'poly', 'float': 'float', 'bool': 'pos', 'minplus': 'pos', 'maxplus': 'pos', 'maxtimes': 'prob'}[S]


def facts(rng, pred, arity, n, dom, w):
    out = []
    for _ in range(n):
        out.append({'h': [pred] + [rng.choice(dom) for _ in range(arity)], 'w': w(), 'b': []})
    if out and rng.random() < .3:      # a duplicate fact (contributions accumulate)
        d = dict(rng.choice(out)); d['w'] = w()
        out.append(d)
    return out


def layered(rng, S, inline_builtins=True, nfacts=6, max_rules=5, wt=None):
    "-> (edb facts, rules)"
    w = wt or W(rng, wmode(S))
    dom = rng.sample(CONSTS, rng.randint(2, 4))
    if rng.random() < .5: dom = [0, 1, 2, 3][:rng.randint(2, 4)]
    nedb = rng.randint(1, 3)
    preds = []
    F = []
    for i in range(nedb):
        ar = rng.choice([1, 2, 2, 2, 3]) if rng.random() < .9 else 0
        preds.append((f'd{i}', ar))
        F += facts(rng, f'd{i}', ar, rng.randint(1, nfacts) if ar else 1, dom, w)
    R = []
    heads = []
    nr = rng.randint(1, max_rules)
    for i in range(nr):
        # several rules may define the same head
        if heads and rng.random() < .35:
            name, ar, avail = rng.choice(heads)
        else:
            name, ar, avail = f'p{len(heads)}', rng.choice([0, 1, 1, 2, 2]), list(preds)
        r = layered_rule(rng, name, ar, avail, dom, w, inline_builtins)
        R.append(r)
        if (name, ar) not in preds:
            preds.append((name, ar)); heads.append((name, ar, avail))
    if rng.random() < .25 and R:
        R.append(dict(rng.choice(R)))       # identical rule twice: counts twice
    rng.shuffle(R)
    return F, R


def rand_arg(rng, pool, dom, deep=True):
    x = rng.random()
    if x < .72: return rng.choice(pool)
    if x < .9 or not deep: return rng.choice(dom)
    if x < .97: return ['f', rng.choice(pool)]
    return ['g', rng.choice(pool), rng.choice(pool)]


def layered_rule(rng, name, ar, avail, dom, w, builtins=True):
    nb = rng.choice([1, 2, 2, 2, 3])
    pool = VARS[:rng.randint(1, 4)]
    body = []
    last = None
    for _ in range(nb):
        if last is not None and rng.random() < .3: p = last    # self join
        else: p = rng.choice(avail)
        last = p
        a = [p[0]] + [rand_arg(rng, pool, dom) for _ in range(p[1])]
        if body and rng.random() < .12 and isinstance(body[-1], list) and body[-1][0] == p[0]:
            a = body[-1]                # literally repeated subgoal
        body.append(a)
    from lang import tvars
    bound = []
    for b in body: tvars(b, bound)
    extra = []
    if builtins and bound and rng.random() < .35:
        k = rng.random()
        v = rng.choice(bound)
        if k < .35 and all(isinstance(d, int) for d in dom):
            extra.append([rng.choice(['<', '>', '<=', '>=']), v, rng.choice(bound + [1, 2])])
        elif k < .6 and all(isinstance(d, int) for d in dom):
            extra.append(['is', 'N', [rng.choice('+-*'), v, rng.choice(bound + [1, 2])]])
            bound = bound + ['N']
        elif k < .8:
            extra.append(['=', 'E', rng.choice([v, ['f', v], rng.choice(dom)])])
            bound = bound + ['E']
        else:
            extra.append(['=', v, rng.choice(bound + [rng.choice(dom)])])
    body += extra
    harg = lambda: (rng.choice(bound) if bound and rng.random() < .8 else
                    (['f', rng.choice(bound)] if bound and rng.random() < .4 else rng.choice(dom)))
    return {'h': [name] + [harg() for _ in range(ar)],
            'w': w() if rng.random() < .3 else None, 'b': body}


def interval(rng, S, n=None, wt=None):
    "recursion over X<Y pairs; finitely many derivations"
    w = wt or W(rng, wmode(S))
    n = n or rng.randint(3, 5)
    F = []
    ne = rng.randint(1, 2)
    for i in range(ne):
        pairs = [(x, y) for x in range(n) for y in range(x + 1, n)]
        for x, y in rng.sample(pairs, min(len(pairs), rng.randint(2, 6))):
            F.append({'h': [f'd{i}', x, y], 'w': w(), 'b': []})
    if rng.random() < .5:
        for x in rng.sample(range(n), rng.randint(1, n)):
            F.append({'h': ['u', x], 'w': w(), 'b': []})
    R = []
    np_ = rng.randint(1, 3)
    P = [f'p{i}' for i in range(np_)]
    E = [f'd{i}' for i in range(ne)]
    for i, p in enumerate(P):
        low = E + P[:i]
        R.append({'h': [p, 'X', 'Y'], 'w': w() if rng.random() < .3 else None,
                  'b': [[rng.choice(low), 'X', 'Y']]})
        if rng.random() < .25:
            R.append({'h': [p, 'X', 'Y'], 'w': None,
                      'b': [[rng.choice(low), 'X', 'Y'], [rng.choice(low), 'X', 'Y']]})
        for _ in range(rng.randint(1, 2)):
            a, b = rng.choice(E + P), rng.choice(E + P)
            if rng.random() < .4: a = b = p
            body = [[a, 'X', 'Y'], [b, 'Y', 'Z']]
            if rng.random() < .2: body.append([rng.choice(E + P), 'Z', 'W'])
            if rng.random() < .3: rng.shuffle(body)
            last = 'W' if any('W' in x for x in body) else 'Z'
            R.append({'h': [p, 'X', last], 'w': w() if rng.random() < .2 else None, 'b': body})
    if rng.random() < .5:
        R.append({'h': ['r', 'X'], 'w': None, 'b': [[rng.choice(E + P), 'X', 'Y'], ['r', 'Y']]})
        R.append({'h': ['r', n - 1], 'w': w(), 'b': []} if rng.random() < .5 else
                 {'h': ['r', 'X'], 'w': w(), 'b': [[rng.choice(E), 'W', 'X']]})
    if rng.random() < .4:
        R.append({'h': ['goal'], 'w': None, 'b': [[rng.choice(P), 0, 'Z']]})
    if rng.random() < .3:
        q = rng.choice(P)
        R.append({'h': ['sq', 'X'], 'w': None, 'b': [[q, 'X', 'Y'], [q, 'X', 'Y']] if rng.random() < .5
                  else [[q, 'X', 'Y'], [q, 'X', 'Z']]})
    rng.shuffle(R)
    return F, R


def cyclic(rng, S, wt=None):
    "arbitrary recursion; S idempotent with absorptive weights"
    w = wt or W(rng, wmode(S))
    dom = [0, 1, 2, 3][:rng.randint(2, 4)] if rng.random() < .6 else rng.sample(CONSTS, 3)
    F = facts(rng, 'd0', 2, rng.randint(2, 7), dom, w)
    if rng.random() < .6: F += facts(rng, 'd1', rng.choice([1, 2]), rng.randint(1, 5), dom, w)
    ar = {'d0': 2}
    for f in F: ar[f['h'][0]] = len(f['h']) - 1
    for i in range(rng.randint(1, 3)): ar[f'p{i}'] = rng.choice([1, 2, 2])
    R = []
    for p in [q for q in ar if q[0] == 'p']:
        for k in range(rng.randint(1, 3)):
            nb = rng.choice([1, 2, 2, 3])
            pool = VARS[:rng.randint(1, 4)]
            cand = [q for q in ar if q[0] == 'd'] if k == 0 else list(ar)
            body = []
            for _ in range(nb):
                q = rng.choice(cand)
                body.append([q] + [rng.choice(pool) if rng.random() < .9 else rng.choice(dom) for _ in range(ar[q])])
            from lang import tvars
            bound = []
            for b in body: tvars(b, bound)
            h = [p] + [rng.choice(bound) if bound else rng.choice(dom) for _ in range(ar[p])]
            R.append({'h': h, 'w': w() if rng.random() < .2 else None, 'b': body})
    rng.shuffle(R)
    return F, R


def convergent(rng):
    "real-weighted cyclic programs that contract: left/right-linear recursion over a substochastic graph"
    n = rng.randint(2, 4)
    F = []
    for x in range(n):
        ys = rng.sample(range(n), rng.randint(1, min(2, n)))
        for y in ys: F.append({'h': ['d0', x, y], 'w': round(rng.choice([.1, .2, .25, .3]), 3), 'b': []})
    for x in rng.sample(range(n), rng.randint(1, n)):
        F.append({'h': ['s', x], 'w': rng.randint(1, 3), 'b': []})
    R = [{'h': ['p', 'X'], 'w': None, 'b': [['s', 'X']]}]
    k = rng.random()
    if k < .5: R.append({'h': ['p', 'Y'], 'w': None, 'b': [['p', 'X'], ['d0', 'X', 'Y']]})
    else: R.append({'h': ['p', 'X'], 'w': None, 'b': [['d0', 'X', 'Y'], ['p', 'Y']]})
    if rng.random() < .5:
        R += [{'h': ['q', 'X', 'Y'], 'w': None, 'b': [['d0', 'X', 'Y']]},
              {'h': ['q', 'X', 'Z'], 'w': None, 'b': [['q', 'X', 'Y'], ['d0', 'Y', 'Z']]}]
    if rng.random() < .4:     # small nonlinear recursion
        F.append({'h': ['c'], 'w': 0.2, 'b': []})
        R += [{'h': ['t'], 'w': 0.2, 'b': []}, {'h': ['t'], 'w': None, 'b': [['c'], ['t'], ['t']]}]
    if rng.random() < .4: R.append({'h': ['goal'], 'w': None, 'b': [['p', 'X'], ['s', 'X']]})
    rng.shuffle(R)
    return F, R


def explosive(rng):
    "real-weighted cyclic programs that expand: values that are infinite, next to ones that are not"
    n = rng.randint(1, 3)
    big = [16.0, 100.0, 1000000.0, 65536.0]
    F = []
    for x in range(n):
        for y in rng.sample(range(n), rng.randint(0 if x else 1, min(2, n))): F.append({'h': ['d0', x, y], 'w': rng.choice(big), 'b': []})
    for x in rng.sample(range(n), rng.randint(1, n)): F.append({'h': ['s', x], 'w': float(rng.randint(1, 9)), 'b': []})
    R = [{'h': ['p', 'X'], 'w': None, 'b': [['s', 'X']]}]
    if rng.random() < .5: R.append({'h': ['p', 'Y'], 'w': None, 'b': [['p', 'X'], ['d0', 'X', 'Y']]})
    else: R.append({'h': ['p', 'X'], 'w': None, 'b': [['d0', 'X', 'Y'], ['p', 'Y']]})
    if rng.random() < .3:
        F.append({'h': ['c'], 'w': rng.choice(big), 'b': []})
        R += [{'h': ['t'], 'w': 2.0, 'b': []}, {'h': ['t'], 'w': None, 'b': [['c'], ['t'], ['t']]}]
    if rng.random() < .5: R.append({'h': ['u'], 'w': 3.0, 'b': [['p', 'X'], ['s', 'X']]})
    if rng.random() < .4: R.append({'h': ['q', 'X', 'Y'], 'w': None, 'b': [['p', 'X'], ['p', 'Y']]})
    if rng.random() < .3: R.append({'h': ['v', 'X'], 'w': None, 'b': [['p', 'X'], ['p', 'X']]})
    rng.shuffle(R)
    return F, R


def lst(xs, tail=None):
    x = ['$nil'] if tail is None else tail
    for y in reversed(xs): x = ['$cons', y, x]
    return x


def structured(rng, S, wt=None):
    w = wt or W(rng, wmode(S))
    F, R = [], []
    if rng.random() < .6:
        elems = [rng.choice([['a'], ['b'], 1]) for _ in range(rng.randint(1, 4))]
        F.append({'h': ['inp', lst(elems)], 'w': w(), 'b': []})
        if rng.random() < .4:
            F.append({'h': ['inp', lst(elems[1:])], 'w': w(), 'b': []})
        for e in {str(e): e for e in elems}.values():
            if rng.random() < .8: F.append({'h': ['ok', e], 'w': w(), 'b': []})
        R += [{'h': ['suf', 'X'], 'w': None, 'b': [['inp', 'X']]},
              {'h': ['suf', 'X'], 'w': None, 'b': [['suf', ['$cons', 'Y', 'X']], ['ok', 'Y']]}]
        if rng.random() < .5:
            R.append({'h': ['pair', 'X', 'Y'], 'w': None, 'b': [['suf', ['$cons', 'X', 'U']], ['suf', ['$cons', 'Y', 'U']]]})
    else:
        n = rng.randint(1, 4)
        x = ['z']
        for _ in range(n): x = ['s', x]
        F.append({'h': ['num', x], 'w': w(), 'b': []})
        R += [{'h': ['num', 'X'], 'w': w() if rng.random() < .5 else None, 'b': [['num', ['s', 'X']]]},
              {'h': ['plus', ['z'], 'X', 'X'], 'w': None, 'b': [['num', 'X']]}]
        if rng.random() < .6:
            R.append({'h': ['plus', ['s', 'X'], 'Y', ['s', 'Z']], 'w': None,
                      'b': [['plus', 'X', 'Y', 'Z'], ['num', ['s', 'X']], ['num', ['s', 'Z']]]})
    if rng.random() < .4:
        h = rng.choice(R)['h']
        vs = ['A', 'B', 'C'][:len(h) - 1]
        R.append({'h': ['goal'], 'w': None, 'b': [[h[0]] + vs]})
    rng.shuffle(R)
    return F, R


def any_case(rng, families=('layered', 'interval', 'cyclic', 'convergent', 'structured'), semirings=None):
    "-> dict(family, S, F, R)"
    fam = rng.choice(families)
    if fam == 'convergent':
        F, R = convergent(rng); S = 'float'
    elif fam == 'cyclic':
        S = rng.choice(['bool', 'minplus', 'maxtimes']); F, R = cyclic(rng, S)
    else:
        S = rng.choice(semirings or ['poly', 'poly', 'float', 'minplus', 'bool'])
        F, R = {'layered': layered, 'interval': interval, 'structured': structured}[fam](rng, S)
    if rng.random() < .25 and fam in ('layered', 'interval', 'cyclic'):
        # seed facts for derived predicates
        w = W(rng, wmode(S)); w.n = 500
        for _ in range(rng.randint(1, 2)):
            h = rng.choice(R)['h']
            if not isinstance(h, list) or h[0][0] != 'p': continue
            a = len(h) - 1
            if fam == 'interval':
                x = rng.randint(0, 2); args = [x, x + rng.randint(1, 2)][:a]
            else:
                consts = [y for f in F for y in f['h'][1:]] or [0]
                args = [rng.choice(consts) for _ in range(a)]
            F.append({'h': [h[0]] + args, 'w': w(), 'b': []})
    return {'fam': fam, 'S': S, 'F': F, 'R': R}


def nonground(rng, S, project=False):
    """Programs with nonground facts/derived items; no compound terms.  Every
    body-only variable is bound by a ground EDB atom (so sums are finite), unless
    `project`: then all weights are positive and a sum may have infinitely many terms."""
    w = W(rng, 'pos' if project else wmode(S))
    dom = [0, 1, 2][:rng.randint(1, 3)]
    F = facts(rng, 'd0', 2, rng.randint(1, 4), dom, w) + facts(rng, 'd1', 1, rng.randint(1, 3), dom, w)
    ar = {'d0': 2, 'd1': 1}
    N = []
    for i in range(rng.randint(1, 2)):
        a = rng.choice([1, 2, 2]); ar[f'n{i}'] = a
        for _ in range(rng.randint(1, 2)):
            N.append({'h': [f'n{i}'] + [rng.choice(['X', 'Y', 'X', rng.choice(dom)]) for _ in range(a)],
                      'w': w(), 'b': []})
    R = []
    from lang import tvars
    for i in range(rng.randint(1, 4)):
        if i and rng.random() < .3: name = rng.choice([k for k in ar if k[0] == 'p'])
        else: name = f'p{i}'
        a = ar.get(name, rng.choice([0, 1, 2]))
        avail = [k for k in ar if k != name and not (k[0] == 'p' and int(k[1:]) >= int(name[1:]))]
        pool = VARS[:rng.randint(1, 3)]
        body = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            q = rng.choice(avail)
            body.append([q] + [rng.choice(pool) if rng.random() < .85 else rng.choice(dom) for _ in range(ar[q])])
            if project and q[0] == 'n' and rng.random() < .4: body[-1][rng.randint(1, ar[q])] = 'U'
        bound = []
        for b in body: tvars(b, bound)
        gv = []
        for b in body:
            if b[0] in ('d0', 'd1'): tvars(b, gv)
        hv = [rng.choice(bound + ['H']) if rng.random() < .85 and bound else rng.choice(dom) for _ in range(a)]
        for v in bound:
            if v not in hv and v not in gv and not (project and rng.random() < .7):
                body.append(['d1', v] if rng.random() < .5 else ['d0', v, rng.choice(dom)])
                gv.append(v)
        rng.shuffle(body)
        ar[name] = a
        R.append({'h': [name] + hv, 'w': w() if rng.random() < .3 else None, 'b': body})
    rng.shuffle(R)
    return F + N, R, dom


def derived(c, ref=None):
    return True
