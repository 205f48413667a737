"""Workload language, program/data generators, and the reference evaluator.

Terms  : int | "X" (variable, capitalised) | ["f", args...] | {"s": "str"}
Body   : an atom ["p", ...]  or a builtin ["<", x, y], ["is", v, e], ["=", x, y]
Rule   : {"h": atom, "w": None | number, "b": [items]}

The reference evaluator shares no code with dyna: its own term matching, its
own semirings, naive bottom-up iteration of the immediate-consequence operator.
"""
from fractions import Fraction
from core import Discard

CMPS = {'<': lambda a, b: a < b, '>': lambda a, b: a > b,
        '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '!=': lambda a, b: a != b}
BUILTIN = set(CMPS) | {'is', '=', 'val'}      # ['val', X]: the value of X is a factor


def isvar(x): return isinstance(x, str)
def isatom(x): return isinstance(x, list) and x[0] not in BUILTIN


# --- printing ----------------------------------------------------------------
def show(x):
    if isinstance(x, bool): raise Discard()
    if isinstance(x, int): return str(x)
    if isinstance(x, float): return repr(x)
    if isinstance(x, str): return x
    if isinstance(x, dict): return '"%s"' % x['s']
    f, *a = x
    if f == '$cons': return f'[{show(a[0])} | {show(a[1])}]'
    if f == '$nil': return '[]'
    if f == 'val': return show(a[0])
    if f in CMPS or f in ('=', 'is'): return f'{show(a[0])} {f} {show(a[1])}'
    if f in '+-*' and len(a) == 2: return f'({show(a[0])} {f} {show(a[1])})'
    if not a: return f
    return f'{f}({",".join(show(y) for y in a)})'


def show_w(w):
    if isinstance(w, float):
        return repr(w) if 'e' not in repr(w) else f'{w:.10f}'
    return str(w)


def show_rule(r):
    parts = []
    if r.get('w') is not None: parts.append(show_w(r['w']))
    parts += [show(b) for b in r['b']]
    if not parts: return f'{show(r["h"])}.'
    return f'{show(r["h"])} += ' + ', '.join(parts) + '.'


def show_program(rules):
    return '\n'.join(show_rule(r) for r in rules)


# --- ground terms ------------------------------------------------------------
def freeze(x):
    if isinstance(x, list): return tuple(freeze(y) for y in x)
    if isinstance(x, dict): return ('"', x['s'])
    return x


def tvars(x, out=None):
    if out is None: out = []
    if isvar(x):
        if x not in out: out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x[1:]: tvars(y, out)
    return out


def subst(x, s):
    "x with variables replaced; result is frozen if ground"
    if isvar(x):
        return s.get(x, x)
    if isinstance(x, (list, tuple)):
        return (x[0],) + tuple(subst(y, s) for y in x[1:])
    if isinstance(x, dict): return ('"', x['s'])
    return x


def match(pat, val, s):
    "one-way match of pattern (JSON) against ground frozen value; s mutated; returns list of newly bound vars or None"
    if isvar(pat):
        if pat in s:
            return () if s[pat] == val and type(s[pat]) is type(val) else None
        s[pat] = val
        return (pat,)
    if isinstance(pat, list):
        if not isinstance(val, tuple) or len(val) != len(pat) or val[0] != pat[0]: return None
        new = ()
        for a, b in zip(pat[1:], val[1:]):
            n = match(a, b, s)
            if n is None:
                for v in new: del s[v]
                return None
            new += tuple(n)
        return new
    if isinstance(pat, dict):
        return () if val == ('"', pat['s']) else None
    return () if (pat == val and not isinstance(val, tuple)) else None


def arith(e, s):
    if isvar(e):
        v = s.get(e)
        if not isinstance(v, int): raise Discard()
        return v
    if isinstance(e, int): return e
    f, a, b = e
    a, b = arith(a, s), arith(b, s)
    return a + b if f == '+' else a - b if f == '-' else a * b


def is_ground(x):
    if isvar(x): return False
    if isinstance(x, (list, tuple)): return all(is_ground(y) for y in x[1:])
    return True


def runify(x, y, s):
    "two-sided unification (for '='), at most one side nonground after subst, else Discard"
    x, y = subst(x, s), subst(y, s)
    if is_ground(x) and is_ground(y): return () if x == y else None
    if is_ground(x): x, y = y, x
    if not is_ground(y): raise Discard()
    return match(_unfreeze(x), y, s)


def _unfreeze(x):
    if isinstance(x, tuple):
        if x and x[0] == '"': return {'s': x[1]}
        return [x[0]] + [_unfreeze(y) for y in x[1:]]
    return x


# --- reference semirings -----------------------------------------------------
class RFloat:
    name = 'float'; zero = 0; one = 1; idem = False
    plus = staticmethod(lambda a, b: a + b); times = staticmethod(lambda a, b: a * b)
    lift = staticmethod(lambda w, h: w)
    @staticmethod
    def close(a, b): return a == b or abs(a - b) <= 1e-5 * max(1, abs(a), abs(b)) < INF
    @staticmethod
    def le(a, b): return a <= b + 1e-6 * max(1, abs(b))
    @staticmethod
    def of_dyna(v): return v

class RBool:
    name = 'bool'; zero = False; one = True; idem = True
    plus = staticmethod(lambda a, b: a or b); times = staticmethod(lambda a, b: a and b)
    lift = staticmethod(lambda w, h: w > 0)
    close = staticmethod(lambda a, b: a == b)
    le = staticmethod(lambda a, b: (not a) or b)
    of_dyna = staticmethod(lambda v: bool(v.score))

INF = float('inf')
class RMin:
    name = 'minplus'; zero = INF; one = 0; idem = True
    plus = staticmethod(min); times = staticmethod(lambda a, b: a + b)
    lift = staticmethod(lambda w, h: w)
    close = staticmethod(lambda a, b: a == b or abs(a - b) <= 1e-6)
    le = staticmethod(lambda a, b: a >= b - 1e-6)
    of_dyna = staticmethod(lambda v: v.cost)

class RMaxPlus:
    name = 'maxplus'; zero = -INF; one = 0; idem = True
    plus = staticmethod(max); times = staticmethod(lambda a, b: a + b)
    lift = staticmethod(lambda w, h: w)
    close = staticmethod(lambda a, b: a == b or abs(a - b) <= 1e-6)
    le = staticmethod(lambda a, b: a <= b + 1e-6)
    of_dyna = staticmethod(lambda v: v.score)

class RMaxTimes:
    name = 'maxtimes'; zero = 0; one = 1; idem = True
    plus = staticmethod(max); times = staticmethod(lambda a, b: a * b)
    lift = staticmethod(lambda w, h: w)
    close = staticmethod(lambda a, b: abs(a - b) <= 1e-6)
    le = staticmethod(lambda a, b: a <= b + 1e-6)
    of_dyna = staticmethod(lambda v: v.score)

class RPoly:
    """N[X]: free commutative semiring; value = multiset of derivations, each the
    multiset of leaf annotations -- exact derivation counting."""
    name = 'poly'; zero = (); one = ((((), 1)),); idem = False
    @staticmethod
    def norm(d): return tuple(sorted((k, v) for k, v in d.items() if v))
    @staticmethod
    def plus(a, b):
        d = dict(a)
        for k, v in b: d[k] = d.get(k, 0) + v
        return RPoly.norm(d)
    @staticmethod
    def times(a, b):
        if len(a) * len(b) > 4000: raise Discard()
        d = {}
        for k, v in a:
            for k2, v2 in b:
                kk = tuple(sorted(k + k2))
                d[kk] = d.get(kk, 0) + v * v2
        return RPoly.norm(d)
    @staticmethod
    def lift(w, h): return (((str(w),), 1),)
    close = staticmethod(lambda a, b: a == b)
    @staticmethod
    def le(a, b):
        d = dict(b)
        return all(v <= d.get(k, 0) for k, v in a)
    of_dyna = staticmethod(lambda v: v.x)
RPoly.one = (((), 1),)

class RCount(RFloat):
    name = 'count'
    lift = staticmethod(lambda w, h: 1)

REF = {c.name: c for c in (RFloat, RBool, RMin, RMaxTimes, RMaxPlus, RPoly)}


def dyna_semiring(name):
    if name == 'float': return None
    if name == 'bool':
        from semirings import Boolean; return Boolean
    if name == 'minplus':
        from semirings import MinPlus; return MinPlus
    if name == 'maxplus':
        from semirings import MaxPlus; return MaxPlus
    if name == 'maxtimes':
        from semirings import MaxTimes; return MaxTimes
    return _poly_class()


_poly = None
def _poly_class():
    "A Semiring class for dyna whose arithmetic is RPoly (a workload type, not code under test)."
    global _poly
    if _poly is not None: return _poly
    from semirings import base
    class NX(base.Semiring):
        def __init__(self, x): self.x = x
        def __add__(self, o): return NX(RPoly.plus(self.x, o.x))
        def __mul__(self, o):
            if isinstance(o, tuple):
                from dyna.term import Product
                return Product((self, *o))
            return NX(RPoly.times(self.x, o.x))
        def __eq__(self, o): return isinstance(o, NX) and self.x == o.x
        def __hash__(self): return hash(self.x)
        def __lt__(self, o): return self.x < o.x
        def __repr__(self): return f'NX({self.x})'
        @classmethod
        def lift(cls, w, h=None): return w if isinstance(w, NX) else cls(RPoly.lift(w, h))
        @classmethod
        def multiplicity(cls, v, m):
            if m == float('inf'): raise Discard()
            y = cls.zero
            for _ in range(int(m)): y = y + v
            return y
    NX.zero = NX(()); NX.one = NX(RPoly.one)
    _poly = NX
    return NX


# --- reference evaluation ----------------------------------------------------
class Budget:
    def __init__(self, n): self.n = n
    def use(self, k=1):
        self.n -= k
        if self.n < 0: raise Discard()


def firings(body, chart_ix, s, budget):
    "all substitutions making the body true, with the product of item values"
    def rec(k, val):
        if k == len(body):
            yield val
            return
        b = body[k]
        f = b[0]
        if f in CMPS:
            x, y = subst(b[1], s), subst(b[2], s)
            if not isinstance(x, int) or not isinstance(y, int): raise Discard()
            if CMPS[f](x, y): yield from rec(k + 1, val)
            return
        if f == 'is':
            v = arith(b[2], s)
            new = match(b[1], v, s)
            if new is not None:
                yield from rec(k + 1, val)
                for q in new: del s[q]
            return
        if f == '=':
            new = runify(b[1], b[2], s)
            if new is not None:
                yield from rec(k + 1, val)
                for q in new: del s[q]
            return
        if f == 'val':
            x = subst(b[1], s)
            if type(x) is not int or x <= 0: raise Discard()
            yield from rec(k + 1, val + (x,))
            return
        for item, v in chart_ix.get((f, len(b) - 1), ()):
            budget.use()
            new = match(b, item, s)
            if new is None: continue
            yield from rec(k + 1, val + (v,))
            for q in new: del s[q]
    yield from rec(0, ())


def tp(rules, chart, S, budget):
    ix = {}
    for it, v in chart.items():
        ix.setdefault((it[0], len(it) - 1), []).append((it, v))
    out = {}
    for r in rules:
        s = {}
        for vals in firings(r['b'], ix, s, budget):
            h = subst(r['h'], s)
            if not is_ground(h): raise Discard()
            v = S.one if r.get('w') is None else S.lift(r['w'], h)
            for x in vals: v = S.times(v, x)
            out[h] = S.plus(out[h], v) if h in out else v
    return {k: v for k, v in out.items() if v != S.zero}


def same_chart(a, b, S, exact):
    if a.keys() != b.keys(): return False
    if exact: return a == b
    return all(abs(a[k] - b[k]) < 1e-12 * max(1.0, abs(b[k])) for k in a)


def solve_ref(rules, S, work=60_000, iters=400, exact=True):
    "Least fixpoint {ground item: value}.  Discards when out of budget."
    budget = Budget(work)
    for r in rules:
        hv = set(tvars(r['h'])); bv = set()
        for b in r['b']: bv.update(tvars(b))
        if hv - bv: raise Discard()
    chart = {}
    for _ in range(iters):
        new = tp(rules, chart, S, budget)
        if S is RPoly and sum(len(v) for v in new.values()) > 3000: raise Discard()
        if same_chart(new, chart, S, exact): return new
        chart = new
    raise Discard()


# --- converting dyna's answers -----------------------------------------------
def to_ground(x):
    "dyna term -> frozen ground term (raises Discard on variables)"
    from dyna.term import Term, Var, snap
    x = snap(x)
    if isinstance(x, Var): raise NonGround(x)
    if isinstance(x, Term): return (x.fn,) + tuple(to_ground(a) for a in x.args)
    if isinstance(x, str): return ('"', x)
    return x


class NonGround(Exception): pass


def chart_of(sol, S):
    "Program of facts -> {ground item: value}"
    out = {}
    for r in sol:
        if r.head.fn.startswith('$'): continue      # auxiliary items the system introduced
        it = to_ground(r.head)
        v = RVAL(r.body, S)
        out[it] = S.plus(out[it], v) if it in out else v
    return {k: v for k, v in out.items() if not S.close(v, S.zero)}


def RVAL(body, S):
    v = S.one
    for x in body:
        v = S.times(v, S.of_dyna(x))
    return v


def diff_charts(have, want, S):
    "list of discrepancies"
    out = []
    for k in want:
        if k not in have:
            if not S.close(want[k], S.zero): out.append(('missing', k, None, want[k]))
        elif not S.close(have[k], want[k]): out.append(('value', k, have[k], want[k]))
    for k in have:
        if k not in want: out.append(('extra', k, have[k], None))
    return out


def unsound(have, want, S):
    "items whose partial value is not below the true one"
    return [(k, have[k], want.get(k)) for k in have
            if not S.le(have[k], want.get(k, S.zero))]


def solve_projected_ref(rules, S, dom):
    """The same for programs that drop variables (positive weights): a sum that gains terms
    when the universe gains a constant has infinitely many."""
    if len(set(dom)) < len(dom) or any((r.get('w') or 1) <= 0 or r.get('w') == 0 for r in rules): raise Discard()
    one = solve_nonground_ref(rules, S, dom)
    two = solve_nonground_ref(rules, S, dom, extra=('zz', 'zz2'))
    def grows(a, b): return abs(a - b) > 1e-12 * abs(b)
    out = {k: INF if grows(v, two[k]) else v for k, v in one.items()}
    if any(1e7 < v < INF for v in out.values()): raise Discard()      # what it grows by may be lost in it
    return out


def solve_nonground_ref(rules, S, dom, work=120_000, iters=40, extra=('zz',)):
    "Ground every rule over dom + one constant that occurs nowhere; {ground item: value}."
    import itertools
    U = list(dom) + [(z,) for z in extra]
    budget = Budget(work)
    chart = {}
    for _ in range(iters):
        ix = {}
        for it, v in chart.items(): ix.setdefault((it[0], len(it) - 1), []).append((it, v))
        new = {}
        for r in rules:
            bv = []
            for b in r['b']: tvars(b, bv)
            hv = [v for v in tvars(r['h']) if v not in bv]
            s = {}
            for vals in firings(r['b'], ix, s, budget):
                for combo in itertools.product(U, repeat=len(hv)):
                    budget.use()
                    h = subst(r['h'], {**s, **dict(zip(hv, combo))})
                    v = S.one if r.get('w') is None else S.lift(r['w'], h)
                    for x in vals: v = S.times(v, x)
                    new[h] = S.plus(new[h], v) if h in new else v
        new = {k: v for k, v in new.items() if v != S.zero}
        if S is RPoly and sum(len(v) for v in new.values()) > 4000: raise Discard()
        if new == chart: return new
        chart = new
    raise Discard()


# --- two-way unification (reference) ------------------------------------------
def walk(x, s):
    while isvar(x) and x in s: x = s[x]
    return x


def occurs(v, x, s):
    x = walk(x, s)
    if isvar(x): return x == v
    return isinstance(x, list) and any(occurs(v, y, s) for y in x[1:])


def mgu(a, b, s):
    "most general unifier extending s (a dict, not mutated) or None; occurs check on"
    a, b = walk(a, s), walk(b, s)
    if isvar(a):
        if isvar(b) and a == b: return s
        if occurs(a, b, s): return None
        return {**s, a: b}
    if isvar(b): return mgu(b, a, s)
    if isinstance(a, list) and isinstance(b, list):
        if a[0] != b[0] or len(a) != len(b): return None
        for x, y in zip(a[1:], b[1:]):
            s = mgu(x, y, s)
            if s is None: return None
        return s
    if isinstance(a, dict) and isinstance(b, dict): return s if a == b else None
    if isinstance(a, (list, dict)) or isinstance(b, (list, dict)): return None
    return s if a == b else None


def resolve(x, s):
    x = walk(x, s)
    if isinstance(x, list): return [x[0]] + [resolve(y, s) for y in x[1:]]
    return x


def rename(x, tag, d=None):
    if isvar(x): return f'{x}#{tag}'
    if isinstance(x, list): return [x[0]] + [rename(y, tag) for y in x[1:]]
    return x


def canon(x, m=None):
    "frozen term with variables numbered by first occurrence"
    if m is None: m = {}
    if isvar(x): return ('?', m.setdefault(x, len(m)))
    if isinstance(x, (list, tuple)): return (x[0],) + tuple(canon(y, m) for y in x[1:])
    if isinstance(x, dict): return ('"', x['s'])
    if isinstance(x, float) and x == int(x): return int(x)
    return x


def of_dyna(x):
    "dyna term -> JSON-like workload term (variables by identity)"
    from dyna.term import Term, Var, snap
    x = snap(x)
    if isinstance(x, Var): return f'_V{id(x)}'
    if isinstance(x, Term): return [x.fn] + [of_dyna(a) for a in x.args]
    if isinstance(x, str): return {'s': x}
    return x
