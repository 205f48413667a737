"""Shared pieces of the property modules."""
import json
import lang, gen, sched
from core import Violation, Discard, Chooser
from lang import REF


REAL_ENGINE = ['parser', 'rules/terms/unification', 'builtins', 'both forward-chaining engines',
               'chart and its indexes', 'interner', 'agenda implementations (unless replaced by the scheduler)',
               'budget and interrupt handling']
STUB_ENV = ['wall clock and interval timer (virtual)', 'SIGINT/SIGALRM delivery (injected at event boundaries)',
            'hash seed / variable identity hash (fixed per batch)', 'progress-bar thread (removed)']


def nontrivial_case(rng, families=('layered', 'interval', 'cyclic', 'convergent', 'structured'), semirings=None, tries=8, size=250):
    "a workload whose reference solution is computable and has derived items"
    last = None
    for _ in range(tries):
        c = gen.any_case(rng, families, semirings)
        try:
            want = ref_solution(c)
        except Discard:
            continue
        if c['fam'] not in ('cyclic', 'convergent'):
            # keep the number of derivations (hence adversarial schedules) small
            n = lang.solve_ref(c['F'] + c['R'], lang.RCount, work=200_000)
            if sum(n.values()) > size: continue
        base = {lang.subst(f['h'], {}) for f in c['F']}
        last = c
        if any(k not in base for k in want): return c
    if last is None: raise Discard()
    return last


def with_values(rng, size=250):
    "a case with variables as weights in some rules"
    c = nontrivial_case(rng, ('layered', 'layered', 'interval'), ['float'], size=size)
    if any(isinstance(y, (list, dict)) or (isinstance(y, str) and not lang.isvar(y)) for r in c['F'] + c['R'] for x in [r['h']] + r['b'] for y in x[1:]):
        return c        # not all data are numbers
    R = []
    for r in c['R']:
        b = list(r['b'])
        at = [(i, v) for i, y in enumerate(b) if isinstance(y, list) and y[0] not in lang.BUILTIN for v in lang.tvars(y)]
        if at and rng.random() < .5:
            i, v = rng.choice(at)
            for _ in range(rng.choice([1, 1, 2])):
                if rng.random() < .5:
                    n = f'N{len(b)}'
                    b.append(['is', n, ['+', v, rng.randint(1, 3)]]); b.append(['val', n])
                else: b.insert(rng.randint(i + 1, len(b)), ['val', v])
        R.append({**r, 'b': b})
    try: ref_solution({**c, 'R': R})
    except Discard: return c
    return {**c, 'R': R}


def ref_solution(c, F=None, R=None):
    S = REF[c['S']]
    return lang.solve_ref((c['F'] if F is None else F) + (c['R'] if R is None else R), S,
                          exact=c['fam'] != 'convergent')


def lifted(text, Sname):
    from dyna import Program
    p = Program(text)
    D = lang.dyna_semiring(Sname)
    return p.lift_semiring(D) if D is not None else p


def build_term(x, vs):
    "workload term -> dyna term, through the public constructors (no parsing)"
    from dyna import Term, Var
    if lang.isvar(x):
        v = vs.get(x)
        if v is None: v = vs[x] = Var(x)
        return v
    if isinstance(x, list) and x[0] == 'val': return build_term(x[1], vs)
    if isinstance(x, list): return Term(x[0], *[build_term(a, vs) for a in x[1:]])
    if isinstance(x, dict): return x['s']
    return x


def build_rule(r):
    from dyna import Rule
    vs = {}
    body = [build_term(b, vs) for b in r['b']]
    if r.get('w') is not None: body.insert(0, r['w'])
    return Rule(build_term(r['h'], vs), *body)


def make_program(rules, Sname, text=None):
    """Program for workload rules; by default a deterministic fifth of the
    programs goes through the text parser, the rest is built term by term."""
    from dyna import Program
    if text is None: text = (len(json.dumps(rules)) % 5 == 0)
    if text: return lifted(lang.show_program(rules), Sname)
    p = Program([build_rule(r) for r in rules])
    D = lang.dyna_semiring(Sname)
    return p.lift_semiring(D) if D is not None else p


def build_query(q): return build_term(q, {})


def agenda_kwargs(style, prio, ch, stats, on_pop=None):
    """kwargs for a solver: style 'heap'/'bucket' use the real implementations with
    scheduler-chosen priorities; the others replace the agenda."""
    kw = {}
    if style == 'heap':
        if prio: kw['priority'] = lambda item: ch.choose(16)
    elif style == 'bucket':
        from dyna.util.bucket_queue import BucketQueue
        kw['AgendaType'] = BucketQueue
        if prio: kw['priority'] = lambda item: ch.choose(16) - 5
    else:
        kw['AgendaType'] = lambda: sched.SimAgenda(ch, style, on_pop)
    return kw


def tame(c, key='agenda'):
    """Depth-first orders are exponential on real-valued cyclic programs (every
    path down to the tolerance): legal, but too slow to simulate."""
    if c['fam'] == 'convergent':
        if c[key] in ('lifo', 'sticky'): c[key] = 'uniform'
        if c[key] == 'bucket': c['prio'] = True
    return c


AGENDAS = ['uniform', 'uniform', 'fifo', 'lifo', 'sticky', 'burst', 'heap', 'bucket']


def fmt(d, k=3):
    return '; '.join(str(x) for x in d[:k])


def check_chart(kind, prog, want, S, what='chart', stats=None):
    try:
        have = lang.chart_of(prog, S)
    except lang.NonGround as e:
        raise Violation(kind, f'{what}: nonground item {e}')
    d = lang.diff_charts(have, want, S)
    if d:
        raise Violation(kind, f'{what}: (kind, item, have, want) {fmt(d)}')
    return have


def query_terms(rng, want, extra=()):
    "query patterns (JSON-like terms over fresh variables) for items of a chart"
    items = sorted(want, key=str)
    if not items: return []
    out = []
    for _ in range(3):
        it = rng.choice(items)
        out.append([it[0]] + [(f'Q{i}' if rng.random() < .6 else lang._unfreeze(a)) for i, a in enumerate(it[1:])])
    return out


def eval_query(q, chart, S):
    "reference answer: {instance: value}"
    out = {}
    for it, v in chart.items():
        if it[0] == q[0] and len(it) == len(q):
            if lang.match(q, it, {}) is not None: out[it] = v
    return out


def check_query(kind, ans, q, chart, S):
    want = eval_query(q, chart, S)
    have = lang.chart_of(ans, S)
    d = lang.diff_charts(have, want, S)
    if d: raise Violation(kind, f'query {lang.show(q)}: {fmt(d)}')
