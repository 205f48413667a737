"""S10: what the analyses conclude is sound and does not depend on the order things were seen in."""
import lang, gen, sched, faults
from common import *
from lang import mgu, canon, isvar
from interrupt import EVENTS
from contextlib import nullcontext

WALL = {'quick': 50, 'thorough': 600}
BATCHES = {'quick': (16, 900), 'thorough': (64, 8000)}
LISTS = ('F', 'R', 'b', 'ops', 'pool', 'E', 'roots', 'hyper', 'O', 'ana')
PROTECT = ('h', 'kind', 'op')
LEVEL = 'fault_enumeration'
CHUNK = 60
LIMIT = 15_000_000
RULE = ('a run = either a history of insertions and lookups on the term collections in scheduler-chosen order, or graph algorithms on one random '
        '(hyper)graph, or the program analyses (coarse graph, components, simple types, usefulness, cycle tests) on one program, under '
        'scheduler-chosen iteration orders of sets, with Ctrl-C at a chosen event of an analysis that is then asked again; non-trivial = overlapping '
        'patterns / a nontrivial component / a derived item; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (kind, sizes of the result, outcome of the cancelled attempt) of each analysis or insertion'
REAL = ['NoDupsSet, MostGeneralSet, DisjointEstimate', 'Graph, Hypergraph, Tarjan', 'CoarseGraph', 'type and usefulness analysis with constraint propagation', 'Program caches']
STUB = STUB_ENV + ['iteration order of sets (scheduler)', 'order of insertions (scheduler)']
ASSUMPTIONS = ['insertion into a collection is not interrupted half way', 'analyses are compared with an independent evaluator on ground data matching the input types']
MODS = ['dyna.util.graphs', 'dyna.propagate', 'dyna.analyze.types', 'dyna.analyze.rewrites', 'dyna.analyze.coarse_graph', 'dyna.analyze.dead', 'dyna.program']


def pat(rng, depth=0, vs=('X', 'Y', 'Z')):
    x = rng.random()
    if x < .45: return rng.choice(vs)
    if x < .75 or depth > 1: return rng.choice([0, 1, ['a'], ['b'], {'s': 'a'}])
    if x < .9: return ['f', pat(rng, depth + 1, vs)]
    return ['g', pat(rng, depth + 1, vs), pat(rng, depth + 1, vs)]


def gen(rng):
    kind = rng.choice(['collect', 'collect', 'graph', 'graph', 'program', 'program', 'program'])
    if kind == 'collect':
        ar = {p: rng.randint(1, 3) for p in rng.sample('pqr', rng.randint(1, 2))}
        pool = []
        for _ in range(rng.randint(2, 8)):
            p = rng.choice(sorted(ar))
            pool.append([p] + [pat(rng) for _ in range(ar[p])])
        ops = [{'op': rng.choice(['add', 'add', 'add', 'find']), 'i': rng.randrange(len(pool))} for _ in range(rng.randint(2, 14))]
        return {'kind': kind, 'C': rng.choice(['nodups', 'general', 'disjoint', 'disjoint']), 'pool': pool, 'ops': ops}
    if kind == 'graph':
        n = rng.randint(1, 9)
        m = rng.randint(0, 2 * n)
        E = [[rng.randrange(n), rng.randrange(n)] for _ in range(m)]
        hyper = []
        for _ in range(rng.randint(0, 16)):
            hyper.append([rng.randrange(n)] + [rng.randrange(n) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))])
        return {'kind': kind, 'n': n, 'E': E, 'roots': [rng.randrange(n) for _ in range(rng.randint(0, 3))], 'hyper': hyper,
                'ins': rng.sample(range(n), rng.randint(0, min(3, n))), 'outs': rng.sample(range(n), rng.randint(0, min(2, n)))}
    c = nontrivial_case(rng, ('layered', 'interval', 'cyclic', 'structured'), ['poly', 'float', 'minplus'], size=100)
    c['kind'] = kind
    heads = sorted({(r['h'][0], len(r['h']) - 1) for r in c['R']})
    c['O'] = [list(h) for h in rng.sample(heads, rng.randint(1, min(3, len(heads))))]
    c['ana'] = [{'op': rng.choice(['coarse', 'scc', 'types', 'useful', 'cyclic', 'split', 'hyper']), 'kill': rng.random() < .4}
                for _ in range(rng.randint(1, 3))]
    c['sets'] = rng.random() < .7
    c['infacts'] = rng.random() < .5
    return c


# --- reference on patterns -------------------------------------------------------
def freeze_vars(x):
    "skolemise"
    if isvar(x): return ['$sk' + x]
    if isinstance(x, list): return [x[0]] + [freeze_vars(y) for y in x[1:]]
    return x


def ren(x, t): return lang.rename(x, t)
def covers(a, b): return mgu(ren(a, 'A'), freeze_vars(b), {}) is not None
def overlaps(a, b): return mgu(ren(a, 'A'), ren(b, 'B'), {}) is not None
def variant(a, b): return canon(a) == canon(b)


def lgg(a, b):
    m = {}
    def rec(x, y):
        if isinstance(x, list) and isinstance(y, list) and x[0] == y[0] and len(x) == len(y):
            return [x[0]] + [rec(p, q) for p, q in zip(x[1:], y[1:])]
        if not isvar(x) and not isvar(y) and x == y and type(x) is type(y): return x
        k = (str(canon_key(x)), str(canon_key(y)))
        return m.setdefault(k, f'L{len(m)}')
    return rec(a, b)
def canon_key(x): return x


def run(c, ch, st):
    {'collect': run_collect, 'graph': run_graph, 'program': run_program}[c['kind']](c, ch, st)


def run_collect(c, ch, st):
    from dyna.term import NoDupsSet, MostGeneralSet, DisjointEstimate, same, covers as dcovers
    pool = c['pool']
    if not pool: raise Discard()
    st.add(f'collect.{c["C"]}')
    K = c['C']
    Q = NoDupsSet((), same) if K == 'nodups' else MostGeneralSet((), dcovers) if K == 'general' else DisjointEstimate()
    model = []
    inserted = []
    ops = ch.shuffle(c['ops'])
    shared = [build_term(x, {}) for x in pool]
    st.trivial = not any(overlaps(a, b) and a is not b for a in pool for b in pool)
    for o in ops:
        x = pool[o['i'] % len(pool)]
        t = shared[o['i'] % len(pool)] if ch.flip(1, 2) else build_term(x, {})
        if o['op'] == 'add':
            got = Q.add(t)
            inserted.append(x)
            if K == 'nodups':
                w = any(variant(x, y) for y in model)
                if not w: model.append(x)
                if got is not w: raise Violation('add', f'add({lang.show(x)}) returned {got}, expected {w}')
            elif K == 'general':
                w = any(covers(y, x) for y in model)
                if not w: model = [y for y in model if not covers(x, y)] + [x]
                if got is not w: raise Violation('add', f'add({lang.show(x)}) returned {got}, expected {w}')
        have = [lang.of_dyna(y) for y in Q]
        if len(Q) != len(have): raise Violation('len', 'length differs from iteration')
        st.state((K, len(have), len(inserted)))
        if K != 'disjoint':
            if sorted(map(repr, map(canon, have))) != sorted(map(repr, map(canon, model))):
                raise Violation('contents', f'{K}: {[lang.show(y) for y in have]} instead of {[lang.show(y) for y in model]}')
        else:
            for i in range(len(have)):
                for j in range(i):
                    if overlaps(have[i], have[j]): raise Violation('overlap', f'{lang.show(have[i])} and {lang.show(have[j])} overlap')
            for y in inserted:
                n = sum(covers(h, y) for h in have)
                if n != 1: raise Violation('cover', f'{lang.show(y)} is covered by {n} of {[lang.show(h) for h in have]}')
                if not any(overlaps(y, z) for z in inserted if not variant(y, z)) and not any(variant(y, h) for h in have):
                    # nothing else overlaps it, but a merge of others may grow over it
                    if not any(sum(covers(h, z) for z in inserted) > 1 for h in have if covers(h, y)):
                        raise Violation('grown', f'{lang.show(y)} was generalised for no reason')
        if o['op'] == 'find':
            if K == 'disjoint':
                want = [i for i, h in enumerate(have) if overlaps(h, x)]
                got = Q.find_all(t)
                if list(got) != want: raise Violation('find', f'find_all({lang.show(x)}) = {got}, expected {want}')
                if len(Q.roots(t)) != len(want): raise Violation('find', 'roots')
            else:
                want = [i for i, h in enumerate(have) if (covers(h, x) if K == 'general' else variant(h, x))]
                try: got = Q.find(t)
                except KeyError: got = None
                if (got is None) != (not want) or (want and got not in want):
                    raise Violation('find', f'find({lang.show(x)}) = {got}, expected {want}')
    if K != 'nodups':
        # insertion order does not matter
        Q2 = MostGeneralSet((), dcovers) if K == 'general' else DisjointEstimate()
        for x in ch.shuffle(inserted): Q2.add(build_term(x, {}))
        a = sorted(repr(canon(lang.of_dyna(y))) for y in Q)
        b = sorted(repr(canon(lang.of_dyna(y))) for y in Q2)
        if K == 'general' and a != b: raise Violation('order', f'the result depends on the order of insertion: {a} vs {b}')
        if a != b: st.add('probe.disjoint-order')
    # nobody's variables were bound
    for t, x in zip(shared, pool):
        if canon(lang.of_dyna(t)) != canon(x): raise Violation('leak', f'{lang.show(x)} was changed to {t}')


# --- graphs ----------------------------------------------------------------------
def reach(E, start):
    seen = set(); todo = list(start)
    while todo:
        x = todo.pop()
        for (u, v) in E:
            if u == x and v not in seen:
                seen.add(v); todo.append(v)
    return seen


def run_graph(c, ch, st):
    from dyna.util.graphs import Graph, Hypergraph
    n = c['n']
    if n < 1: raise Discard()
    E = [(u % n, v % n) for u, v in c['E']]
    with sched.set_order(ch, MODS):
        g = Graph(ch.shuffle(E))
        nodes = {x for e in E for x in e}
        if set(g.nodes) != nodes: raise Violation('graph', 'nodes')
        roots = [r % n for r in c['roots'] if r % n in nodes]
        C = g.condensation(roots=roots or None)
        rr = set(roots) or nodes
        seen = set(rr) | reach(E, rr)
        R = {x: reach(E, [x]) for x in seen}
        topo = list(C.topo)
        st.trivial = all(len(x) == 1 for x in topo) or len(topo) < 2
        st.state(('graph', len(nodes), len(topo), max(map(len, topo), default=0)))
        flat = [x for xs in topo for x in xs]
        if sorted(flat) != sorted(seen): raise Violation('scc', f'components {topo} do not partition {seen}')
        where = {x: i for i, xs in enumerate(topo) for x in xs}
        for x in seen:
            for y in seen:
                same = x == y or (y in R[x] and x in R[y])
                if same != (where[x] == where[y]): raise Violation('scc', f'{x} and {y} {"should" if same else "should not"} share a component: {topo} of {E}')
        for u, v in E:
            if u in seen and where[v] > where[u]: raise Violation('topo', f'component of {v} comes after that of {u}, which depends on it')
        want = {(topo[where[u]], topo[where[v]]) for u, v in E if u in seen and where[u] != where[v]}
        if set(C.edges) != want: raise Violation('condensation', f'{set(C.edges)} instead of {want}')
        for refl in (False, True):
            T = g.transitive_closure(reflexive=refl)
            want = {(x, y) for x in nodes for y in reach(E, [x]) | ({x} if refl else set())}
            if set(T.edges) != want: raise Violation('closure', f'transitive closure of {E} (reflexive={refl}): wrong {set(T.edges) ^ want}')
        # hypergraph
        H = [(i, h[0] % n, tuple(x % n for x in h[1:])) for i, h in enumerate(c['hyper'])]
        def mk():
            G = Hypergraph()
            for i, h, bs in H: G.add_edge(h, i, *bs)
            return G
        G = mk()
        ins = {x % n for x in c['ins']}; outs = {x % n for x in c['outs']}
        a, b = set(ins), set(outs)
        T = set(G.reachability(a, b))
        if (a, b) != (ins, outs): raise Violation('graph', 'reachability changed its arguments')
        Cn = set(ins)
        while True:
            new = Cn | {h for _, h, bs in H if all(x in Cn for x in bs)}
            if new == Cn: break
            Cn = new
        live = [e for e in H if all(x in Cn for x in e[2])]
        useful, loose = set(outs), set(outs)
        while True:
            new = useful | {x for _, h, bs in live if h in useful for x in bs}
            if new == useful: break
            useful = new
        while True:
            new = loose | {x for _, h, bs in H if h in loose for x in bs if x in Cn}
            if new == loose: break
            loose = new
        if not useful <= T: raise Violation('reachability', f'{useful - T} is useful but pruned: {H} in={ins} out={outs}')
        if not T <= loose: raise Violation('reachability', f'{T - loose} is not reachable: {H} in={ins} out={outs}')
        if not (G == mk()): raise Violation('graph', 'asking what is reachable changed the hypergraph')


# --- programs --------------------------------------------------------------------
def run_program(c, ch, st):
    if not c['R'] or not c['O'] or not c['ana']: raise Discard()
    F, R = c['F'], c['R']
    heads = {(r['h'][0], len(r['h']) - 1) for r in R}
    O = [tuple(o) for o in c['O']]
    if any(o not in heads for o in O): raise Discard()
    data = [f for f in F if (f['h'][0], len(f['h']) - 1) not in heads] if c['infacts'] else []
    own = [f for f in F if f not in data]
    ins = sorted({(f['h'][0], len(f['h']) - 1) for f in data})
    rules = ch.shuffle(own + R)
    want = ref_solution(c)
    st.trivial = not any((it[0], len(it) - 1) in heads for it in want)
    st.add(f'family.{c["fam"]}')
    inputs = ' '.join(f'{f}({",".join("_" * a)}).' if a else f'{f}.' for f, a in ins)
    outputs = ' '.join(f'{f}({",".join("_" * a)}).' if a else f'{f}.' for f, a in O)
    p = make_program(rules, c['S'])
    p.set_input_types(inputs); p.set_output_types(outputs)
    before = p.plaintext()

    # ground dependencies
    ix = {}
    for it in want: ix.setdefault((it[0], len(it) - 1), []).append((it, (it,)))
    deps = []           # (head item, body items)
    for r in F + R:
        s = {}
        for items in lang.firings(r['b'], ix, s, lang.Budget(20000)):
            deps.append((lang.subst(r['h'], s), [v[0] for v in items]))
    useful = {h for h, _ in deps if (h[0], len(h) - 1) in O}
    while True:
        new = useful | {b for h, bs in deps if h in useful for b in bs}
        if new == useful: break
        useful = new

    def thaw(it): return lang._unfreeze(it)

    def ask(op):
        try: return ask1(op)
        except TypeError as e:
            if 'not supported between' in str(e): raise Discard() from None     # comparing a structure with a number
            raise

    def ask1(op):
        if op in ('coarse', 'scc', 'split', 'cyclic', 'hyper'): return p._coarse_graph()
        if op == 'types': return p.type_analysis()
        return p.usefulness_analysis()

    with (sched.set_order(ch, MODS) if c['sets'] else nullcontext()):
        for o in c['ana']:
            op = o['op']; st.add(f'analysis.{op}')
            if o['kill']:
                faults.arm_kill(1 + ch.choose(60) if ch.flip(1, 3) else 1 + ch.choose(6000))
                try: ask(op)
                except KeyboardInterrupt:
                    st.add('fault.ctrl-c'); st.state((op, 'kill'))
                faults.disarm()
                if p.plaintext() != before: raise Violation('damage', f'a cancelled {op} analysis changed the program')
            A = ask(op)
            if op in ('coarse', 'scc', 'split', 'cyclic', 'hyper'):
                nodes = A.nodes
                xs = [lang.of_dyna(x) for x in nodes]
                st.state((op, len(xs)))
                for i in range(len(xs)):
                    for j in range(i):
                        if overlaps(xs[i], xs[j]): raise Violation('coarse', f'classes {lang.show(xs[i])} and {lang.show(xs[j])} overlap')
                def cls(it):
                    w = [i for i, x in enumerate(xs) if covers(x, thaw(it))]
                    if len(w) != 1: raise Violation('coarse', f'item {it} is in {len(w)} classes of {[lang.show(x) for x in xs]}')
                    return w[0]
                if op == 'coarse':
                    ns = [lang.of_dyna(x) for x in A.g.nodes]
                    edges = [(canon(lang.of_dyna(u)), canon(lang.of_dyna(v))) for u, v in A.g.edges]
                    for h, bs in deps:
                        for b in bs:
                            if (canon(xs[cls(h)]), canon(xs[cls(b)])) not in edges:
                                raise Violation('coarse', f'{h} depends on {b}, but the coarse graph does not say so')
                elif op == 'hyper':
                    es = {(canon(lang.of_dyna(e.head)), tuple(sorted(repr(canon(lang.of_dyna(x))) for x in e.body))) for e in A.h.edges()}
                    for h, bs in deps:
                        e = (canon(xs[cls(h)]), tuple(sorted(repr(canon(xs[cls(b)])) for b in bs)))
                        if (h[0], len(h) - 1) in heads and e not in es: raise Violation('coarse', f'{h} <- {bs} is not in the coarse hypergraph')
                elif op == 'scc':
                    check_scc(c, p, A, want, heads, O, data, useful, ch, st)
                elif op == 'split':
                    check_split(c, p, A, want, heads, O, data, deps, st)
                elif op == 'cyclic':
                    nodes_ = set(want)
                    E = [(h, b) for h, bs in deps for b in bs]
                    real = any(x in reach(E, [x]) for x in nodes_)
                    if real and not A.possibly_cyclic(): raise Violation('cyclic', 'the program has a cyclic derivation, but is reported acyclic')
                    A.possibly_cyclic()
                    twice = any(sum(h == b or h in reach(E, [b]) for b in bs) > 1 for h, bs in deps)
                    if twice and not A.possibly_expansive(): raise Violation('cyclic', 'an item depends on two copies of itself, but the program is reported nonexpansive')
                    A.possibly_expansive()
            else:
                ts = [lang.of_dyna(r.head) for r in A.chart]
                st.state((op, len(ts)))
                for it in (want if op == 'types' else useful & set(want)):
                    if not any(covers(t, thaw(it)) for t in ts):
                        raise Violation('types', f'{op}: item {it} has no type among {[lang.show(t) for t in ts]}')
                if op == 'types':
                    for t in ts:
                        if t[0] not in {k[0] for k in ix} | {h[0] for h in heads} | {i[0] for i in ins} | {f["h"][0] for f in F}:
                            raise Violation('types', f'type {lang.show(t)} of no known predicate')
    if p.plaintext() != before: raise Violation('damage', 'the program changed')


def check_scc(c, p, A, want, heads, O, data, useful, ch, st):
    S = REF[c['S']]
    comps = list(A.scc_decomposition())
    chart = dict(ref_chart(data, S))
    placed = {}
    for k, (xs, q) in enumerate(comps):
        for x in xs:
            for it in want:
                if covers(lang.of_dyna(x), lang._unfreeze(it)): placed[it] = k
    for it in useful:
        if it in want and it not in placed: raise Violation('scc', f'{it} is needed for an output but in no component')
    # solving the components one after the other solves the program
    from dyna import Program
    have = dict(chart)
    for xs, q in comps:
        d = make_facts(have, c['S'])
        try: sol = q.solve(d)
        except Exception as e:
            if type(e).__name__ in ('InstFault',): raise Discard() from None
            raise
        got = lang.chart_of(sol, S)
        pats = [lang.of_dyna(x) for x in xs]
        for it, v in got.items():
            if any(covers(x, lang._unfreeze(it)) for x in pats): have[it] = v
    for it in useful:
        if it in want and not S.close(have.get(it, S.zero), want[it]):
            raise Violation('scc', f'solving component by component gives {it} = {have.get(it)}, not {want[it]}')
    st.state(('scc', len(comps)))


def check_split(c, p, A, want, heads, O, data, deps, st):
    S = REF[c['S']]
    I, D = A.split_input_dependent()
    if len(I) + len(D) != len(p): raise Violation('split', 'the two halves are not the whole program')
    dk = {lang.subst(f['h'], {}) for f in data}
    E = [(h, b) for h, bs in deps for b in bs]
    ih = [lang.of_dyna(r.head) for r in I]
    nd = make_program(data, c['S']) if data else ''
    q = A.solve_input_independent()
    q.set_input_types(p.inputs); q.set_output_types(p.outputs)
    sol = q.solve(nd) if data else q.solve()
    got = lang.chart_of(sol, S)
    for it in want:
        if (it[0], len(it) - 1) in heads and not S.close(got.get(it, S.zero), want[it]):
            raise Violation('split', f'after solving the input-independent half, {it} = {got.get(it)}, not {want[it]}')
    st.state(('split', len(I), len(D)))


def ref_chart(data, S): return lang.solve_ref(data, S) if data else {}


def make_facts(chart, Sname):
    "facts with the given semiring values"
    from dyna import Program, Rule
    if not chart: return ''
    D = lang.dyna_semiring(Sname)
    def val(v):
        if Sname == 'poly': return D(v)
        if D is None: return v
        return D.lift(v, None) if Sname != 'bool' else (D.one if v else D.zero)
    p = Program([], semiring=D) if D is not None else Program([])
    for it, v in chart.items(): p.append(Rule(build_term(lang._unfreeze(it), {}), val(v)))
    return p
