"""S14: histories of program transformations preserve what they promise to preserve."""
import traceback
import lang, gen, sched, faults
from common import *
from interrupt import EVENTS
from contextlib import nullcontext

WALL = {'quick': 55, 'thorough': 900}
BATCHES = {'quick': (16, 800), 'thorough': (64, 8000)}
LISTS = ('F', 'R', 'b', 'O', 'ops', 'dup')
PROTECT = ('h', 'kind', 'op', 'dom')
LEVEL = 'fault_enumeration'
CHUNK = 25
LIMIT = 12_000_000
RULE = ('a run = a program, its data (as input or inside the program) and outputs, and a history of 1-6 transformations (unfold, fold, define, hook, eliminate, '
        'linearise, binarise, constant folding, builtin evaluation, unification normal form, four kinds of pruning, abbreviation, speculation, left-corner, '
        'undo, sorting, renaming), each applied to a version of the program picked by the scheduler (histories branch), some cancelled by Ctrl-C at a '
        'chosen event and repeated; every version is solved by a scheduled engine; non-trivial = a derived item is preserved; '
        'distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (transformation, rules before and after, outcome of the cancelled attempt, outcome of solving)'
REAL = REAL_ENGINE + ['all program transformations', 'type, usefulness and coarse analyses', 'measure-based and reversibility-based fold safety (with z3)']
STUB = STUB_ENV + ['agenda order (scheduler)', 'iteration order of sets (scheduler)']
ASSUMPTIONS = ['programs are range restricted; multiplication is commutative', 'data only contains declared inputs', 'an eliminated predicate and a pruned non-output are not promised to keep their values']
MODS = ['dyna.util.graphs', 'dyna.propagate', 'dyna.analyze.types', 'dyna.analyze.rewrites', 'dyna.analyze.coarse_graph', 'dyna.analyze.dead', 'dyna.program']

OPS = ['unfold', 'unfold', 'unfold', 'elim', 'elim', 'elim_p', 'linearize', 'folding', 'normal', 'snap', 'builtins', 'fresh', 'sort',
       'define', 'hook', 'hook', 'binarize', 'megafold', 'revfold', 'unitfold', 'prune', 'prune', 'prune_fast', 'prune_very_fast', 'prune_bottom_up', 'prune_dead',
       'abbreviate', 'slash', 'slash', 'lct', 'lct', 'undo', 'defold', 'unfold_x', 'reset']


NG_OPS = ['unfold', 'unfold_ng', 'unfold_ng', 'unfold_ng', 'unfold_ng', 'folding', 'fresh', 'sort', 'reset', 'define', 'undo', 'linearize', 'elim']


def gen(rng):
    if rng.random() < .14:
        import gen as G
        S = rng.choice(['float', 'float', 'float', 'minplus'])
        F, R, dom = G.nonground(rng, S, True)
        return {'fam': 'nonground', 'S': S, 'F': F, 'R': R, 'dom': dom, 'O': [],
                'ops': [{'op': rng.choice(NG_OPS), 'a': rng.randrange(60), 'b': rng.randrange(60), 'c': rng.randrange(60), 'kill': False}
                        for _ in range(rng.choice([1, 2, 2, 3]))],
                'dup': [], 'sets': rng.random() < .5, 'infacts': False}
    c = nontrivial_case(rng, ('layered', 'layered', 'interval', 'cyclic', 'structured'), ['poly', 'poly', 'float', 'minplus', 'bool'], size=120)
    heads = sorted({(r['h'][0], len(r['h']) - 1) for r in c['R']})
    if not heads: raise Discard()
    c['O'] = [list(h) for h in rng.sample(heads, rng.randint(1, min(3, len(heads))))]
    c['ops'] = [{'op': rng.choice(OPS), 'a': rng.randrange(60), 'b': rng.randrange(60), 'c': rng.randrange(60), 'kill': rng.random() < .25}
                for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 6]))]
    c['dup'] = [rng.randrange(6)] if rng.random() < .1 else []
    c['sets'] = rng.random() < .5
    c['infacts'] = rng.random() < .5
    return c


class Skip(Exception): pass


class Node:
    def __init__(self, p, keep, fam=None):
        self.p, self.keep = p, keep
        self.text = snapshot(p)
        self.hard = False        # contains speculation items: only engine 2 can run it


def snapshot(p):
    return p.plaintext(), str(p.inputs and p.inputs.plaintext()), str(p.outputs and p.outputs.plaintext())


def sig(x): return (x.fn, x.arity) if hasattr(x, 'fn') else (None, 0)


def run(c, ch, st):
    try: return run1(c, ch, st)
    except TypeError as e:
        if 'not supported between' in str(e): raise Discard() from None     # comparing a structure with a number
        raise


def run1(c, ch, st):
    from dyna import Program, term_vars, Term, Var
    from dyna.term import deref
    if c['fam'] == 'nonground': return run_nonground(c, ch, st)
    if not c['R'] or not c['O'] or not c['ops']: raise Discard()
    F, R = c['F'], c['R']
    S = REF[c['S']]
    heads = {(r['h'][0], len(r['h']) - 1) for r in R}
    O = {tuple(o) for o in c['O']}
    if not O <= heads: raise Discard()
    data = [f for f in F if (f['h'][0], len(f['h']) - 1) not in heads] if c['infacts'] else []
    own = [f for f in F if f not in data]
    ins = sorted({(f['h'][0], len(f['h']) - 1) for f in data})
    want = ref_solution(dict(c, R=R + [R[k % len(R)] for k in c['dup']]))
    st.trivial = not any((it[0], len(it) - 1) in heads for it in want)
    st.add(f'family.{c["fam"]}'); st.add(f'semiring.{c["S"]}')
    decl = lambda xs: ' '.join(f'{f}({",".join("_" * a)}).' if a else f'{f}.' for f, a in xs)
    root = make_program(own + R, c['S'])
    # some rules are present twice, as the very same object (as in `p + p`)
    root = root.spawn(ch.shuffle(list(root.rules) + [root.rules[len(own) + k % len(R)] for k in c['dup']]))
    root.set_input_types(decl(ins)); root.set_output_types(decl(sorted(O)))
    D = make_program(data, c['S']) if data else ''
    allheads = heads | {(f['h'][0], len(f['h']) - 1) for f in own}

    nodes = [Node(root, set(allheads))]
    with (sched.set_order(ch, MODS) if c['sets'] else nullcontext()):
        for o in c['ops']:
            node = nodes[-1] if ch.flip(3, 4) else nodes[ch.choose(len(nodes))]
            go(c, o, node, nodes, root, O, D, want, S, ch, st)
    # an older version still means what it meant
    old = nodes[ch.choose(len(nodes))]
    solve(old, D, want, S, ch, st, 'an earlier version')


def run_nonground(c, ch, st):
    "facts with variables, and rules that drop them (a sum of infinitely many terms)"
    from props import s01
    F, R = c['F'], c['R']
    S = REF[c['S']]
    if not R or not c['ops']: raise Discard()
    want = lang.solve_projected_ref(F + R, S, c['dom'])
    st.add('family.nonground'); st.add(f'semiring.{c["S"]}'); st.add('infinite-sums', sum(v == lang.INF for v in want.values()) if S is lang.RFloat else 0)
    root = make_program(F + R, c['S'])
    root = root.spawn(ch.shuffle(list(root.rules)))
    heads = {(r['h'][0], len(r['h']) - 1) for r in F + R}
    nodes = [Node(root, heads)]
    with (sched.set_order(ch, MODS) if c['sets'] else nullcontext()):
        for o in c['ops']:
            node = nodes[-1] if ch.flip(3, 4) else nodes[ch.choose(len(nodes))]
            try: r = apply(o['op'], o, node, root, set(), ch)
            except Skip: st.add(f'skipped.{o["op"]}'); continue
            if r is None: continue
            q, keep, _ = r
            if snapshot(node.p) != node.text: raise Violation('damage', f'{o["op"]} changed the program it was applied to')
            st.add(f'op.{o["op"]}')
            nodes.append(Node(q, keep))
            try: s = q('', solver=2, budget=1500, throw=False)
            except Exception as e:
                if type(e).__name__ in ('InstFault', 'NotImplementedError'): st.add('unsolved.inst'); continue
                raise
            if s.interrupted: st.add('unsolved.budget'); continue
            live = lambda rs: [r for r in rs if (r['h'][0], len(r['h']) - 1) in keep]
            s01.check_nonground(dict(c, F=live(F), R=live(R)), s, want, S, None)
            st.add('solved'); st.state((o['op'], len(node.p), len(q)))
    st.trivial = len(nodes) == 1


def go(c, o, node, nodes, root, O, D, want, S, ch, st):
    op = o['op']
    if o['kill']:
        faults.arm_kill(1 + ch.choose(40) if ch.flip(1, 3) else 1 + ch.choose(4000))
        try: apply(op, o, node, root, O, ch)
        except KeyboardInterrupt:
            st.add('fault.ctrl-c'); st.state((op, 'kill'))
        except Skip: pass
        finally: faults.disarm()
        if snapshot(node.p) != node.text: raise Violation('damage', f'a cancelled {op} changed the program it was applied to')
    n0 = len(node.p)
    try: r = apply(op, o, node, root, O, ch)
    except Skip:
        st.add(f'skipped.{op}')
        return
    if r is None: return
    q, keep, hard = r
    st.add(f'op.{op}')
    if snapshot(node.p) != node.text: raise Violation('damage', f'{op} changed the program it was applied to')
    new = Node(q, keep)
    new.hard = hard or node.hard
    out = solve(new, D, want, S, ch, st, f'{op}({o["a"]},{o["b"]},{o["c"]})')
    st.state((op, n0, len(q), out))
    nodes.append(new)


def solve(node, D, want, S, ch, st, what):
    p = node.p
    hard = node.hard or not p.is_range_restricted()
    eng = 2 if hard else 1 + ch.choose(2)
    kw = {}
    if not hard and ch.flip(1, 2): kw = agenda_kwargs(['uniform', 'fifo', 'burst', 'heap'][ch.choose(4)], False, ch, st)
    try:
        s = p(D, solver=eng, budget=300 if hard else 1500, throw=False, **kw)
    except Exception as e:
        if hard and type(e).__name__ in ('InstFault', 'NotImplementedError'):
            st.add('unsolved.inst'); return 'inst'
        raise
    if s.interrupted:
        st.add('unsolved.budget'); return 'budget'
    have = {}
    for r in s.sol():
        if sig(r.head) not in node.keep: continue
        it = lang.to_ground(r.head)
        v = lang.RVAL(r.body, S)
        have[it] = S.plus(have[it], v) if it in have else v
    have = {k: v for k, v in have.items() if not S.close(v, S.zero)}
    w = {k: v for k, v in want.items() if (k[0], len(k) - 1) in node.keep}
    d = lang.diff_charts(have, w, S)
    if d: raise Violation('meaning', f'after {what}: (kind, item, have, want) {fmt(d)}')
    st.add('solved')
    return 'ok'


def pick(xs, k):
    xs = list(xs)
    if not xs: raise Skip()
    return xs[k % len(xs)]


def vague(t):
    "some simple type has a free variable, and some has a variable not known to be free or bound"
    from dyna import term_vars
    free = False; unknown = False
    for r in t.chart:
        fs = {v for y in r.body if y.fn == '$free' for v in term_vars(y)}
        free |= bool(fs)
        unknown |= bool(set(term_vars(r.head)) - {v for y in r.body if y.fn in ('$free', '$bound') for v in term_vars(y)})
    return free and unknown


def abbreviate_vague():
    from dyna import Program
    p = Program('goal += suf(A). suf(X) += inp(X). suf(X) += suf([Y | X]).')
    p.set_input_types('inp(X).'); p.set_output_types('suf(X).')
    q = p.slash('suf(V)', {0: 0, 1: 0})
    a = q.abbreviate()
    D = Program('inp([1]).')
    want = {str(r.head) for r in q(D, solver=2).sol() if r.head.fn == 'suf'}
    have = {str(r.head) for r in a(D, solver=2).sol() if r.head.fn == 'suf'}
    return want != have

KNOWN = {'S14-abbreviate-vague': abbreviate_vague}


HEAVY = ('prune', 'prune_dead', 'prune_bottom_up', 'abbreviate')

def apply(op, o, node, root, O, ch):
    "bounds the type analyses, whose cost grows fast with the program (that they end is S10's business)"
    if op not in HEAVY: return apply1(op, o, node, root, O, ch)
    import env
    lim = EVENTS.limit
    EVENTS.limit = min(lim, EVENTS.count + 4_000_000)
    try: return apply1(op, o, node, root, O, ch)
    except env.SimDeadlock: raise Discard() from None
    finally: EVENTS.limit = lim


def apply1(op, o, node, root, O, ch):
    from dyna import Program, term_vars, Term, Var
    from dyna.term import fresh, unifies, covers
    p, keep = node.p, node.keep
    a, b, c = o['a'], o['b'], o['c']
    big = len(p) > 30
    out = keep & O
    if op == 'unfold':
        if big: raise Skip()
        i, j = pick([(i, j) for i, r in enumerate(p.rules) for j, y in enumerate(r.body) if p.safe_inline(y)], a * 60 + b)
        return p.unfold(i, j), keep, False
    if op == 'unfold_ng':
        i, j = pick([(i, j) for i, r in enumerate(p.rules) for j, y in enumerate(r.body) if isinstance(y, Term) and y.fn[0] == 'n' and p.safe_inline(y)], a * 60 + b)
        return p.unfold(i, j), keep, False
    if op == 'unfold_x':
        x = pick(sorted({sig(y) for r in p.rules for y in r.body if isinstance(y, Term) and p.safe_inline(y) and not p.is_builtin(y)}), a)
        if big or p._coarse_graph().possibly_cyclic(): raise Skip()
        if sum(sig(y) == x for r in p.rules for y in r.body) > 4: raise Skip()
        return p.unfold_x(Term(x[0], *[Var(f'V{k}') for k in range(x[1])])), out, False
    if op in ('elim', 'elim_p'):
        if big: raise Skip()
        i = pick([i for i, r in enumerate(p.rules) if not p.is_output(r.head)], a)
        h = sig(p.rules[i].head)
        q = p.elim(i)
        k = keep - {h}
        return (q.prune(), k & O, False) if op == 'elim_p' else (q, k, False)
    if op == 'linearize': return p.linearize(), keep, False
    if op == 'folding': return p.constant_folding(), keep, False
    if op == 'normal': return p.normalize_unification2(), keep, True
    if op == 'snap': return keepio(p, p.snap_unifications()), keep, False
    if op == 'builtins': return keepio(p, p.run_builtins()), keep, False
    if op == 'fresh': return p.fresh(), keep, False
    if op == 'sort': return p.sort(), keep, False
    if op == 'reset': return keepio(p, p.reset_transform_history()), keep, False
    if op in ('define', 'hook'):
        i = pick([i for i, r in enumerate(p.rules) if len(r.body) >= 1 and not all(p.is_const(y) for y in r.body)], a)
        n = len(p.rules[i].body)
        js = [j for j in range(n) if (b >> j) & 1] or [b % n]
        if all(p.is_const(p.rules[i].body[j]) or p.is_builtin(p.rules[i].body[j]) for j in js): raise Skip()
        # a comparison cut off from what binds its variables cannot be run bottom-up
        if op == 'define': return p.define([p.loop_absorption(i, js)]), keep, any(p.is_builtin(p.rules[i].body[j]) for j in js)
        try: return p.hook(i, js), keep, True
        except ValueError: raise Skip() from None
    if op == 'binarize':
        if not all(len(r.body) < 3 or ok_binary(p, r) for r in p.rules): raise Skip()
        return p.binarize(), keep, True
    if op in ('megafold', 'revfold', 'unitfold'):
        if len(p) > 9 or max((len(r.body) for r in p.rules), default=0) > 3: raise Skip()
        it = {'megafold': p.megafolds, 'revfold': p.reversible_megafolds, 'unitfold': p.megafolds_unit}[op]
        got = []
        for q in it():
            got.append(q)
            if len(got) > a % 3: break
        if not got: raise Skip()
        return got[-1], keep, False
    if op in ('prune', 'prune_dead', 'prune_bottom_up', 'abbreviate') and node.hard and len(p) > 12: raise Skip()    # these analyses are exponential
    if op == 'prune': return p.prune(), out, False
    if op == 'prune_dead': return p.prune(specialize=False), out, False
    if op == 'prune_bottom_up': return p.prune_bottom_up(), keep, False
    if op == 'prune_fast': return p.prune_fast(), out, False
    if op == 'prune_very_fast': return p.prune_very_fast(), out, False
    if op == 'abbreviate':
        if len(p) > 12: raise Skip()
        t = p.type_analysis()
        if vague(t): raise Skip()       # known finding: S14-abbreviate-vague
        try: return p.abbreviate(types=t), keep, False
        except AssertionError:
            if 'is_disjoint' in traceback.format_exc(): raise Skip() from None      # documented precondition
            raise
    if op in ('slash', 'lct'):
        if len(p) > 8: raise Skip()
        pos = {}
        for i, r in enumerate(p.rules):
            js = [j for j, y in enumerate(r.body) if not p.is_const(y) and not p.is_builtin(y)]
            if js and (b + i * 7) % 3: pos[i] = js[(c + i) % len(js)]
        if not pos: raise Skip()
        xs = sorted({sig(p.rules[i].body[j]) for i, j in pos.items()})
        if a % 3 == 0: x = 'X'
        elif a % 3 == 1:        # an instance: one of the subgoals, with its variables kept apart
            i, j = sorted(pos.items())[a % len(pos)]
            x = apart(p.rules[i].body[j])
            pos = {i: j for i, j in pos.items() if not unifies(fresh(x), fresh(p.rules[i].body[j])) or covers(x, p.rules[i].body[j])}
        else:
            f, n = xs[a % len(xs)]
            x = Term(f, *[Var(f'V{k}') for k in range(n)])
        if op == 'slash': return p.slash(x, pos), keep, True
        return p.lct(pos, x=x), keep, True
    if op in ('undo', 'defold'):
        if not hasattr(p, 'undo'): raise Skip()
        if None in getattr(p, 'new2def', {}).values(): raise Skip()     # a builtin was evaluated: there is no rule to fold by
        return p.undo, keep, False
    raise Exception(op)


def apart(x):
    from dyna import Term, Var
    from dyna.term import snap
    x = snap(x)
    if isinstance(x, Term): return Term(x.fn, *map(apart, x.args))
    return Var() if isinstance(x, Var) else x


def ok_binary(p, r):
    return sum(not p.is_const(y) and not p.is_builtin(y) for y in r.body[1:]) > 0


def keepio(p, q):
    q.set_input_types(p.inputs); q.set_output_types(p.outputs)
    return q
