"""S07: the work queues obey their contract for every history of operations."""
import lang
from common import *
from props.s05 import rterm

WALL = {'quick': 25, 'thorough': 300}
BATCHES = {'quick': (16, 2500), 'thorough': (64, 20000)}
CHUNK = 200
LISTS = ('ops',)
PROTECT = ('op', 'Q')
RULE = ('a run = 10-120 operations on one work queue (bucket queue or search agenda) by several clients: insert, re-prioritise, delete, look up, '
        'pop, and step one of several live draining iterators, in scheduler-chosen order; every answer is compared with a dictionary model and '
        'the queue is drained at the end; non-trivial = the minimum moved down and up again between pops; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (operation, number of items, number of distinct priorities, drop/rise of the minimum) after each step'
REAL = ['BucketQueue', 'search Agenda', 'terms as queue items']
STUB = STUB_ENV + ['which client acts next, set order within a bucket (scheduler/hash seed)']
ASSUMPTIONS = ['queue operations themselves are not interrupted half way']


def gen(rng):
    items = []
    for _ in range(rng.randint(1, 9)):
        x = rng.choice([rng.randint(0, 5), {'s': rng.choice('abc')}, [rng.choice('abc')], ['f', rng.randint(0, 3)], ['g', ['f', 'X'], 'Y']])
        if x not in items: items.append(x)
    lo, hi = rng.choice([(0, 3), (0, 12), (-6, 6), (-3, 40), (0, 0), (0, 400)])
    ops = []
    n = rng.randint(10, 120)
    w = rng.choice([(6, 1, 1, 3, 2, 2), (6, 3, 1, 2, 1, 1), (3, 1, 2, 3, 3, 1), (8, 2, 0, 1, 4, 0)])
    for _ in range(n):
        op = rng.choices(['set', 'del', 'get', 'pop', 'next', 'open'], w)[0]
        o = {'op': op, 'i': rng.randrange(len(items))}
        if op == 'set':
            o['p'] = rng.randint(lo, hi)
            if rng.random() < .04: o['bad'] = rng.choice([1.5, None, '3'])
        ops.append(o)
    return {'Q': rng.choice(['bucket', 'bucket', 'bucket', 'agenda']), 'items': items, 'ops': ops}


def run(c, ch, st):
    if not c['items']: raise Discard()
    items = [build_term(x, {}) for x in c['items']]
    (run_bucket if c['Q'] == 'bucket' else run_agenda)(c, items, ch, st)


def run_bucket(c, items, ch, st):
    from dyna.util.bucket_queue import BucketQueue
    Q = BucketQueue()
    D = {}            # position of the item -> priority
    pos = {id(x): i for i, x in enumerate(items)}
    its = []
    trend = []
    last = None

    def popped(x, p, where):
        nonlocal last
        if id(x) not in pos: raise Violation('queue', f'{where}: returned {x!r}, which was never inserted')
        i = pos[id(x)]
        if i not in D: raise Violation('queue', f'{where}: returned {x!r}, which is not in the queue')
        if D[i] != min(D.values()): raise Violation('order', f'{where}: returned {x!r} of priority {D[i]}, minimum is {min(D.values())}')
        if p is not None and p != D[i]: raise Violation('order', f'{where}: priority reported as {p}, but it is {D[i]}')
        if last is not None: trend.append((D[i] > last) - (D[i] < last))
        last = D[i]
        del D[i]

    def look(where):
        if len(Q) != len(D): raise Violation('queue', f'{where}: length {len(Q)}, expected {len(D)}')
        for i, x in enumerate(items):
            if (x in Q) != (i in D): raise Violation('queue', f'{where}: membership of {x!r} is {x in Q}')

    for n, o in enumerate(c['ops']):
        i = o['i'] % len(items); x = items[i]; op = o['op']
        where = f'step {n} ({op})'
        st.add('op.' + op)
        if op == 'set':
            if 'bad' in o:
                try: Q[x] = o['bad']; raise Violation('error', f'{where}: priority {o["bad"]!r} was accepted')
                except TypeError: st.add('fault.bad-priority')
            else:
                Q[x] = o['p']; D[i] = o['p']
        elif op in ('del', 'get'):
            try:
                if op == 'del': del Q[x]
                else: v = Q[x]
                ok = True
            except KeyError: ok = False; st.add('fault.missing-key')
            if ok != (i in D): raise Violation('error', f'{where}: {x!r} {"found" if ok else "not found"}')
            if ok and op == 'get' and v != D[i]: raise Violation('queue', f'{where}: priority {v}, expected {D[i]}')
            if ok and op == 'del': del D[i]
        elif op == 'pop':
            try: r = Q.popitem()
            except (KeyError, IndexError): r = None
            if r is None:
                if D: raise Violation('queue', f'{where}: empty, but {len(D)} items are left')
            else: popped(r[0], r[1], where)
        elif op == 'open' and len(its) < 4:
            k = ch.choose(2)
            its.append((k, iter(Q) if k else iter(Q.items())))
        elif op == 'next' and its:
            j = ch.choose(len(its)); k, it = its[j]
            try: r = next(it)
            except StopIteration:
                if D: raise Violation('queue', f'{where}: iterator ended, but {len(D)} items are left')
                its.pop(j)
            else:
                popped(*((r, None) if k else r), where)
        if ch.flip(1, 3): look(where)
        st.state((op, len(D), len(set(D.values())), trend[-2:]))
    k = ch.choose(3); prev = None; left = len(D)
    for m in range(left + 1):
        if not D: break
        r = Q.popitem() if k == 0 else next(iter(Q), None) if k == 1 else next(iter(Q.items()), None)
        if r is None: raise Violation('queue', f'drained: {len(D)} items were lost')
        popped(*((r, None) if k == 1 else r), 'draining')
    look('drained')
    if Q: raise Violation('queue', 'not empty after draining')
    st.trivial = not (1 in trend and -1 in trend)


def run_agenda(c, items, ch, st):
    from dyna.search.search import Agenda
    prio = {}
    n_items = len(items)
    Q = Agenda(lambda i: prio[i])       # items of the search agenda are integers (program ids)
    D = {}; trend = []; last = None

    def pop(where):
        nonlocal last
        x = Q.pop()
        if x not in D: raise Violation('queue', f'{where}: returned {x!r}, which is not in the queue')
        if D[x] != min(D.values()): raise Violation('order', f'{where}: returned {x!r} of priority {D[x]}, minimum is {min(D.values())}')
        if last is not None: trend.append((D[x] > last) - (D[x] < last))
        last = D[x]
        del D[x]

    for n, o in enumerate(c['ops']):
        i = o['i'] % n_items; op = o['op']; where = f'step {n} ({op})'
        st.add('op.agenda-' + op)
        if op == 'set' and 'bad' not in o:
            prio[i] = o['p']; Q.add(i); D[i] = o['p']
        elif op in ('pop', 'next') and D: pop(where)
        if len(Q) != len(D): raise Violation('queue', f'{where}: length {len(Q)}, expected {len(D)}')
        st.state((op, len(D), len(set(D.values())), trend[-2:]))
    while D: pop('draining')
    if len(Q): raise Violation('queue', 'not empty after draining')
    st.trivial = not (1 in trend and -1 in trend)
