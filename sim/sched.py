"""Schedulers the simulator substitutes for dyna's work lists and set orders."""
import builtins as _b


class SimAgenda:
    """Work list whose pop order is decided by the scheduler.

    Same protocol as the shipped agendas: q[item] = priority, q.popitem(),
    len(q), membership, deletion.  `style` biases the search: uniform, fifo,
    lifo, sticky (a random total order on items), burst (runs of lifo/fifo).
    """
    def __init__(self, chooser, style='uniform', on_pop=None):
        self.ch = chooser; self.style = style; self.on_pop = on_pop
        self.D = {}
        self.pops = 0
        self.rank = {}
        self.mode = 0; self.left = 0
    def __setitem__(self, k, p): self.D[k] = p
    def __getitem__(self, k): return self.D[k]
    def __delitem__(self, k): del self.D[k]
    def __contains__(self, k): return k in self.D
    def __len__(self): return len(self.D)
    def __iter__(self):
        while self.D: yield self.popitem()[0]
    def popitem(self):
        if not self.D: raise KeyError('pop from an empty agenda')
        ks = list(self.D)
        n = len(ks)
        st = self.style
        if n == 1: i = 0
        elif st == 'fifo': i = 0
        elif st == 'lifo': i = n - 1
        elif st == 'sticky':
            for k in ks:
                if k not in self.rank: self.rank[k] = self.ch.choose(64)
            i = min(range(n), key=lambda j: (self.rank[ks[j]], j))
        elif st == 'burst':
            if self.left == 0:
                self.mode = self.ch.choose(3); self.left = 1 + self.ch.choose(6)
            self.left -= 1
            i = 0 if self.mode == 0 else n - 1 if self.mode == 1 else self.ch.choose(n)
        else: i = self.ch.choose(n)
        k = ks[i]; p = self.D.pop(k)
        self.pops += 1
        if self.on_pop is not None: self.on_pop(self.pops, n)
        return (k, p)
    # arsenal's LocatorMaxHeap calls this `pop`
    pop = popitem


STYLES = ['uniform', 'uniform', 'fifo', 'lifo', 'sticky', 'burst']


_CH = [None]
_REAL = _b.set
_permute = [None]


class _Meta(type):
    def __instancecheck__(cls, x): return _b.isinstance(x, _REAL)
    def __subclasscheck__(cls, x): return issubclass(x, _REAL)


class SimSet(_REAL, metaclass=_Meta):
    "A set whose iteration (and pop) order is decided by the scheduler."
    def __iter__(self):
        xs = list(_REAL.__iter__(self))
        ch = _CH[0]
        n = len(xs)
        if ch is not None and n > 1:
            # a rotation + optional reversal + a couple of swaps keeps logs short
            r = ch.choose(n)
            xs = xs[r:] + xs[:r]
            if n > 2:
                i, j = ch.choose(n), ch.choose(n)
                xs[i], xs[j] = xs[j], xs[i]
        m = _b.len(self)
        for x in xs:
            if _b.len(self) != m: raise RuntimeError('Set changed size during iteration')
            yield x
        if _b.len(self) != m: raise RuntimeError('Set changed size during iteration')
    def pop(self):
        for x in self:
            break
        else:
            raise KeyError('pop from an empty set')
        _REAL.remove(self, x)
        return x
    def __reduce__(self): return (SimSet, (list(_REAL.__iter__(self)),))
    def copy(self): return SimSet(_REAL.__iter__(self))
for _n in ('__or__', '__and__', '__sub__', '__xor__', 'union', 'intersection', 'difference', 'symmetric_difference'):
    def _mk(n):
        f = getattr(_REAL, n)
        def g(self, *a):
            r = f(self, *a)
            return r if r is NotImplemented else SimSet(_REAL.__iter__(r) if _b.isinstance(r, _REAL) else r)
        return g
    setattr(SimSet, _n, _mk(_n))


SIMSET_MODULES = ['dyna.util.bucket_queue', 'dyna.util.graphs', 'dyna.util.util', 'dyna.execute.solver',
                  'dyna.execute.solver2', 'dyna.execute.linear', 'dyna.propagate', 'dyna.program', 'dyna.programs',
                  'dyna.analyze.types', 'dyna.analyze.dead', 'dyna.analyze.abbreviate', 'dyna.analyze.coarse_graph',
                  'dyna.analyze.rewrites', 'dyna.transform.fold', 'dyna.transform.unfold', 'dyna.transform.slash',
                  'dyna.transform.lct', 'dyna.transform.rule_elimination', 'dyna.transform.measure',
                  'dyna.search.old', 'dyna.search.search', 'dyna.derivations', 'dyna.rule', 'dyna.term', 'dyna.builtin']


class set_order:
    "context manager: sets that dyna's modules build with set(...) iterate in scheduler order"
    def __init__(self, chooser, modules=None):
        self.ch = chooser; self.names = modules or SIMSET_MODULES
    def __enter__(self):
        import sys
        _CH[0] = self.ch
        self.patched = []
        from functools import partial
        for n in self.names:
            m = sys.modules.get(n)
            if m is None or 'set' in vars(m): continue
            m.set = SimSet
            self.patched.append(m)
        # defaultdict(set) default factories are looked up at call time in the module's globals, so
        # they are covered; set displays and comprehensions keep the interpreter's hash order.
        return self
    def __exit__(self, *a):
        _CH[0] = None
        for m in self.patched: del m.set
