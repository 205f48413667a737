"""Seeded decisions, violations, structural minimisation, replay files."""
import json, hashlib, random, os, traceback


import re


class Violation(Exception):
    def __init__(self, kind, msg, **detail):
        ids = {}        # identities differ from process to process; the report must not
        msg = re.sub(r'_V\d{6,}', lambda m: f'V{ids.setdefault(m.group(), len(ids))}', msg)
        super().__init__(f'{kind}: {msg}')
        self.kind = kind
        self.msg = msg
        self.detail = detail


class Discard(Exception):
    "The (possibly shrunk) workload is outside the property's scope."


class Chooser:
    """The scheduler's only source of decisions.

    mode 'seed'  : decisions drawn from a PRNG, recorded
    mode 'script': decisions replayed from a list (0 after exhaustion)
    """
    def __init__(self, seed=0, script=None):
        self.rng = random.Random(seed) if script is None else None
        self.script = script
        self.pos = 0
        self.log = []

    def choose(self, n):
        "an integer in range(n)"
        if n <= 1: return 0
        if self.script is None:
            v = self.rng.randrange(n)
        else:
            v = self.script[self.pos] % n if self.pos < len(self.script) else 0
            self.pos += 1
        self.log.append(v)
        return v

    def flip(self, num, den):
        return self.choose(den) < num

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def shuffle(self, xs):
        xs = list(xs)
        out = []
        while xs:
            out.append(xs.pop(self.choose(len(xs))))
        return out


class Stats:
    "Counters that the evidence file reports."
    def __init__(self):
        self.c = {}
        self.states = set()
    def add(self, k, n=1):
        self.c[k] = self.c.get(k, 0) + n
    def state(self, x):
        "record a reached (abstract) state / interleaving"
        if len(self.states) < 200_000:
            self.states.add(hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest())


def digest(x):
    return hashlib.blake2b(json.dumps(x, sort_keys=True, default=str).encode(), digest_size=8).hexdigest()


# -----------------------------------------------------------------------------
def paths(case, protect=(), at=()):
    "All container paths of a JSON case, outermost first."
    yield at
    if isinstance(case, dict):
        for k in sorted(case):
            if k in protect: continue
            yield from paths(case[k], protect, at + (k,))
    elif isinstance(case, list):
        for i in range(len(case)):
            yield from paths(case[i], protect, at + (i,))


def get(case, p):
    for k in p: case = case[k]
    return case


def put(case, p, v):
    case = json.loads(json.dumps(case))
    if not p: return v
    x = case
    for k in p[:-1]: x = x[k]
    x[p[-1]] = v
    return case


def shrink(case, script, test, protect=(), lists=None, deadline=None, clock=None):
    """Greedy structural minimisation.

    `test(case, script)` -> True iff the same violation class persists.  Only
    lists named in `lists` (by last key) lose elements; integers outside
    `protect` are lowered.
    """
    def timeup(): return deadline is not None and clock() > deadline

    progress = True
    while progress and not timeup():
        progress = False

        # 1. schedule decisions: truncate, then zero out blocks
        n = len(script)
        for cut in (0, n // 4, n // 2, (3 * n) // 4, n - 1):
            if 0 <= cut < len(script) and not timeup():
                if test(case, script[:cut]):
                    script = script[:cut]; progress = True
                    break
        size = max(1, len(script) // 2)
        while size >= 1 and not timeup():
            i = 0
            while i < len(script) and not timeup():
                blk = script[i:i + size]
                if any(blk):
                    s2 = script[:i] + [0] * len(blk) + script[i + size:]
                    if test(case, s2):
                        script = s2; progress = True
                i += size
            if size == 1: break
            size //= 2
            if size > 0 and len(script) // size > 200: break

        # 2. drop list elements
        for p in list(paths(case, protect)):
            if timeup(): break
            try: x = get(case, p)
            except (KeyError, IndexError, TypeError): continue
            if not isinstance(x, list) or not p: continue
            if lists is not None and not (p[-1] in lists): continue
            size = max(1, len(x) // 2)
            while size >= 1 and not timeup():
                i = 0
                while i < len(x) and not timeup():
                    y = x[:i] + x[i + size:]
                    c2 = put(case, p, y)
                    if test(c2, script):
                        case, x = c2, y; progress = True
                    else:
                        i += size
                if size == 1: break
                size //= 2
        # 3. lower integers
        for p in list(paths(case, protect)):
            if timeup(): break
            try: x = get(case, p)
            except (KeyError, IndexError, TypeError): continue
            if isinstance(x, bool) or not isinstance(x, int) or x <= 0: continue
            for y in (0, 1, x // 2, x - 1):
                if y < x and not timeup():
                    c2 = put(case, p, y)
                    if test(c2, script):
                        case = c2; progress = True
                        break
    return case, script
