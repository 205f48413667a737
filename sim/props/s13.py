"""S13: the rendering cache shared by all sessions never serves a torn or foreign picture."""
import os, io, sys, errno, shutil, threading, builtins, subprocess, tempfile, hashlib
from common import *
from core import Violation, Discard

WALL = {'quick': 35, 'thorough': 500}
BATCHES = {'quick': (16, 1500), 'thorough': (64, 10000)}
LISTS = ('clients', 'ops', 'codes', 'E')
PROTECT = ('op', 'kind', 'late')
LEVEL = 'fault_enumeration'
CHUNK = 100
RULE = ('a run = 1-4 simulated sessions sharing one cache directory, each rendering 1-5 pictures (dot, LaTeX, TikZ; svg or png; forced or not), interleaved '
        'at every file, rename and subprocess operation by the scheduler; faults: crash, Ctrl-C, full disk, torn write, renderer missing / failing '
        'before, half-way through or after writing its output, temporary files cleaned; then one fault-free call for every picture; non-trivial = at least two '
        'operations on one picture; distinct = hash of (workload, decision log)')
STATE_MEASURE = 'hash of (set of files present with completeness, outcome of the call) after each call'
REAL = ['dyna.util.util latex, tikz, graphviz, run_cmd', 'Hypergraph.graphviz', 'IPython Image', 'files (in a scratch directory)']
STUB = STUB_ENV + ['pdflatex, inkscape, dot (deterministic stand-ins)', 'shutil.which', 'paths under /tmp (redirected to a scratch directory)', 'web browser']
ASSUMPTIONS = ['a renderer that reports success has written its complete output', 'rename within the cache directory is atomic', 'nobody removes files while a call is under way']

FAULTS = ['crash', 'ctrl-c', 'enospc', 'exit-early', 'exit-torn', 'exit-late', 'missing']


class SimCrash(BaseException): pass


TWISTS = [lambda x: x, lambda x: x.replace(' ', '  ', 1), lambda x: x + ' ', lambda x: ' ' + x, lambda x: x.replace(' ', '\n', 1), lambda x: x + '\n',
          lambda x: x.replace(' ', '\t', 1), lambda x: x.upper(), lambda x: x + '%e', lambda x: x + '%\u00e9', lambda x: x + '%E', lambda x: x + '%' + 'x' * 4000,
          lambda x: x + '%' + 'x' * 3999 + 'y', lambda x: x + '%' + 'x' * 2000 + 'y' + 'x' * 1999, lambda x: '%' + 'z' * 4000 + '\n' + x, lambda x: x + '%1.0', lambda x: x + '%1']


def gen(rng):
    codes = []
    for i in range(rng.randint(1, 3)):
        kind = rng.choice(['dot', 'dot', 'latex', 'tikz', 'hyper'])
        n = rng.randint(1, 4)
        codes.append({'kind': kind, 'E': [[rng.randrange(3), rng.randrange(3)] for _ in range(n)]})
    if rng.random() < .3:       # a picture that differs from another one only at its end
        x = rng.choice(codes); codes.append({'kind': x['kind'], 'E': x['E'] + [[0, 1]]})
    if rng.random() < .5:       # ... or only in its layout, case, accents or somewhere in the middle
        x = rng.choice(codes)
        if x['kind'] != 'hyper':
            a, b = rng.sample(range(len(TWISTS)), 2)
            if a: codes[codes.index(x)] = x = {**x, 'tw': a}
            codes.append({**x, 'tw': b})
    clients = []
    for _ in range(rng.randint(1, 4)):
        clients.append({'ops': [{'op': rng.choice(['svg', 'svg', 'png', 'clean']), 'i': rng.randrange(len(codes)), 'force': rng.random() < .25}
                                for _ in range(rng.randint(1, 5))]})
    return {'codes': codes, 'clients': clients, 'faults': rng.choice([0, 1, 1, 2, 4]), 'rate': rng.choice([4, 10, 25])}


class World:
    def __init__(self, ch, st, faults, rate):
        self.ch, self.st, self.left, self.rate = ch, st, faults, rate
        base = '/dev/shm' if os.path.isdir('/dev/shm') else '/var/tmp'
        self.root = tempfile.mkdtemp(prefix='dynasim-', dir=base)
        self.cur = None
        self.known = set()
        self.renders = 0

    # -- scheduling -----------------------------------------------------------
    def seam(self, what):
        "a point at which other sessions may run and faults may strike"
        c = self.me()
        if c is None: return None
        if c.dead: raise SimCrash()
        c.pause()
        if self.left and self.ch.choose(self.rate) == 0:
            f = self.ch.pick(self.applicable(what))
            if f is None: return None
            self.left -= 1
            c.faulted = True
            self.st.add(f'fault.{f}')
            if f == 'crash':
                c.dead = True
                raise SimCrash()
            if f == 'ctrl-c' and what != 'run': raise KeyboardInterrupt()
            return f
        return None

    def applicable(self, what):
        if what == 'run': return ['crash', 'ctrl-c', 'exit-early', 'exit-torn', 'exit-late']
        if what == 'write': return ['crash', 'enospc', 'ctrl-c']
        if what == 'which': return ['missing']
        return ['crash', 'ctrl-c']

    def me(self):
        c = self.cur
        return c if c is not None and c.tid == threading.get_ident() else None

    # -- file system ----------------------------------------------------------
    def path(self, p):
        if isinstance(p, int) or p is None: return p
        q = os.fspath(p)
        if isinstance(q, bytes): return p
        if q == '/tmp' or q.startswith('/tmp/'): return self.root + q[4:]
        return p

    def listing(self):
        cur, self.cur = self.cur, None
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                with real['open'](os.path.join(d, f), 'rb') as h: b = h.read()
                out.append((os.path.splitext(f)[1] if d == self.root else 'private', b.rstrip().endswith(b'>>') or b.decode('utf8', 'replace') in self.known))
        self.cur = cur
        return tuple(sorted(out))


class Client:
    def __init__(self, w, job):
        self.w, self.job = w, job
        self.go = threading.Semaphore(0); self.back = threading.Semaphore(0)
        self.done = False; self.error = None; self.dead = False; self.faulted = False
        self.tid = None
        self.t = threading.Thread(target=self.body, daemon=True)
        self.t.start()

    def body(self):
        self.tid = threading.get_ident()
        self.go.acquire()
        try: self.job(self)
        except BaseException as e: self.error = e
        self.done = True
        self.back.release()

    def pause(self):
        self.back.release(); self.go.acquire()

    def step(self):
        self.w.cur = self
        self.go.release(); self.back.acquire()
        self.w.cur = None
        if self.error is not None: raise self.error


class OutFile:
    "a file being written by a session: data reaches the disk when flushed, in full or (fault) in part"
    def __init__(self, w, f):
        self.__dict__.update(w=w, f=f, buf=[], c=w.me())
    def write(self, x):
        self.buf.append(x)
        return len(x)
    def writelines(self, xs):
        for x in xs: self.write(x)
    def flush(self):
        if not self.buf: return
        data = self.buf[0][:0].join(self.buf)
        self.buf.clear()
        if self.c is not None and self.c.dead: return
        try: f = self.w.seam('write') if self.c is not None else None
        except BaseException:
            self.f.write(data[:self.w.ch.choose(len(data) + 1)]); self.f.flush()
            raise
        if f == 'enospc':
            self.f.write(data[:self.w.ch.choose(len(data) + 1)]); self.f.flush()
            raise OSError(errno.ENOSPC, 'No space left on device')
        self.f.write(data); self.f.flush()
    def close(self):
        if self.f.closed: return
        try: self.flush()
        finally: self.f.close()
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __getattr__(self, k):
        if k not in ('closed', 'name', 'mode', 'fileno', 'encoding'): self.flush()
        return getattr(self.f, k)
    def __del__(self):
        try: self.f.close()
        except Exception: pass


real = {}


class patched:
    "all file system and process operations of the code under test go through the world"
    def __init__(self, w): self.w = w
    def __enter__(self):
        w = self.w
        self.saved = []
        def put(mod, name, f):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, f)
        def dead():
            c = w.me()
            return c is not None and c.dead
        real['open'] = ropen = io.open
        def xopen(file, mode='r', *a, **k):
            if w.me() is None: return ropen(w.path(file), mode, *a, **k)
            if dead(): raise SimCrash()
            wr = any(x in mode for x in 'wax+')
            if isinstance(file, int) or w.path(file) != file or k.get('opener'):
                if wr: w.seam('open')
                f = ropen(w.path(file), mode, *a, **k)
                return OutFile(w, f) if wr else f
            return ropen(file, mode, *a, **k)
        put(builtins, 'open', xopen); put(io, 'open', xopen)
        two = {'replace', 'rename', 'link', 'symlink', 'renames'}
        for name in ('open', 'stat', 'lstat', 'replace', 'rename', 'unlink', 'remove', 'mkdir', 'rmdir', 'listdir', 'scandir', 'link', 'symlink', 'access', 'chmod', 'utime', 'truncate'):
            def mk(f, name):
                def g(*a, **k):
                    if dead(): raise SimCrash()
                    a = list(a)
                    if a and 'dir_fd' not in k: a[0] = w.path(a[0])
                    if name in two and len(a) > 1: a[1] = w.path(a[1])
                    if w.me() is not None and name in ('replace', 'rename', 'stat', 'unlink', 'remove', 'link'):
                        if a and isinstance(a[0], (str, os.PathLike)) and str(a[0]).startswith(w.root): w.seam(name)
                    return f(*a, **k)
                return g
            put(os, name, mk(getattr(os, name), name))
        put(shutil, 'which', lambda cmd, *a, **k: None if w.seam('which') == 'missing' else f'/usr/bin/{cmd}')
        put(subprocess, 'Popen', lambda *a, **k: FakePopen(w, *a, **k))
        import webbrowser
        put(webbrowser, 'open', lambda *a, **k: True)
        self.tmp = (tempfile.tempdir, tempfile._name_sequence)
        tempfile.tempdir = '/tmp'
        class Names:
            n = 0
            def __iter__(self): return self
            def __next__(self):
                self.n += 1
                return f'n{self.n}'
        tempfile._name_sequence = Names()
        return self
    def __exit__(self, *a):
        for mod, name, f in reversed(self.saved): setattr(mod, name, f)
        tempfile.tempdir, tempfile._name_sequence = self.tmp


class FakePopen:
    "stand-in for the renderers: output is a function of the input; may fail before, while or after writing"
    def __init__(self, w, cmd, *a, **k):
        if isinstance(cmd, str): cmd = cmd.split()
        self.w, self.args, self.cmd = w, cmd, [str(x) for x in cmd]
        self.returncode = None; self.stdin = self.stdout = self.stderr = None; self.pid = 1
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def poll(self): return self.returncode
    def kill(self): pass
    terminate = kill
    def send_signal(self, s): pass
    def communicate(self, input=None, timeout=None):
        self.wait()
        return b'', b''
    def wait(self, timeout=None):
        if self.returncode is None: self.returncode = self.run()
        return self.returncode

    def run(self):
        w, cmd = self.w, self.cmd
        w.renders += 1
        src, dst, fmt = io_of(cmd)
        try:
            with real['open'](w.path(src), encoding='utf8') as h: text = h.read()
        except OSError: return 1
        out = render(fmt, text, w)
        if out is None: return 1             # not a complete document
        f = None
        try: f = w.seam('run')
        except SimCrash:                      # the session dies; its renderer is orphaned: torn or complete
            self.write(dst, out[:w.ch.choose(len(out) + 1)])
            raise
        if f == 'exit-early': return 1
        if f in ('exit-torn', 'ctrl-c'):
            self.write(dst, out[:w.ch.choose(len(out))])
            if f == 'ctrl-c': raise KeyboardInterrupt()
            return 1
        self.write(dst, out[:len(out) // 2])
        try: f2 = w.seam('run') if f is None else f
        except SimCrash: raise
        if f2 in ('exit-early', 'exit-torn'): return 1
        if f2 == 'ctrl-c': raise KeyboardInterrupt()
        self.write(dst, out)
        return 1 if f2 == 'exit-late' else 0

    def write(self, dst, text):
        with real['open'](self.w.path(dst), 'w', encoding='utf8') as h: h.write(text)


def io_of(cmd):
    prog = os.path.basename(cmd[0])
    opts = [x for x in cmd[1:] if x.startswith('-')]
    args = [x for x in cmd[1:] if not x.startswith('-')]
    if prog == 'pdflatex':
        src = args[-1]
        d = next((x.split('=', 1)[1] for x in opts if 'output-directory' in x), os.path.dirname(src))
        job = next((x.split('=', 1)[1] for x in opts if 'jobname' in x), os.path.splitext(os.path.basename(src))[0])
        return src, os.path.join(d, job + '.pdf'), 'pdf'
    if prog == 'inkscape':
        for x in opts:
            if '=' in x and 'export' in x and x.split('=')[0] not in ('--export-type',):
                dst = x.split('=', 1)[1]
                fmt = 'png' if 'png' in x.split('=')[0] or dst.endswith('.png') else 'svg'
                return args[-1], dst, fmt
    if prog == 'pdf2svg': return args[0], args[1], 'svg'
    if prog == 'dot':
        fmt = next(x[2:] for x in opts if x.startswith('-T'))
        if '-o' in cmd:
            dst = cmd[cmd.index('-o') + 1]
            args = [x for x in args if x != dst]
        else: dst = next(x[2:] for x in opts if x.startswith('-o'))
        return args[-1], dst, 'dot' + fmt
    raise Discard()      # a renderer the stand-in does not know


def render(fmt, text, w):
    if fmt == 'pdf' or fmt.startswith('dot'):
        if text not in w.known: return None
    elif not (text.startswith('<<') and text.endswith('>>')): return None
    return f'<<{fmt} {hashlib.sha1(text.encode()).hexdigest()} {text if fmt != "png" else ""}>>'


def expected(o, how, w):
    from dyna.util.util import graphviz
    if isinstance(o, graphviz): return render('dot' + how, o.code, w)
    return render(how, render('pdf', o.code, w), w)


def build(c, force):
    from dyna.util.util import latex, tikz, graphviz
    from dyna.util import Hypergraph
    E = c['E']
    tw = TWISTS[c.get('tw', 0)]
    if c['kind'] == 'dot': return graphviz(tw('digraph {' + ' '.join(f'{u} -> {v};' for u, v in E) + '}'), force=force)
    if c['kind'] == 'latex': return latex(tw(r'\documentclass{article}\begin{document}' + ' '.join(f'${u}_{v}$' for u, v in E) + r'\end{document}'), force=force)
    if c['kind'] == 'tikz': return tikz(tw(' '.join(rf'\draw ({u},0) -- (0,{v});' for u, v in E)), libs=('trees',), force=force)
    h = Hypergraph()
    for k, (u, v) in enumerate(E): h.add_edge(u, k, v)
    g = h.graphviz(force=force)
    return g


def run(c, ch, st):
    codes = c['codes']
    if not codes or not c['clients']: raise Discard()
    w = World(ch, st, c['faults'], c['rate'])
    try:
        with patched(w): play(c, ch, st, w)
    finally:
        shutil.rmtree(w.root, ignore_errors=True)


def play(c, ch, st, w):
    codes = c['codes']
    for x in codes: w.known.add(build(x, False).code)
    st.trivial = max(sum(o['i'] % len(codes) == i for cl in c['clients'] for o in cl['ops'] if o['op'] != 'clean') for i in range(len(codes))) < 2
    shown = {}

    def call(o, how):
        if how == 'svg': return o.to_svg()
        d = o.to_png().data
        return d.decode('utf8') if isinstance(d, bytes) else d

    def session(ops):
        def body(me):
            for op in ops:
                me.dead = False; me.faulted = False     # a crashed session is replaced by a new one
                if op['op'] == 'clean': continue
                spec = codes[op['i'] % len(codes)]
                how = op['op']
                try:
                    o = build(spec, op['force'])
                    got = call(o, how)
                except (SimCrash, KeyboardInterrupt, OSError, AssertionError, Exception) as e:
                    if isinstance(e, (Violation, Discard)): raise
                    if not me.faulted:
                        raise Violation('failed', f'rendering {spec} as {how} failed without a fault: {type(e).__name__}: {str(e).replace(w.root, "/tmp")[:200]}') from None
                    me.dead = False
                    st.add('outcome.failed')
                    st.state((w.listing(), 'failed'))
                    continue
                if me.dead: continue
                want = expected(o, how, w)
                st.add('outcome.shown')
                st.state((w.listing(), 'ok'))
                if got != want: raise Violation('torn', f'rendering {spec} as {how} gave {got[:60]!r}.. ({len(got)} bytes) instead of {want[:60]!r}.. ({len(want)} bytes)')
                shown[op['i'] % len(codes), how] = True
        return body

    cs = [Client(w, session(cl['ops'])) for cl in c['clients']]
    while True:
        live = [x for x in cs if not x.done]
        if not live: break
        live[ch.choose(len(live))].step()
    # the cleaner removes some of the temporary files between sessions
    if any(o['op'] == 'clean' for cl in c['clients'] for o in cl['ops']):
        for d, _, fs in sorted(os.walk(w.root)):
            for f in sorted(fs):
                if ch.flip(1, 3): os.unlink(os.path.join(d, f)); st.add('fault.cleaned')
    # faults have stopped: every picture can be shown, by a new session
    w.left = 0
    for i, spec in enumerate(codes):
        for how in ch.shuffle(['svg', 'png', 'svg']):
            o = build(spec, ch.flip(1, 5))
            try: got = call(o, how)
            except Exception as e: raise Violation('stuck', f'rendering {spec} as {how} still fails after the faults stopped: {type(e).__name__}: {str(e).replace(w.root, "/tmp")[:200]}') from None
            want = expected(o, how, w)
            if got != want: raise Violation('torn', f'after the faults stopped, {spec} as {how} is {got[:60]!r}.. ({len(got)} bytes) instead of {want[:60]!r}.. ({len(want)} bytes)')
        # what has been rendered is served without rendering again
        n = w.renders
        got = call(build(spec, False), 'svg')
        if w.renders != n: raise Violation('again', f'{spec} was rendered again although its picture is complete')
