"""Driver: seeded batches, minimisation, replay files, evidence.

  main.py check  PROP            run the registered check (VERIF_SEED, VERIF_TIER)
  main.py replay FILE            re-execute a replay file in a fresh process
  main.py self   PROP [N]        determinism self-test (two processes, diff the event logs)
  main.py one    PROP SEED       run one seed verbosely (debugging)

A run is a pure function of (code, hash seed, variable-hash salt, run seed).
Hash seed and salt are fixed per batch and recorded in replay files.
"""
import os, sys, json, time, hashlib, importlib, random, subprocess, traceback, signal, select, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

_now = time.time      # bound before the clock is virtualised

PROPS = {}
def load(prop):
    for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if f.lower().startswith(prop.lower()) and f.endswith('.py'):
            return importlib.import_module('props.' + f[:-3])
    raise SystemExit(f'no such property module: {prop}')


# ------------------------------------------------------------------ one run
def reset_process():
    "module-level counters of the code under test back to their initial state"
    import env, interrupt
    from dyna import term_
    for n in ('gen_functor', 'gen'):
        f = getattr(term_, n, None)
        if hasattr(f, 'reset'): f.reset()
    env.CLOCK.reset()
    interrupt.EVENTS.reset()


def from_dyna(tb):
    "does the traceback pass through the code under test?"
    from env import REPO
    pre = REPO.rstrip('/') + '/dyna/'
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre): return True
        tb = tb.tb_next
    return False


def run_one(mod, case, chooser, stats, seedtext):
    """-> (verdict, payload): ok | discard | violation | harness"""
    import env, interrupt, numpy as np
    from core import Violation, Discard
    reset_process()
    h = int.from_bytes(hashlib.blake2b(seedtext.encode(), digest_size=4).digest(), 'big')
    np.random.seed(h); random.seed(h)
    E = interrupt.EVENTS
    E.limit = getattr(mod, 'LIMIT', 3_000_000)
    try:
        try:
            with env.quiet(), E:
                mod.run(case, chooser, stats)
            out = ('ok', None)
        finally:
            if E.active: E.__exit__()
            E.kill_at = []; E.jumps = {}; E.skews = {}
            env.CLOCK.deadline = None
    except Discard:
        out = ('discard', None)
    except Violation as e:
        out = ('violation', {'kind': e.kind, 'msg': e.msg, 'detail': jsonable(e.detail)})
    except env.SimDeadlock as e:
        out = ('violation', {'kind': 'no-progress', 'msg': f'{e}', 'detail': {}})
    except RecursionError as e:
        out = ('violation' if from_dyna(e.__traceback__) else 'harness',
               {'kind': 'recursion', 'msg': 'RecursionError', 'detail': {}})
    except (Exception, KeyboardInterrupt, GeneratorExit) as e:
        tb = traceback.format_exc()[-1800:]
        kind = f'exception {type(e).__name__}'
        if from_dyna(e.__traceback__):
            out = ('violation', {'kind': kind, 'msg': str(e)[:300], 'detail': {'traceback': tb}})
        elif not isinstance(e, Exception) or environment_problem(e):
            out = ('harness', {'kind': kind, 'msg': tb, 'detail': {}})
        else:
            # the oracle choked on what the code under test returned
            out = ('violation', {'kind': f'malformed {type(e).__name__}', 'msg': str(e)[:300], 'detail': {'traceback': tb}})
    stats.add('events', E.count)
    stats.add('sim_seconds', round(env.CLOCK.now - 1_000_000.0, 6))
    stats.add('timer_fires', env.CLOCK.timer_fires)
    stats.add('kills_delivered', E.kills)
    return out


def environment_problem(e):
    "missing modules/attributes of the code under test, resources: errors of the check, not of the code"
    if isinstance(e, (ImportError, NameError, OSError, MemoryError)): return True
    if isinstance(e, AttributeError):
        import types
        o = getattr(e, 'obj', None)
        t = o if isinstance(o, type) else type(o)
        return isinstance(o, types.ModuleType) or (getattr(t, '__module__', '') or '').startswith('dyna')
    return False


def jsonable(x):
    return json.loads(json.dumps(x, default=str))


def run_log(out, chooser, E, clock):
    return [out[0], (out[1] or {}).get('kind'), (out[1] or {}).get('msg'), chooser.log, E.count, round(clock.now, 4)]


def gen_case(mod, seedtext):
    from core import Discard
    rng = random.Random(seedtext)
    try:
        return mod.gen(rng)
    except Discard:
        return None


def seed_text(vseed, prop, batch, i):
    return f'{vseed}/{prop}/{batch}/{i}'


# ------------------------------------------------------------- forked execution
def forked(fn, timeout):
    "run fn() -> JSON-able in a forked child; returns (status, result)"
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            data = json.dumps(fn(), default=str).encode()
            with os.fdopen(w, 'wb') as f: f.write(data)
        except BaseException:
            sys.stderr.write(traceback.format_exc())
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = _now() + timeout
    status = 'ok'
    while True:
        left = end - _now()
        if left <= 0:
            status = 'timeout'
            os.kill(pid, signal.SIGKILL)
            break
        rd, _, _ = select.select([r], [], [], left)
        if rd:
            b = os.read(r, 1 << 16)
            if not b: break
            buf += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if status == 'ok':
        if st != 0: status = f'crash({st})'
        else:
            try: return 'ok', json.loads(buf)
            except ValueError: status = 'garbled'
    return status, None


CHUNK = 20
CASE_TIMEOUT = 240       # real seconds per chunk; exceeded only if something escapes the step bound

def worker(prop, vseed, batch, nruns, deadline, outpath, hashing):
    import env, interrupt
    env.install(); interrupt.install()
    mod = load(prop)
    from core import Stats, Chooser
    if hasattr(mod, 'setup'): mod.setup()
    chunk = getattr(mod, 'CHUNK', CHUNK)
    res = {'batch': batch, 'runs': 0, 'discards': 0, 'stats': {}, 'states': [], 'distinct': [],
           'samples': [], 'violation': None, 'harness': [], 'log': []}
    states = set(); distinct = set()

    def run_chunk(lo, hi):
        S = Stats()
        out = {'res': [], 'log': [], 'samples': [], 'distinct': []}
        for i in range(lo, hi):
            st = seed_text(vseed, prop, batch, i)
            case = gen_case(mod, st)
            if case is None:
                out['res'].append((i, 'discard', None)); continue
            ch = Chooser(seed=st + '/sched')
            S.trivial = False
            o = run_one(mod, case, ch, S, st)
            out['res'].append((i, o[0], o[1]))
            d = hashlib.blake2b(json.dumps(run_log(o, ch, interrupt.EVENTS, env.CLOCK)).encode(), digest_size=8).hexdigest()
            out['log'].append(d)
            if o[0] == 'ok' and not S.trivial:
                out['distinct'].append(hashlib.blake2b(json.dumps([case, ch.log], default=str).encode(), digest_size=8).hexdigest())
                if len(out['samples']) < 1:
                    out['samples'].append({'seed': st, 'case': case, 'schedule_decisions': len(ch.log),
                                           'schedule_head': ch.log[:40], 'events': interrupt.EVENTS.count})
            if o[0] == 'violation':
                out['fail'] = {'index': i, 'case': case, 'script': ch.log, 'v': o[1]}
                break
        out['stats'] = S.c; out['states'] = sorted(S.states)
        return out

    for lo in range(0, nruns, chunk):
        if _now() > deadline: break
        hi = min(nruns, lo + chunk)
        status, out = forked(lambda: run_chunk(lo, hi), CASE_TIMEOUT)
        if status != 'ok':
            res['harness'].append({'chunk': [lo, hi], 'status': status})
            break
        for i, v, payload in out['res']:
            res['runs'] += 1
            if v == 'discard': res['discards'] += 1
            elif v == 'harness': res['harness'].append({'index': i, **payload})
        for k, v in out['stats'].items(): res['stats'][k] = res['stats'].get(k, 0) + v
        states.update(out['states']); distinct.update(out['distinct'])
        res['log'] += out['log']
        if len(res['samples']) < 2: res['samples'] += out['samples']
        if 'fail' in out:
            f = out['fail']
            prefix = [seed_text(vseed, prop, batch, j) for j in range(lo, f['index'])]
            res['violation'] = minimise(prop, mod, f, prefix, vseed, batch, hashing, seed_text(vseed, prop, batch, f['index']))
            break
        if len(res['harness']) > 20: break
    res['states'] = sorted(states)
    res['distinct'] = sorted(distinct)
    with open(outpath, 'w') as f: json.dump(res, f, default=str)


def execute(mod, rep):
    "run a replay record (optionally preceded by earlier runs of the same process)"
    from core import Stats, Chooser
    for st in rep.get('prefix', []):
        case = gen_case(mod, st)
        if case is None: continue
        run_one(mod, case, Chooser(seed=st + '/sched'), Stats(), st)
    ch = Chooser(script=list(rep['script']))
    o = run_one(mod, json.loads(json.dumps(rep['case'])), ch, Stats(), rep['seed_text'])
    return [o[0], o[1], ch.log]


def minimise(prop, mod, f, prefix, vseed, batch, hashing, seedtext):
    from core import shrink
    kind = f['v']['kind']
    rep = {'property': prop, 'seed': vseed, 'batch': batch, 'seed_text': seedtext,
           'PYTHONHASHSEED': hashing[0], 'VERIF_VAR_SALT': hashing[1],
           'prefix': [], 'case': f['case'], 'script': f['script'], 'kind': kind}

    def fails(r):
        status, o = forked(lambda: execute(mod, r), 120)
        return status == 'ok' and o[0] == 'violation' and o[1]['kind'] == kind
    original = {'case_size': len(json.dumps(f['case'])), 'script_len': len(f['script'])}
    rep['reproduced_alone'] = fails(rep)
    if not rep['reproduced_alone']:
        # state left behind by earlier runs of the same process is part of the history
        rep['prefix'] = list(prefix)
        if fails(rep):
            i = 0
            while i < len(rep['prefix']):
                r2 = dict(rep, prefix=rep['prefix'][:i] + rep['prefix'][i + 1:])
                if fails(r2): rep = r2
                else: i += 1
    deadline = _now() + float(os.environ.get('VERIF_SHRINK_S', getattr(mod, 'SHRINK_S', 40)))
    case, script = shrink(rep['case'], rep['script'],
                          lambda c, s: fails(dict(rep, case=c, script=s)),
                          protect=getattr(mod, 'PROTECT', ()), lists=getattr(mod, 'LISTS', None),
                          deadline=deadline, clock=_now)
    rep.update(case=case, script=script)
    status, o = forked(lambda: execute(mod, rep), 120)
    if status == 'ok' and o[0] == 'violation':
        rep['violation'] = o[1]
    else:
        rep['violation'] = f['v']
    rep['original'] = original
    return rep


# ------------------------------------------------------------------- parent
def hashing_for(vseed, batch):
    h = int.from_bytes(hashlib.blake2b(f'{vseed}:{batch}'.encode(), digest_size=4).digest(), 'big')
    return str(h % 4294967295), str((h >> 3) % 1000003)


def child_env(hashing):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED=hashing[0], VERIF_VAR_SALT=hashing[1], MPLBACKEND='Agg',
             PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1')
    e.setdefault('HOME', '/root')
    return e


def spawn(args, hashing, **kw):
    return subprocess.Popen([PY, os.path.join(HERE, 'main.py')] + [str(a) for a in args],
                            env=child_env(hashing), cwd=VERIF, **kw)


def meta(prop):
    "property module's constants, read without importing dyna"
    mod = load(prop)
    return mod


def check(prop):
    t0 = _now()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    vseed = int(os.environ.get('VERIF_SEED', '1'))
    mod = meta(prop)
    wall = float(os.environ.get('VERIF_WALL', mod.WALL[tier] if hasattr(mod, 'WALL') else (45 if tier == 'quick' else 600)))
    nb, nruns = (mod.BATCHES if hasattr(mod, 'BATCHES') else {'quick': (16, 400), 'thorough': (64, 4000)})[tier]
    nworkers = int(os.environ.get('VERIF_JOBS', '8'))
    print(f'{prop} tier={tier} VERIF_SEED={vseed}: {nb} batches x {nruns} runs, wall cap {wall:.0f}s', flush=True)
    tmp = tempfile.mkdtemp(prefix='verif-')
    procs = {}
    done = []
    failed = False
    queue = list(range(nb))
    # batch 0's first chunk is executed a second time in another process to compare event logs
    deadline = t0 + wall
    hard = deadline + CASE_TIMEOUT + 150
    err = None

    def start(b, tag=''):
        out = os.path.join(tmp, f'{b}{tag}.json')
        n = nruns if not tag else min(nruns, getattr(mod, 'CHUNK', CHUNK))
        per = deadline
        log = open(os.path.join(tmp, f'{b}{tag}.log'), 'w')
        procs[b, tag] = (spawn(['worker', prop, vseed, b, n, per, out], hashing_for(vseed, b), stdout=log, stderr=log), out, log)

    start(0, 'again')
    while queue or procs:
        # staggered fair share: a batch gets the remaining time divided by rounds left
        while queue and len(procs) < nworkers and not failed and _now() < deadline - 3:
            b = queue.pop(0)
            rounds = (len(queue) + nworkers) // nworkers
            share = (deadline - _now()) / max(1, rounds)
            dl = deadline; 
            if rounds > 1:
                dl = _now() + share
            out = os.path.join(tmp, f'{b}.json')
            log = open(os.path.join(tmp, f'{b}.log'), 'w')
            procs[b, ''] = (spawn(['worker', prop, vseed, b, nruns, dl, out], hashing_for(vseed, b), stdout=log, stderr=log), out, log)
        if (failed or _now() >= deadline - 3): queue = []
        for key in list(procs):
            p, out, log = procs[key]
            rc = p.poll()
            if rc is None:
                if _now() > hard:
                    p.kill(); p.wait()
                    err = err or f'batch {key} exceeded the hard wall limit'
                    del procs[key]
                continue
            log.close()
            del procs[key]
            if rc != 0 or not os.path.exists(out):
                tail = open(os.path.join(tmp, f'{key[0]}{key[1]}.log')).read()[-1500:]
                if not failed: err = err or f'worker {key} ended with {rc}: {tail}'
                continue
            res = json.load(open(out))
            res['tag'] = key[1]
            done.append(res)
            if res['violation'] and not failed:
                failed = True
                hard = min(hard, _now() + 60)
        time.sleep(0.05)

    # aggregate
    tot = {'runs': 0, 'discards': 0}
    stats = {}; states = set(); distinct = set(); samples = []; harness = []
    again = next((r for r in done if r['tag']), None)
    first = next((r for r in done if r['batch'] == 0 and not r['tag']), None)
    main = sorted((r for r in done if not r['tag']), key=lambda r: r['batch'])
    for r in main:
        tot['runs'] += r['runs']; tot['discards'] += r['discards']
        for k, v in r['stats'].items(): stats[k] = stats.get(k, 0) + v
        states.update(r['states']); distinct.update(r['distinct'])
        samples += r['samples']; harness += r['harness']
    det = None
    if again and first:
        n = min(len(again['log']), len(first['log']))
        det = {'runs_compared': n, 'identical': again['log'][:n] == first['log'][:n]}
    viol = [r['violation'] for r in main if r['violation']] or ([again['violation']] if again and again['violation'] else [])
    simsec = round(stats.pop('sim_seconds', 0), 3)
    wall_s = _now() - t0
    faults = {k: v for k, v in stats.items() if k.startswith(('fault', 'kills', 'timer'))}
    probes = {k: v for k, v in stats.items() if k not in faults}
    ev = {'property': prop, 'tier': tier, 'seed': vseed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {
              'evaluations': tot['runs'] - tot['discards'],
              'discarded': tot['discards'],
              'distinct_nontrivial': len(distinct),
              'rule': mod.RULE,
              'samples': samples[:3],
              'runs_per_hour': int(tot['runs'] / max(wall_s, 1e-9) * 3600),
              'simulated_seconds': simsec,
              'simulated_events': stats.get('events', 0),
              'faults_injected': faults,
              'probes': probes,
              'distinct_states': len(states),
              'distinct_states_measure': getattr(mod, 'STATE_MEASURE', 'hash of the recorded schedule / abstract state'),
              'hash_seeds': len(main),
              'determinism_recheck': det,
              'components_real': mod.REAL, 'components_stubbed': mod.STUB,
              'workers': nworkers,
          },
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall_s, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)

    for k in known():
        if k.get('property') == prop and k.get('status') == 'open':
            f = getattr(mod, 'KNOWN', {}).get(k.get('id'))
            if f is not None and forked(lambda: bool(f()), 120) == ('ok', False): continue      # no longer fails
            print(f'KNOWN-FINDING: property={prop} {k["what"]}', flush=True)
    cleanup(tmp)
    print(f'runs={tot["runs"]} discards={tot["discards"]} distinct={len(distinct)} states={len(states)} '
          f'sim_s={simsec} events={stats.get("events", 0)} wall={wall_s:.1f}s determinism={det}', flush=True)
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        path = os.path.join(VERIF, 'replays', f'{prop}-{v["batch"]}-{hashlib.blake2b(json.dumps(v, default=str).encode(), digest_size=4).hexdigest()}.json')
        with open(path, 'w') as f: json.dump(v, f, indent=1, default=str)
        vv = v['violation']
        print(f'seed={v["seed_text"]} kind={vv["kind"]}\n{vv["msg"]}\nscript={v["script"][:60]}', flush=True)
        rc = subprocess.run([PY, os.path.join(HERE, 'main.py'), 'replay', path, '--quiet'], env=dict(os.environ), cwd=VERIF,
                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
        print(f'replay in a fresh process: {"reproduced" if rc == 1 else "NOT reproduced (rc=%d)" % rc}', flush=True)
        print(f'VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}', flush=True)
        return 1
    if err or harness:
        print('HARNESS-ERROR', err, json.dumps(harness[:3])[:3000], flush=True)
        return 2
    if tot['runs'] - tot['discards'] < 10:
        print('HARNESS-ERROR nothing was evaluated', flush=True)
        return 2
    if det is not None and not det['identical']:
        print('note: event logs of the repeated chunk differ', flush=True)
    print(f'OK property={prop}', flush=True)
    return 0


def cleanup(tmp):
    import shutil
    if os.path.basename(tmp).startswith('verif-'): shutil.rmtree(tmp, ignore_errors=True)


def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p))['findings']


def replay(path, quiet_=False):
    rep = json.load(open(path))
    want = (str(rep['PYTHONHASHSEED']), str(rep['VERIF_VAR_SALT']))
    if os.environ.get('PYTHONHASHSEED') != want[0] or os.environ.get('VERIF_VAR_SALT') != want[1]:
        os.execve(PY, [PY, os.path.join(HERE, 'main.py'), 'replay', path], child_env(want))
    import env, interrupt
    env.install(); interrupt.install()
    mod = load(rep['property'])
    if hasattr(mod, 'setup'): mod.setup()
    status, o = forked(lambda: execute(mod, rep), 240)
    print(f'status={status} verdict={o and o[0]}')
    if o and o[1]: print(o[1]['kind'], ':', o[1]['msg']); print((o[1].get('detail') or {}).get('traceback', ''))
    if status == 'ok' and o[0] == 'violation' and o[1]['kind'] == rep['kind']:
        same = o[1]['msg'] == rep['violation']['msg']
        print('identical message' if same else 'same violation class, different message')
        print(f'VIOLATION property={rep["property"]} replay={path}')
        return 1
    return 0 if status == 'ok' and o[0] in ('ok', 'discard') else 2


def selftest(prop, n):
    "same seeds in two processes (different ASLR, different worker counts) -> identical event logs"
    tmp = tempfile.mkdtemp(prefix='verif-')
    bad = 0; tot = 0
    for b0 in range(0, 16, 8):
        ps = []
        for b in range(b0, b0 + 8):
            for rep in 'ab':
                out = os.path.join(tmp, f'{b}{rep}.json')
                ps.append((b, rep, out, spawn(['worker', prop, 1, b, n, _now() + 300, out], hashing_for(1, b))))
                if rep == 'a' and b % 2 == 0: ps[-1][3].wait()
        for *_, p in ps: p.wait()
        for b in range(b0, b0 + 8):
            x, y = (json.load(open(os.path.join(tmp, f'{b}{r}.json'))) for r in 'ab')
            m = min(len(x['log']), len(y['log']))
            tot += m
            d = [i for i in range(m) if x['log'][i] != y['log'][i]]
            if d: bad += len(d); print('batch', b, 'diverges at', d[:10])
            if x['harness']: print('harness', x['harness'][0]['msg'] if 'msg' in x['harness'][0] else x['harness'][0])
            if x['violation']: print('violation', x['violation']['violation'])
    cleanup(tmp)
    print(f'{prop}: compared {tot} runs, {bad} diverged')
    return 1 if bad else 0


def setup():
    "the framework is plain Python: check that the interpreter, the seams and the tree under test load"
    import env, interrupt
    env.install(); interrupt.install()
    for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
        if f.endswith('.py') and f != '__init__.py': importlib.import_module('props.' + f[:-3])
    for d in ('evidence', 'replays'): os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    print('setup ok')


def one(prop, st):
    import env, interrupt
    env.install(); interrupt.install()
    mod = load(prop)
    if hasattr(mod, 'setup'): mod.setup()
    from core import Stats, Chooser
    case = gen_case(mod, st)
    print(json.dumps(case))
    S = Stats(); ch = Chooser(seed=st + '/sched')
    o = run_one(mod, case, ch, S, st)
    print(o[0], json.dumps(o[1], indent=1).replace('\\n', '\n') if o[1] else '', S.c, len(ch.log), interrupt.EVENTS.count)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'check': sys.exit(check(sys.argv[2].upper()))
    if cmd == 'worker':
        _, _, prop, vseed, batch, nruns, deadline, out = sys.argv
        worker(prop, int(vseed), int(batch), int(nruns), float(deadline), out,
               (os.environ['PYTHONHASHSEED'], os.environ['VERIF_VAR_SALT']))
        sys.exit(0)
    if cmd == 'setup': setup(); sys.exit(0)
    if cmd == 'replay': sys.exit(replay(sys.argv[2], '--quiet' in sys.argv))
    if cmd == 'self': sys.exit(selftest(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 60))
    if cmd == 'one': sys.exit(one(sys.argv[2], sys.argv[3]))
