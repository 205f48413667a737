"""Simulation environment: every source of nondeterminism dyna can observe is
replaced *before* dyna is imported.

 - wall clock  (time.time & friends)      -> VirtualClock.now (advances one tick per executed event)
 - timers      (signal.setitimer/alarm)   -> virtual timer, expiring at a virtual-time deadline
 - Ctrl-C      (SIGINT)                    -> raised at the k-th event chosen by the scheduler
 - hash order  (PYTHONHASHSEED, id hashes)-> fixed per worker process; Var hashes are name based and salted
 - randomness  (np.random, random)        -> seeded / scripted by the scheduler
 - progress-bar threads (rich.track)      -> plain iteration

"Events" are the places where CPython itself polls for signals inside dyna's
code: function entry, generator resumption and backward jumps.  They are
delivered by sys.monitoring, so the library runs unmodified, real byte code.
"""
import os, sys, io

REPO = os.environ.get('VERIF_REPO', '/repo')

os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True

import time as _time
import signal as _signal
import random as _random

real_time = _time.time
real_perf = _time.perf_counter

TICK = 0.001    # virtual seconds per event


class SimDeadlock(BaseException):
    "Raised by the simulator when a run exceeds its virtual step bound."


class VirtualClock:
    def __init__(self):
        self.reset()

    def reset(self, now=1_000_000.0):
        self.now = now
        self.skew = 0.0             # how far the wall clock is off the monotonic one
        self.deadline = None        # virtual time at which the interval timer fires
        self.handlers = {}
        self.timer_sets = 0
        self.timer_fires = 0

    def sleep(self, d):
        "Virtual sleep; wakes up (with the handler's exception) when a timer fires."
        target = self.now + d
        if self.deadline is not None and self.deadline <= target:
            self.now = max(self.now, self.deadline)
            self.fire()
        self.now = max(self.now, target)

    def fire(self):
        self.deadline = None
        self.timer_fires += 1
        h = self.handlers.get(int(_signal.SIGALRM))
        if callable(h):
            h(int(_signal.SIGALRM), sys._getframe())
        elif h == _signal.SIG_IGN:
            pass
        else:
            raise SimDeadlock('SIGALRM delivered with default handler: process would die')

    def poll(self):
        if self.deadline is not None and self.now >= self.deadline:
            self.fire()


CLOCK = VirtualClock()


# --- time -------------------------------------------------------------------
def _vtime(): return CLOCK.now + CLOCK.skew
def _vtime_ns(): return int(_vtime() * 1e9)
def _vmono(): return CLOCK.now

# --- signals ----------------------------------------------------------------
def _signal_signal(sig, handler):
    old = CLOCK.handlers.get(int(sig), _signal.SIG_DFL)
    CLOCK.handlers[int(sig)] = handler
    return old

def _signal_getsignal(sig):
    return CLOCK.handlers.get(int(sig), _signal.SIG_DFL)

def _setitimer(which, seconds, interval=0.0):
    old = _getitimer(which)
    if which == _signal.ITIMER_REAL:
        CLOCK.timer_sets += 1
        CLOCK.deadline = (CLOCK.now + seconds) if seconds > 0 else None
    return old

def _getitimer(which):
    if which == _signal.ITIMER_REAL and CLOCK.deadline is not None:
        return (max(CLOCK.deadline - CLOCK.now, 1e-9), 0.0)
    return (0.0, 0.0)

def _alarm(seconds):
    old = _getitimer(_signal.ITIMER_REAL)[0]
    _setitimer(_signal.ITIMER_REAL, seconds)
    return int(old)

_installed = False

def install():
    "Install the simulator's seams and import dyna.  Idempotent."
    global _installed
    if _installed: return
    _installed = True

    sys.path.insert(0, REPO)

    # third-party imports first so they bind to the real clock
    import numpy, pandas, IPython, rich.progress, z3, sympy, lark   # noqa: F401
    import arsenal, arsenal.robust                             # noqa: F401

    rich.progress.track = lambda seq, **kw: iter(seq)

    _time.time = _vtime
    _time.monotonic = _vmono
    _time.perf_counter = _vmono
    _time.process_time = _vmono
    _time.time_ns = _vtime_ns
    _time.monotonic_ns = _time.perf_counter_ns = lambda: int(_vmono() * 1e9)
    _time.sleep = CLOCK.sleep

    _signal.signal = _signal_signal
    _signal.getsignal = _signal_getsignal
    _signal.setitimer = _setitimer
    _signal.getitimer = _getitimer
    _signal.alarm = _alarm

    import dyna
    import dyna.execute.solver, dyna.execute.solver2, dyna.search.old, dyna.search.search, dyna.programs  # noqa
    assert os.path.realpath(dyna.__file__).startswith(os.path.realpath(REPO)), dyna.__file__

    # hash of an unbound variable: identity-based (address) in the real
    # system.  Any function of the variable is a legal refinement as equality
    # of unbound variables is identity; we use its name + a per-process salt.
    from dyna.term import Var
    salt = int(os.environ.get('VERIF_VAR_SALT', '0'))
    def var_hash(self):
        if self.is_bound():
            return hash(self.value)
        return hash((salt, self.name))
    Var.__hash__ = var_hash


class quiet:
    "Swallow stdout (dyna prints '^C', search logs, ...)."
    def __enter__(self):
        self.was = sys.stdout
        sys.stdout = io.StringIO()
        return self
    def __exit__(self, *args):
        sys.stdout = self.was
