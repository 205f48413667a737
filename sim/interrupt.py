"""Event counter + fault injector built on sys.monitoring (PEP 669).

While armed, each *event* (function entry, generator resume/throw-in, backward
jump) executed by code that lives in dyna advances the virtual clock by one
tick, lets the virtual interval timer expire, and lets the scheduler deliver an
asynchronous KeyboardInterrupt.  Those are exactly instants at which CPython
itself runs pending signal handlers, so an injected exception is one that a real
SIGINT/SIGALRM could have produced at that instant.
"""
import sys
from env import CLOCK, TICK, REPO, SimDeadlock

mon = sys.monitoring
TOOL = mon.DEBUGGER_ID
EV = mon.events.PY_START | mon.events.PY_RESUME | mon.events.JUMP

_prefix = REPO.rstrip('/') + '/dyna/'
_mine = {}


def _is_dyna(code):
    r = _mine.get(code)
    if r is None:
        r = _mine[code] = code.co_filename.startswith(_prefix)
    return r


class Events:
    def __init__(self):
        self.active = False
        self.reset()

    def reset(self):
        self.count = 0
        self.kill_at = []       # event numbers at which a KeyboardInterrupt is delivered
        self.kills = 0
        self.limit = None
        self.tick = TICK
        self.skews = {}         # event number -> the wall clock is set forward or back (seconds)
        self.jumps = {}         # event number -> clock jump (seconds, may be negative)
        self.overrun = None     # callable invoked when the step bound is exceeded

    # -- callback ------------------------------------------------------------
    def hit(self):
        self.count += 1
        n = self.count
        CLOCK.now += self.tick
        if n in self.jumps:
            CLOCK.now += self.jumps[n]
        if n in self.skews:
            CLOCK.skew += self.skews[n]
        if self.limit is not None and n >= self.limit:
            self.limit = None
            raise SimDeadlock(f'step bound exceeded after {n} events')
        if CLOCK.deadline is not None and CLOCK.now >= CLOCK.deadline:
            CLOCK.fire()
        if self.kill_at and n >= self.kill_at[0]:
            self.kill_at.pop(0)
            self.kills += 1
            raise KeyboardInterrupt(f'injected at event {n}')

    def __enter__(self):
        assert not self.active
        self.active = True
        mon.set_events(TOOL, EV)
        return self

    def __exit__(self, *args):
        mon.set_events(TOOL, 0)
        self.active = False


EVENTS = Events()


def _start(code, off):
    if not _is_dyna(code): return mon.DISABLE
    if EVENTS.active: EVENTS.hit()


def _jump(code, off, dest):
    if not _is_dyna(code): return mon.DISABLE
    if dest > off: return mon.DISABLE      # forward jump: no eval-breaker check there
    if EVENTS.active: EVENTS.hit()


def install():
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'verif-sim')
        mon.register_callback(TOOL, mon.events.PY_START, _start)
        mon.register_callback(TOOL, mon.events.PY_RESUME, _start)
        mon.register_callback(TOOL, mon.events.JUMP, _jump)
