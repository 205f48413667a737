"""Fault injection helpers: asynchronous interrupts and budget expiry at chosen events."""
from env import CLOCK, TICK
from interrupt import EVENTS


class measure:
    "count the events a block of code takes, undisturbed"
    def __enter__(self):
        self.a = EVENTS.count
        return self
    def __exit__(self, *a):
        self.n = EVENTS.count - self.a


def disarm():
    EVENTS.kill_at = []
    EVENTS.jumps = {}
    EVENTS.skews = {}


def arm_kill(k):
    "deliver Ctrl-C at the k-th event from now"
    EVENTS.kill_at = sorted(EVENTS.kill_at + [EVENTS.count + max(1, k)])


HEAD, TAIL = 6, 5      # events at either end of a call that may lie outside its protected region
