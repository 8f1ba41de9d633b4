"""A clock in the hands of the harness: installed before the library is imported, it is the system clock until a tick is set, and
then every look at it takes one tick, so that durations are known up to the number of looks."""
import time

REAL, REAL_PERF = time.time, time.perf_counter
tick = 0
looks = 0
_ahead = 0.0
installed = False


def _now(real):
    def now():
        global looks, _ahead
        if tick:
            looks += 1
            _ahead += tick
            return _start + _ahead
        return real() + _ahead
    return now


_start = REAL()


def install():
    global installed
    installed = True
    time.time, time.perf_counter = _now(REAL), _now(REAL_PERF)


def run(fn, t):
    """(result of fn, number of looks at the clock during it) with ticks of t seconds"""
    global tick, looks, _start
    _start, looks, tick = REAL(), 0, t
    try:
        r = fn()
    finally:
        tick = 0
    return r, looks


def reset():
    global _ahead
    _ahead = 0.0
