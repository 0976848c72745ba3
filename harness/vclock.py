"""Virtual clock.  Import this module BEFORE quocslib: it replaces datetime.datetime / datetime.now, time.time,
time.monotonic, time.perf_counter and time.sleep by a clock that only moves when the harness moves it, so that a run
is a deterministic function of its script.  Real time is still available as REAL_*."""
import datetime as _dt
import time as _time

REAL_perf = _time.perf_counter
REAL_sleep = _time.sleep
REAL_time = _time.time

BASE = 1_700_000_000.0


class Clock:
    def __init__(self):
        self.t = 0.0
        self.on_sleep = None

    def reset(self):
        self.t = 0.0
        self.on_sleep = None

    def advance(self, s):
        self.t += s


CLOCK = Clock()
_real_datetime = _dt.datetime


class VDatetime(_real_datetime):
    @classmethod
    def now(cls, tz=None):
        r = _real_datetime.fromtimestamp(BASE + CLOCK.t, tz)
        return cls(r.year, r.month, r.day, r.hour, r.minute, r.second, r.microsecond, r.tzinfo)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


def _sleep(s):
    if CLOCK.on_sleep is not None:
        CLOCK.on_sleep(s)
    else:
        CLOCK.t += s


def install():
    _dt.datetime = VDatetime
    _time.time = lambda: BASE + CLOCK.t
    _time.monotonic = lambda: BASE + CLOCK.t
    _time.perf_counter = lambda: BASE + CLOCK.t
    _time.sleep = _sleep


def uninstall():
    _dt.datetime = _real_datetime
    _time.time = REAL_time
    _time.sleep = REAL_sleep
