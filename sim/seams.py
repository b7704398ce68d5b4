"""Clock and randomness seams.  Must be imported before aioreactive.

Every clock the library could read (time.*, datetime.now, loop.time) is answered by
the simulated loop while a simulation is active, and by the real clock otherwise.
"""
import datetime as _dt
import random as _random
import sys
import time as _time

REAL_TIME = _time.time
REAL_MONO = _time.monotonic
REAL_PERF = _time.perf_counter
REAL_CPU = _time.process_time

ACTIVE = None  # the SimLoop of the running simulation
EPOCH = 1_700_000_000.0


def _mono():
    return ACTIVE._now + 1000.0


def _wall():
    return EPOCH + ACTIVE._now + ACTIVE.wall_offset


def _patch(name, real, sim):
    def f():
        return real() if ACTIVE is None else sim()

    f.__name__ = name
    setattr(_time, name, f)


_patch("time", REAL_TIME, _wall)
_patch("monotonic", REAL_MONO, _mono)
_patch("perf_counter", REAL_PERF, _mono)
_patch("time_ns", _time.time_ns, lambda: int(_wall() * 1e9))
_patch("monotonic_ns", _time.monotonic_ns, lambda: int(_mono() * 1e9))
_patch("perf_counter_ns", _time.perf_counter_ns, lambda: int(_mono() * 1e9))

_real_sleep = _time.sleep


def _sleep(d):
    if ACTIVE is None:
        _real_sleep(d)
    else:
        ACTIVE.stall(d)


_time.sleep = _sleep

_RealDT = _dt.datetime


class _Meta(type(_RealDT)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDT)


class SimDatetime(_RealDT, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if ACTIVE is None:
            return _RealDT.now(tz)
        # exact to the microsecond; built from integers so that no float rounding creeps in
        return _RealDT.fromtimestamp(_wall(), tz)

    @classmethod
    def utcnow(cls):
        if ACTIVE is None:
            return _RealDT.utcnow()
        return _RealDT.fromtimestamp(_wall(), _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


_dt.datetime = SimDatetime


def activate(loop, seed):
    global ACTIVE
    ACTIVE = loop
    _random.seed(seed)


def deactivate():
    global ACTIVE
    ACTIVE = None


assert "aioreactive" not in sys.modules, "seams must be installed before aioreactive is imported"
