"""
A clock behind a seam: while a frozen time is set, datetime.now(), time.time() and friends answer from it.
Installed before the code under test is imported, so that `from datetime import datetime` gets the stand-in.
"""
import datetime as _dt
import time as _time

_real = dict(time=_time.time, localtime=_time.localtime, asctime=_time.asctime, strftime=_time.strftime,
             time_ns=_time.time_ns, gmtime=_time.gmtime)
_now = None            # seconds since the epoch, or None for the real clock
_RealDT = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _RealDT)


class FakeDateTime(_RealDT, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        if _now is None:
            return _RealDT.now(tz)
        return _RealDT.fromtimestamp(_now, tz)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        return _RealDT.utcnow() if _now is None else _RealDT.utcfromtimestamp(_now)


def _t():
    return _real['time']() if _now is None else _now


def install():
    _dt.datetime = FakeDateTime
    _time.time = _t
    _time.time_ns = lambda: _real['time_ns']() if _now is None else int(_now * 10**9)
    _time.localtime = lambda s=None: _real['localtime'](_t() if s is None else s)
    _time.gmtime = lambda s=None: _real['gmtime'](_t() if s is None else s)
    _time.asctime = lambda t=None: _real['asctime'](_time.localtime() if t is None else t)
    _time.strftime = lambda f, t=None: _real['strftime'](f, _time.localtime() if t is None else t)


class frozen:
    def __init__(self, t):
        self.t = t

    def __enter__(self):
        global _now
        self._old = _now
        _now = self.t
        return self

    def set(self, t):
        global _now
        _now = t

    def __exit__(self, *a):
        global _now
        _now = self._old
        return False


def real_time():
    return _real['time']()
