"""Calling the real code and writing down what it did, in the specification's terms."""
import datetime
import enum
import itertools
import math
import os
import re
import resource
import signal
import struct
import sys
import threading
import time
import types
import weakref

REPO = os.environ.get("ELGAS_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

# a tree on which call after call hangs must not use up all the time
HANGS = 0
MAX_HANGS = 20

# how the next call is made, if not simply (preempt.py)
WAY = None
# tables of names: members of enumerations are then known by their names (C25)
NAMES = None
# histories that nobody has judged yet: those still written, and those finished, by trace specification (Check.rescue)
OPEN, DONE = weakref.WeakSet(), []
# exceptions, when somebody wants to look at them (C21)
SEEN = None

# all the time that has gone by between calls, in seconds; what goes by before the next ones
ELAPSED = 0
PAUSES = itertools.cycle(([0, 0, 0.05, 0, 2, 0, 0, 12, 0, 0, 0, 70, 0, 0.7, 0, 0, 5, 0, 700, 0, 0, 0, 33, 0, 0, 4000, 0, 0.3, 0] * 15)[:-3] + [100000])

CALL_LIMIT = float(os.environ.get("VERIF_CALL_LIMIT", "10"))


def begun(h):
    OPEN.add(h)


def finished(h, module, j):
    OPEN.discard(h)
    DONE.append((module, j))
    return j


class Hang(BaseException):
    """A call of the real code did not come back."""


def _alarm(signum, frame):
    global HANGS
    HANGS += 1
    raise Hang()


def setup():
    """Silence the library's logging, limit memory and time of its calls; live in a zone that is not UTC."""
    import logging

    import structlog

    structlog.configure(
        wrapper_class=structlog.make_filtering_bound_logger(logging.CRITICAL),
        cache_logger_on_first_use=False,
    )
    # summer time begins with a jump of half a day: what goes by local time does not go unnoticed
    os.environ["TZ"] = "HRN-5:30HRS-17:30,M3.2.0,M10.1.0"
    time.tzset()
    _, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, hard))
    signal.signal(signal.SIGALRM, _alarm)
    set_clocks()


class _Clock(type):
    """Stands for the class datetime, and tells the time by time.time()."""

    def __call__(cls, *a, **k):
        return datetime.datetime(*a, **k)

    def __getattr__(cls, name):
        return getattr(datetime.datetime, name)

    def __instancecheck__(cls, x):
        return isinstance(x, datetime.datetime)

    def __subclasscheck__(cls, x):
        return issubclass(x, datetime.datetime)

    def now(cls, tz=None):
        return datetime.datetime.fromtimestamp(time.time(), tz)

    def utcnow(cls):
        return datetime.datetime.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

    def today(cls):
        return cls.now()


class Clock(metaclass=_Clock):
    pass


def set_clocks():
    """Modules of the library that look at the clock by way of datetime see the time of the simulation."""
    import importlib
    import pkgutil

    try:
        import elgas

        names = ["elgas"] + [m.name for m in pkgutil.walk_packages(elgas.__path__, "elgas.")]
    except Exception:
        return  # whoever uses it will see
    for name in names:
        try:
            m = importlib.import_module(name)
            with open(m.__file__) as f:
                looks = re.search(r"\.(now|utcnow|today)\b", f.read())
        except Exception:
            continue
        if not looks:
            continue
        for k, v in list(vars(m).items()):
            if v is datetime.datetime:
                setattr(m, k, Clock)
            elif v is datetime:
                there = types.ModuleType("datetime")
                there.__dict__.update({**vars(datetime), "datetime": Clock})
                setattr(m, k, there)


_turn = itertools.count()


def named(t, number):
    """The member of the enumeration for this number: by its name, if tables of names are in use."""
    from . import calls

    if NAMES:
        es = calls.enumerations(t)
        e = es[next(_turn) % len(es)]
        for n, v in NAMES[t].items():
            if v == number:
                return e[n]
    return calls.enumeration(t)(number)


def digits(n):
    out = []
    while n:
        out.append(n & 255)
        n >>= 8
    return out


def val(v):
    """Project a Python value: {t: tag, d: integers}."""
    if v is None:
        return {"t": "n", "d": []}
    if NAMES and isinstance(v, enum.Enum) and type(v).__name__ in NAMES:
        v = NAMES[type(v).__name__].get(v.name, v.value)
    if isinstance(v, bool) or isinstance(v, int):
        v = int(v)
        return {"t": "i" if v >= 0 else "m", "d": digits(abs(v))}
    if isinstance(v, (bytes, bytearray)):
        return {"t": "b", "d": list(v)}
    if isinstance(v, str):
        return {"t": "s", "d": [ord(c) for c in v]}
    if isinstance(v, datetime.datetime):
        d = [v.year, v.month, v.day, v.hour, v.minute, v.second]
        if v.microsecond or v.tzinfo is not None:  # not the time of any device
            return {"t": "tx", "d": d + [v.microsecond, int(v.tzinfo is not None)]}
        return {"t": "tm", "d": d}
    if isinstance(v, float):
        d = list(struct.pack("<d", v))
        try:
            four = struct.pack("<f", v)
            if math.isnan(v) or struct.unpack("<f", four)[0] == v:
                d += list(four)
        except OverflowError:
            pass
        return {"t": "f", "d": d}
    if isinstance(v, (list, tuple)):
        flat = []
        for x in v:
            p = val(x)
            flat += [len(p["d"])] + p["d"]
        return {"t": "l", "d": flat}
    return {"t": "x", "d": []}


def err(e):
    mro = []
    for c in type(e).__mro__:
        if c in (BaseException, object):
            break
        mro.append(c.__name__)
    return {"k": "err", "mro": mro or ["BaseException"]}


def call(fn, project=lambda r: {"k": "ok"}, limit=None):
    """Outcome of fn(): projected result, error, or hang ("skip": not called any more)."""
    global HANGS, WAY, ELAPSED
    ELAPSED += next(PAUSES)
    if HANGS >= MAX_HANGS:
        return {"k": "skip"}
    if WAY is not None:
        way, plain, WAY = WAY, fn, None
        fn = lambda: way(plain)
    timed = threading.current_thread() is threading.main_thread()
    if timed:
        signal.setitimer(signal.ITIMER_REAL, limit or CALL_LIMIT)
    try:
        try:
            r = fn()
        finally:
            if timed:
                signal.setitimer(signal.ITIMER_REAL, 0)
        return project(r)
    except Hang:
        return {"k": "hang"}
    except MemoryError:
        HANGS += 1
        return {"k": "hang"}
    except Exception as e:
        if SEEN is not None:
            SEEN.append(e)
        return err(e)
    except BaseException as e:  # SystemExit and the like
        if isinstance(e, KeyboardInterrupt):
            raise
        return {"k": "exit"}
