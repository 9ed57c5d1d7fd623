"""Loads graph_scheduler from the repository's current working tree.

Bytecode caches are bypassed, so that what runs is the source as it is now, and
the wall clock that the library reads is replaced by a simulated one.
"""
import datetime as _dt
import importlib.abc
import importlib.machinery
import logging
import os
import sys
import threading
import time as _time
import types
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

# loaded with the real clock, before it is replaced
import networkx  # noqa: E402, F401
import numpy  # noqa: E402, F401
import pint  # noqa: E402, F401
import toposort  # noqa: E402, F401


class _SourceLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'graph_scheduler' and not fullname.startswith('graph_scheduler.'):
            return None
        base = os.path.join(SRC, *fullname.split('.'))
        for f in (os.path.join(base, '__init__.py'), base + '.py'):
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(
                    fullname, f, loader=_SourceLoader(fullname, f),
                    submodule_search_locations=[base] if f.endswith('__init__.py') else None,
                )
        return None


class _SimClock(threading.local):
    """The wall clock as the library sees it: moves only when a plan says so.
    Simulations in different threads have their own"""
    epoch = _dt.datetime(2020, 1, 1)
    offset = 0.0
    reads = 0

    def now(self):
        return self.epoch + _dt.timedelta(seconds=self.offset)


SimClock = _SimClock()


_RealDateTime = _dt.datetime


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _RealDateTime)


class SimDateTime(_RealDateTime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        SimClock.reads += 1
        return SimClock.now()

    @classmethod
    def utcnow(cls):
        SimClock.reads += 1
        return SimClock.now()

    @classmethod
    def today(cls):
        SimClock.reads += 1
        return SimClock.now()


def _seconds():
    SimClock.reads += 1
    return SimClock.now().timestamp()


def _sleep(s):
    SimClock.offset += s


def sim_time():
    res = {k: _seconds for k in ('time', 'monotonic', 'perf_counter', 'process_time', 'thread_time')}
    res.update({k + '_ns': lambda: int(_seconds() * 10**9) for k in res})
    res['sleep'] = _sleep
    return res


def load():
    sys.dont_write_bytecode = True
    for m in [m for m in sys.modules if m == 'graph_scheduler' or m.startswith('graph_scheduler.')]:
        del sys.modules[m]
    sys.meta_path.insert(0, _Finder())
    _dt.datetime = SimDateTime
    try:
        import graph_scheduler
    finally:
        _dt.datetime = _RealDateTime
    f = os.path.realpath(graph_scheduler.__file__)
    assert f.startswith(os.path.realpath(SRC) + os.sep), f
    # names bound by "import datetime" in the library still refer to the real
    # module; give them one whose datetime is simulated
    shim = types.ModuleType('datetime')
    shim.__dict__.update(_dt.__dict__)
    shim.datetime = SimDateTime
    tshim = types.ModuleType('time')
    tshim.__dict__.update(_time.__dict__)
    tshim.__dict__.update(sim_time())
    seams = {id(_dt): shim, id(_time): tshim}
    seams.update({id(getattr(_time, k)): f for k, f in sim_time().items()})
    for name, mod in list(sys.modules.items()):
        if name.startswith('graph_scheduler') and not name.endswith('_version'):
            for k, v in list(vars(mod).items()):
                if id(v) in seams:
                    setattr(mod, k, seams[id(v)])
    warnings.simplefilter('ignore')
    logging.disable(logging.NOTSET)
    return graph_scheduler


gs = load()
TS = [
    gs.TimeScale.CONSIDERATION_SET_EXECUTION, gs.TimeScale.PASS,
    gs.TimeScale.ENVIRONMENT_STATE_UPDATE, gs.TimeScale.ENVIRONMENT_SEQUENCE,
    gs.TimeScale.LIFE,
]
CSE, PASS, ESU, SEQ, LIFE = range(5)
TSN = [
    'consideration_set_execution', 'pass', 'environment_state_update',
    'environment_sequence', 'life',
]


HARNESS = os.path.dirname(os.path.abspath(__file__))


def raised_by_library(e):
    """Whether e was raised by the library, not by code of the harness"""
    tb, last = e.__traceback__, None
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith((HARNESS, os.path.realpath(SRC) + os.sep)):
            last = f
        tb = tb.tb_next
    return last is not None and not last.startswith(HARNESS)


def unexpected(e):
    """The violation that exception e is, where the harness expects none"""
    if raised_by_library(e):
        msg = f'the library raised {type(e).__name__}: {e}'
    elif isinstance(e, (OSError, MemoryError)):
        raise e
    else:
        # by code that handles what the library returned
        tb = e.__traceback__
        while tb.tb_next is not None:
            tb = tb.tb_next
        where = os.path.basename(tb.tb_frame.f_code.co_filename)
        msg = f'an answer of the library is unusable: {type(e).__name__}: {e} ({where}, line {tb.tb_lineno})'
    return {'kind': 'exception', 'msg': msg}


class Falsy:
    """A callable object that is false"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *args, execution_id=NotImplemented):
        return self.f(*args) if execution_id is NotImplemented else self.f(*args, execution_id=execution_id)

    def __bool__(self):
        return False
