"""Simulations in processes of their own."""
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

CPU_LIMIT = 20          # s of CPU for one simulation
WALL_LIMIT = 90         # s; twice: blocked
MEMORY = 6 << 30


class HarnessError(Exception):
    pass


class Blocked(Exception):
    """The simulation waits, without using the processor"""


def _alarm(sig, frame):
    """Out of CPU time: the library's fault only if it is running"""
    from .engine import Hang
    from .lib import SRC
    from .model import Limit
    while frame is not None:
        if frame.f_code.co_filename.startswith(SRC):
            raise Hang()
        frame = frame.f_back
    raise Limit()


def isolated(f, *args):
    """f(*args) in a forked process; its result must be JSON"""
    try:
        return attempt(f, *args)
    except Blocked:
        # (not because of the machine)
        try:
            return attempt(f, *args)
        except Blocked:
            return {'violation': {'kind': 'hang', 'msg': 'a call of the library waits for ever', 'op': -1}, 'inconclusive': None,
                    'trace': [], 'digest': 'blocked', 'stats': {}, 'states': []}


def attempt(f, *args):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
            signal.signal(signal.SIGVTALRM, _alarm)
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 5)
            try:
                res = f(*args)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            data = json.dumps(res).encode()
        except BaseException:
            data = json.dumps({'harness': traceback.format_exc()}).encode()
        try:
            with os.fdopen(w, 'wb') as fh:
                fh.write(data)
        except BaseException:
            code = 3
        os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + WALL_LIMIT
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed_out = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st, usage = os.wait4(pid, 0)
    if timed_out:
        if usage.ru_utime < CPU_LIMIT / 2:
            raise Blocked()
        raise HarnessError('a simulation took too long')
    data = b''.join(chunks)
    try:
        res = json.loads(data)
    except ValueError:
        raise HarnessError(f'a simulation ended without a result, status {st}')
    if 'harness' in res:
        raise HarnessError(res['harness'])
    return res
