"""Functions run in other interpreters, started with other settings and kept for the next call."""
import os
import pickle
import struct
import subprocess
import sys

from . import env
from .core import Violation

KINDS = {
    # arguments of the interpreter, environment
    'hash seed 1': ([], dict(PYTHONHASHSEED='1')),
    'hash seed 777': ([], dict(PYTHONHASHSEED='777', LC_ALL='C', TZ='Asia/Kathmandu', PYTHONUTF8='0')),
    'optimized': (['-O'], dict(PYTHONHASHSEED='20201', LC_ALL='C.UTF-8')),
}
_running = {}


def _put(f, x):
    b = pickle.dumps(x)
    f.write(struct.pack('<I', len(b)) + b)
    f.flush()


def _get(f):
    n = f.read(4)
    if len(n) < 4:
        raise EOFError
    return pickle.loads(f.read(struct.unpack('<I', n)[0]))


def call(kind, zkp, target, arg):
    """module:function(arg) in the interpreter of that kind; exceptions are violations."""
    key = (kind, zkp, os.getpid())
    p = _running.get(key)
    if p is None:
        flags, more = KINDS[kind]
        e = env.child_env()
        e.update(more)
        p = subprocess.Popen([sys.executable] + flags + ['-m', 'vf.fresh', '1' if zkp else '0'], env=e, cwd='/',
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _running[key] = p
    try:
        _put(p.stdin, (target, arg))
        ok, out = _get(p.stdout)
    except (EOFError, OSError):
        del _running[key]
        status = p.wait()
        if status < 0:
            raise Violation('interpreter (%s) died of signal %d' % (kind, -status))
        raise env.HarnessError('no answer from another interpreter (%s)' % kind)
    if ok is None:
        raise env.HarnessError(out)
    if not ok:
        raise Violation('in another interpreter (%s): %s' % (kind, out))
    return out


def serve(zkp):
    import importlib
    rd, wr = os.fdopen(os.dup(0), 'rb'), os.fdopen(os.dup(1), 'wb')
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(2, 1)
    env.load(zkp)
    while True:
        try:
            target, arg = _get(rd)
        except EOFError:
            return
        try:
            mod, name = target.split(':')
            out = (True, getattr(importlib.import_module(mod), name)(arg))
        except env.HarnessError as e:
            out = (None, str(e))
        except BaseException as e:
            out = (False, '%s: %s' % (type(e).__name__, e))
        _put(wr, out)


if __name__ == '__main__':
    # the module the rest of the machinery knows
    from vf import fresh
    fresh.serve(sys.argv[1] == '1')
