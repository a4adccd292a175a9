"""Code run in a forked process."""
import os
import pickle

from .core import Violation
from .env import HarnessError


def in_child(f):
    """Runs f in a forked process; what it returns (exceptions are violations)."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = pickle.dumps((True, f()))
            except HarnessError as e:
                out = pickle.dumps((None, str(e)))
            except BaseException as e:
                out = pickle.dumps((False, '%s: %s' % (type(e).__name__, e)))
            with os.fdopen(wr, 'wb') as h:
                h.write(out)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as h:
        data = h.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        if os.WIFSIGNALED(status):
            raise Violation('the process died of signal %d' % os.WTERMSIG(status))
        raise HarnessError('no answer from a child process')
    ok, out = pickle.loads(data)
    if ok is None:
        raise HarnessError(out)
    if not ok:
        raise Violation('in a child process: %s' % out)
    return out
