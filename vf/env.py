"""Locations, sys.path and the stand-in for the secp256k1-zkp library.

Nothing here writes into /repo: byte code caching is off and everything that
is built goes to /verif/build (ignored by git) or, if that is not writable, to
a private temporary directory.
"""
import hashlib
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
ZKP_SRC = os.path.join(VERIF, 'zkp', 'zkp_standin.c')

sys.dont_write_bytecode = True


class HarnessError(Exception):
    """The machinery itself is broken: never a verdict about the code."""


def setup_path() -> None:
    for p in (VENV_SITE, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    # after the interpreter's own packages: only bitcointx must come from here
    sys.path.append(VENV_SITE)


def zkp_path() -> str:
    """Path of the built stand-in, building it when necessary."""
    with open(ZKP_SRC, 'rb') as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:16]
    dirs = [os.path.join(VERIF, 'build'),
            os.path.join(tempfile.gettempdir(), 'vf-build-%d' % os.getuid())]
    name = 'libzkp-standin-%s.so' % tag
    for d in dirs:
        p = os.path.join(d, name)
        if os.path.isfile(p):
            return p
    last = None
    for d in dirs:
        p = os.path.join(d, name)
        try:
            os.makedirs(d, exist_ok=True)
            fd, tmp = tempfile.mkstemp(suffix='.so', dir=d)
            os.close(fd)
            r = subprocess.run(
                ['gcc', '-O2', '-fPIC', '-shared', '-w', '-o', tmp, ZKP_SRC,
                 '-Wl,--no-as-needed', '-l:libsecp256k1.so'],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode != 0:
                last = r.stdout.decode(errors='replace')
                os.unlink(tmp)
                continue
            os.replace(tmp, p)
            return p
        except OSError as e:
            last = repr(e)
    raise HarnessError('cannot build the zkp stand-in: %s' % last)


_loaded = False


def load(zkp: bool = True):
    """Import the code under test, with the stand-in selected."""
    global _loaded
    if _loaded:
        return
    setup_path()
    import elementstx
    here = os.path.realpath(os.path.dirname(os.path.dirname(elementstx.__file__)))
    if here != os.path.realpath(REPO):
        raise HarnessError('elementstx imported from %s, not %s' % (here, REPO))
    if zkp:
        elementstx.set_custom_secp256k1_path(zkp_path())
        # the same library for keys, so that failures can be injected there too
        import bitcointx
        bitcointx.set_custom_secp256k1_path(zkp_path())
    _loaded = True


def child_env() -> dict:
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONPATH'] = VERIF
    e.pop('PYTHONSTARTUP', None)
    return e
