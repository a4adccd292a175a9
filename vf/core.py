"""Property-based testing engine: cases, subs, shards, replay files."""
import base64  # noqa: F401
import hashlib
import json
import os
import sys
import time
import traceback

from . import env
from .env import HarnessError


class Violation(Exception):
    """The code under test broke the property."""
    key = None      # names a finding that may be listed in known-findings.txt


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=200):
    if isinstance(x, (bytes, bytearray)):
        x = 'x' + bytes(x).hex()
    else:
        x = repr(x)
    return x if len(x) <= n else x[:n] + '...(%d)' % len(x)


def check_eq(got, want, what):
    if got != want:
        raise Violation('%s: got %s, expected %s' % (what, short(got), short(want)))


# ---- cases as JSON -------------------------------------------------------

def to_jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {'hex': bytes(x).hex()}
    if isinstance(x, dict):
        return {k: to_jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [to_jsonable(v) for v in x]
    if x is None or isinstance(x, (bool, int, str, float)):
        return x
    raise HarnessError('case contains %r' % type(x))


def from_jsonable(x):
    if isinstance(x, dict):
        if len(x) == 1 and 'hex' in x:
            return bytes.fromhex(x['hex'])
        return {k: from_jsonable(v) for k, v in x.items()}
    if isinstance(x, list):
        return [from_jsonable(v) for v in x]
    return x


def dumps(x):
    return json.dumps(x, sort_keys=True, separators=(',', ':'))


class Sub:
    """One executable check of a property.

    strategy: function returning a Hypothesis strategy of plain cases
    cases:    instead of strategy, function (tier) returning a finite list
    check:    function(case) -> (nontrivial: bool, labels: iterable of str)
    quick / thorough: how many cases over all shards together
    """

    def __init__(self, name, check, strategy=None, cases=None, quick=200,
                 thorough=None, doc=''):
        self.name = name
        self.check = check
        self.strategy = strategy
        self.cases = cases
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 25
        self.doc = doc


class Prop:
    def __init__(self, id, subs, rule, assumptions=(), zkp=True):
        self.id = id
        self.subs = subs
        self.rule = rule
        self.assumptions = list(assumptions)
        self.zkp = zkp


def load_prop(pid) -> Prop:
    import importlib
    mod = importlib.import_module('vf.checks.' + pid.lower())
    return mod.PROP


JOURNAL = None


class OutOfTime(BaseException):
    pass


class Recorder:
    def __init__(self, sub, until=None):
        self.sub = sub
        self.until = until
        self.out_of_time = False
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.failure = None
        self.counting = True
        self.history = []

    def run(self, case):
        if self.until is not None and self.counting and time.time() > self.until:
            self.out_of_time = True
            raise OutOfTime
        js = to_jsonable(case)
        text = dumps(js)
        case = from_jsonable(json.loads(text))
        if JOURNAL is not None:
            # so that the parent knows what was running if the process dies
            b = dumps(dict(sub=self.sub.name, case=js)).encode()
            os.ftruncate(JOURNAL, 0)
            os.pwrite(JOURNAL, b, 0)
        if self.counting:
            self.evaluations += 1
        try:
            res = self.sub.check(case)
        except HarnessError:
            raise
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            self.failure = dict(
                sub=self.sub.name, case=js, error='%s: %s' % (type(e).__name__, e),
                trace=traceback.format_exc()[-4000:], key=getattr(e, 'key', None))
            # stop counting: what follows is shrinking
            self.counting = False
            raise
        if not self.counting:
            return
        if len(text) < 20000:
            self.history.append(js)
            if len(self.history) > 12:
                self.history.pop(0)
        nt, labels = res if res is not None else (True, ())
        for lb in labels:
            self.labels[lb] = self.labels.get(lb, 0) + 1
        if nt:
            h = hashlib.sha256(text.encode()).hexdigest()[:16]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.samples) < 2 or (len(self.samples) < 4 and self.evaluations % 37 == 0):
                    self.samples.append(text if len(text) < 1500 else text[:1500] + '...')

    def result(self):
        return dict(sub=self.sub.name, evaluations=self.evaluations,
                    hashes=sorted(self.hashes), labels=self.labels,
                    samples=self.samples, failure=self.failure, out_of_time=self.out_of_time)


def sub_seed(seed, pid, sub, shard):
    d = hashlib.sha256(('%s|%s|%s|%s' % (seed, pid, sub, shard)).encode()).digest()
    return int.from_bytes(d[:8], 'big')


SHRINK_SECONDS = 60


# of all subs of a quick run together, should the machine be very slow
QUICK_SECONDS = 480


def run_sub(prop, sub, n, seed, shard, nshards, tier, until=None):
    rec = Recorder(sub, until)
    t0 = time.time()
    if sub.cases is not None:
        for i, c in enumerate(sub.cases(tier)):
            if i % nshards != shard:
                continue
            try:
                rec.run(c)
            except OutOfTime:
                break
            except HarnessError:
                raise
            except Exception:
                if rec.failure is None:
                    raise
                break
    elif n > 0:
        import hypothesis
        import hypothesis.internal.conjecture.engine as eng
        from hypothesis import HealthCheck, Phase
        eng.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

        @hypothesis.settings(
            max_examples=n, database=None, deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False, print_blob=False,
            verbosity=hypothesis.Verbosity.quiet)
        @hypothesis.seed(sub_seed(seed, prop.id, sub.name, shard))
        @hypothesis.given(sub.strategy())
        def body(case):
            rec.run(case)

        try:
            body()
        except OutOfTime:
            pass
        except HarnessError:
            raise
        except BaseException:
            if rec.failure is None:
                raise
    if rec.failure is not None:
        # does the recorded case reproduce on its own?
        js = rec.failure['case']
        try:
            sub.check(from_jsonable(js))
            rec.failure['reproduces_alone'] = False
            rec.failure['history'] = rec.history
        except HarnessError:
            raise
        except Exception:
            rec.failure['reproduces_alone'] = True
    r = rec.result()
    r['wall_s'] = round(time.time() - t0, 3)
    return r


def shard_main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop', required=True)
    ap.add_argument('--tier', required=True)
    ap.add_argument('--seed', required=True)
    ap.add_argument('--shard', type=int, required=True)
    ap.add_argument('--nshards', type=int, required=True)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only', default=None)
    ap.add_argument('--out', required=True)
    a = ap.parse_args(argv)
    global JOURNAL
    JOURNAL = os.open(a.out + '.journal', os.O_RDWR | os.O_CREAT, 0o600)
    out = dict(ok=False, results=[])
    try:
        env.setup_path()
        prop = load_prop(a.prop)
        env.load(zkp=prop.zkp)
        subs = [s for s in prop.subs if not a.only or s.name == a.only]
        end = time.time() + float(os.environ.get('VF_SECONDS', QUICK_SECONDS))
        for k, sub in enumerate(subs):
            # each sub may use its share of what is left
            until = time.time() + max(1, end - time.time()) / (len(subs) - k) if a.tier == 'quick' else None
            total = sub.quick if a.tier == 'quick' else sub.thorough
            total = int(total * a.scale)
            n = total // a.nshards + (1 if a.shard < total % a.nshards else 0)
            r = run_sub(prop, sub, n, a.seed, a.shard, a.nshards, a.tier, until)
            out['results'].append(r)
            if r['failure']:
                break
        out['ok'] = True
    except BaseException:
        out['harness_error'] = traceback.format_exc()
    with open(a.out, 'w') as f:
        json.dump(out, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    shard_main(sys.argv[1:])
