#!/usr/bin/env python3
"""Entry point of every check.

  run.py C01                 run the check of a property (VERIF_SEED, VERIF_TIER)
  run.py --replay FILE       re-run one recorded case
  run.py --setup             build what the checks need and self-test
"""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from vf import core, env  # noqa: E402

PY = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
NSHARDS = 8
SHARD_LIMIT = {'quick': 700, 'thorough': 6 * 3600}


def known_findings(pid):
    """Entries that suppress: 'finding: property=<id> key=<key> <text>'."""
    res = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + pid \
                    and w[2].startswith('key='):
                res[w[2][4:]] = w[3]
    return res


def write_replay(pid, failure):
    d = os.path.join(HERE, 'replays')
    try:
        os.makedirs(d, exist_ok=True)
    except OSError:
        d = tempfile.mkdtemp(prefix='vf-replay-')
    data = dict(property=pid, **failure)
    text = json.dumps(data, indent=1, sort_keys=True)
    name = '%s-%s-%s.json' % (pid, failure['sub'],
                              hashlib.sha256(text.encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        f.write(text + '\n')
    return path


def run_regress(pid):
    """Committed regression cases, executed in their own process."""
    d = os.path.join(HERE, 'regress', pid)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.json')]


def replay(path, quiet=False):
    env.setup_path()
    data = json.load(open(path))
    prop = core.load_prop(data['property'])
    env.load(zkp=prop.zkp)
    sub = [s for s in prop.subs if s.name == data['sub']][0]
    for js in data.get('history', []):
        try:
            sub.check(core.from_jsonable(js))
        except env.HarnessError:
            raise
        except Exception:
            pass
    try:
        sub.check(core.from_jsonable(data['case']))
    except env.HarnessError:
        raise
    except Exception as e:
        import traceback
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        if not quiet:
            traceback.print_exc()
        else:
            print('%s: %s' % (type(e).__name__, e))
        return 1
    print('property %s holds on %s' % (data['property'], path))
    return 0


def crash_failure(pid, journal, tmp, ce):
    try:
        data = json.load(open(journal))
        data['property'] = pid
        path = os.path.join(tmp, 'crash.json')
        json.dump(data, open(path, 'w'))
        cmd = [PY, os.path.join(HERE, 'run.py'), '--replay', path]
        try:
            r = subprocess.run(cmd, cwd=tmp, env=ce, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=90)
        except subprocess.TimeoutExpired:
            return dict(sub=data['sub'], case=data['case'],
                        error='does not terminate within 90 s', trace='')
        if r.returncode < 0 or r.returncode == 1:
            return dict(sub=data['sub'], case=data['case'],
                        error='process ended with %d' % r.returncode,
                        trace=r.stdout.decode(errors='replace')[-3000:])
    except (OSError, ValueError):
        pass
    return None


def run_check(pid, scale, only):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = os.environ.get('VERIF_SEED', '1')
    try:
        seed_int = int(seed)
    except ValueError:
        seed_int = int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16)
    if tier == 'thorough':
        scale *= float(os.environ.get('VERIF_SCALE', '1'))
    elif pid not in ('C31',):
        scale *= 2
    env.setup_path()
    prop = core.load_prop(pid)
    if prop.zkp:
        env.zkp_path()
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    failures = []
    results = []
    errors = []
    regress = []
    try:
        ce = env.child_env()
        ce['TMPDIR'] = tmp
        procs = []
        for k in range(NSHARDS):
            out = os.path.join(tmp, 'out%d.json' % k)
            cmd = [PY, '-m', 'vf.core', '--prop', pid, '--tier', tier,
                   '--seed', str(seed_int), '--shard', str(k),
                   '--nshards', str(NSHARDS), '--scale', str(scale),
                   '--out', out]
            if only:
                cmd += ['--only', only]
            log = open(os.path.join(tmp, 'log%d' % k), 'wb')
            procs.append((k, out, subprocess.Popen(
                cmd, cwd=tmp, env=ce, stdin=subprocess.DEVNULL, stdout=log, stderr=log)))
        for path in run_regress(pid):
            r = subprocess.run([PY, os.path.join(HERE, 'run.py'), '--replay', path],
                               cwd=tmp, env=ce, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            txt = r.stdout.decode(errors='replace')
            regress.append(os.path.basename(path))
            if r.returncode == 1 and 'VIOLATION property=' in txt:
                data = json.load(open(path))
                failures.append((-1, dict(sub=data['sub'], case=data['case'],
                                          error='regression case %s' % os.path.basename(path),
                                          trace=txt[-3000:])))
            elif r.returncode != 0:
                errors.append('regression case %s: rc %d\n%s' % (path, r.returncode, txt[-2000:]))
        limit = SHARD_LIMIT[tier]
        for k, out, pr in procs:
            try:
                rc = pr.wait(max(1.0, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                rc = 'timeout'
            try:
                data = json.load(open(out))
            except Exception:
                log = open(os.path.join(tmp, 'log%d' % k), errors='replace').read()[-3000:]
                # The process died or hangs. That is a verdict only if the case
                # it was working on does it again on its own.
                f = crash_failure(pid, out + '.journal', tmp, ce) \
                    if rc == 'timeout' or rc < 0 else None
                if f is not None:
                    failures.append((k, f))
                else:
                    errors.append('shard %d died, rc=%r\n%s' % (k, rc, log))
                continue
            if not data['ok']:
                errors.append('shard %d: %s' % (k, data.get('harness_error')))
            for r in data['results']:
                results.append((k, r))
                if r['failure']:
                    failures.append((k, r['failure']))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # ---- merge
    subs = {}
    for k, r in results:
        s = subs.setdefault(r['sub'], dict(evaluations=0, hashes=set(), labels={}, samples=[], wall=0.0))
        s['evaluations'] += r['evaluations']
        s['hashes'].update(r['hashes'])
        if r.get('out_of_time'):
            s['labels']['shards cut short by the time limit'] = s['labels'].get('shards cut short by the time limit', 0) + 1
        for lb, c in r['labels'].items():
            s['labels'][lb] = s['labels'].get(lb, 0) + c
        s['samples'] += r['samples']
        s['wall'] = max(s['wall'], r['wall_s'])
    known = known_findings(pid)
    new_failures = []
    known_hit = {}
    for k, f in failures:
        key = f.get('key')
        if key and key in known:
            known_hit[key] = known[key]
        else:
            new_failures.append((k, f))

    samples = []
    for name, s in subs.items():
        for t in s['samples'][:2]:
            samples.append({'sub': name, 'case': t})
    ev = dict(
        property=pid, tier=tier, seed=seed_int, level='exploration',
        coverage=dict(
            evaluations=sum(s['evaluations'] for s in subs.values()),
            distinct_nontrivial=sum(len(s['hashes']) for s in subs.values()),
            rule=prop.rule, samples=samples,
            subs={n: dict(evaluations=s['evaluations'],
                          distinct_nontrivial=len(s['hashes']),
                          what=[x.doc for x in prop.subs if x.name == n][0],
                          labels=dict(sorted(s['labels'].items())),
                          slowest_shard_s=s['wall'])
                  for n, s in subs.items()},
            regression_cases=regress),
        assumptions=prop.assumptions,
        wall_s=round(time.time() - t0, 3),
        violations=len(new_failures))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')

    for key, text in sorted(known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, text))
    if new_failures:
        new_failures.sort(key=lambda kf: (kf[0], kf[1]['sub']))
        seen = set()
        first = True
        for k, f in new_failures:
            if f['sub'] in seen:
                continue
            seen.add(f['sub'])
            path = write_replay(pid, f)
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  sub=%s shard=%d %s' % (f['sub'], k, f['error'][:1500]))
            if first:
                print('  case: %s' % core.dumps(f['case'])[:1500])
                first = False
        for e in errors:
            print('note: %s' % e)
        return 1
    if errors:
        for e in errors:
            print('CHECK-ERROR: %s' % e)
        return 2
    print('property %s held on %d cases (%d distinct non-trivial), tier %s, seed %d, %.1fs'
          % (pid, ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'],
             tier, seed_int, time.time() - t0))
    return 0


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only')
    ap.add_argument('--tier', choices=['quick', 'thorough'])
    a = ap.parse_args()
    if a.tier:
        os.environ['VERIF_TIER'] = a.tier
    try:
        if a.setup:
            from vf import selftest
            return selftest.main()
        if a.replay:
            return replay(a.replay)
        if not a.prop:
            ap.error('which property?')
        return run_check(a.prop, a.scale, a.only)
    except env.HarnessError as e:
        print('CHECK-ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    if not sys.flags.dont_write_bytecode or os.environ.get('PYTHONHASHSEED') != '0':
        e = env.child_env()
        os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], e)
    sys.exit(main())
