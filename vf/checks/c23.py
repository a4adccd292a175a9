import random
import threading

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq
from .. import blindgen as bg, gen, zkp
from ..forked import in_child
from .. import fresh
from ..ref import curve
from .c17 import is_result, issuance_blinds


def plain_args(kw):
    """What the arguments say, to be compared before and after"""
    r = {}
    for k, v in kw.items():
        if k == 'input_descriptors':
            r[k] = (type(v).__name__, [(d.asset.data, d.amount, d.blinding_factor.data, d.asset_blinding_factor.data) for d in v],
                    [id(d) for d in v])
        elif k in ('output_pubkeys', 'auxiliary_generators'):
            r[k] = (type(v).__name__, [bytes(x) for x in v], [id(x) for x in v])
        elif k.startswith('blind_issuance'):
            r[k] = (type(v).__name__, [None if x is None else (x.secret_bytes, bytes(x.pub)) for x in v], [id(x) for x in v])
        else:
            r[k] = v
    return r


def outcome(r, how, rand, aux, more=None):
    """One run: ('success', transaction bytes, factors, ...); arguments must be left alone."""
    with params(how['params']):
        return outcome_here(r, how, rand, aux, more)


def outcome_here(r, how, rand, aux, more):
    tx = r.make_tx()
    kw = r.kwargs()
    if how['lists'] is not None:
        kw = {k: (how['lists'](v) if isinstance(v, (list, tuple)) else v) for k, v in kw.items()}
    if aux is not None:
        kw['auxiliary_generators'] = (how['lists'] or list)(how['form'](x) for x in aux)
    kw.update(more or {})
    args = plain_args(kw)
    if rand is not None:
        kw['_rand_func'] = rand
    res = ec.blind_transaction(tx, **kw) if how['fun'] else tx.blind(**kw)
    kw.pop('_rand_func', None)
    check_eq(plain_args(kw), args, 'arguments after blinding')
    if not isinstance(res, ec.BlindingSuccess):
        is_result(res, False)
        return ('failure', tx.serialize())
    is_result(res, True)
    return ('success', tx.serialize(), [b.data for b in res.blinding_factors], [b.data for b in res.asset_blinding_factors],
            res.num_successfully_blinded)


FORMS = [bytes, bytearray]


def check_same(case):
    r = bg.Req(case)
    aux = None
    if case['aux']:
        aux = [zkp.gen33(a, abf) for a, _, _, abf in r.known]
    base = dict(fun=False, lists=None, params='elements', form=bytes)
    s0 = bg.Stream(case['seed'])
    try:
        want = outcome(r, base, s0, aux)
    except RuntimeError as e:
        if r.provable():
            raise
        want = ('error', type(e).__name__)
    for v in case['variants']:
        how = dict(fun=v['fun'], lists=[list, tuple, None][v['lists']], params=EPARAMS[v['params']], form=FORMS[v['form']])
        s = bg.Stream(case['seed'])
        # what happened before in the process has no influence
        if v['before']:
            random.seed(v['before'])
            other = bg.Req(dict(case, seed=b'another.'))
            try:
                outcome(other, how, bg.Stream(b'another.'), aux)
            except RuntimeError:
                check(not other.provable(), 'blinding failed')
        got = []

        def one():
            try:
                got.append(outcome(r, how, s, aux))
            except RuntimeError as e:
                got.append(('error', type(e).__name__))
            except Exception as e:
                got.append(e)
        if v['thread']:
            t = threading.Thread(target=one)
            t.start()
            t.join()
        else:
            one()
        if isinstance(got[0], Exception):
            raise got[0]
        check_eq(got[0], want, 'same request, same random stream, called another way (%r)' % (v,))
    ok = want[0] == 'success' and r.n_out > 0
    return ok, [want[0], '%d issuances' % r.n_iss, '%d targets' % len(r.targets)]


def strat_same():
    var = st.fixed_dictionaries(dict(fun=st.booleans(), lists=st.integers(0, 2), params=st.integers(0, len(EPARAMS) - 1),
                                     form=st.integers(0, 1), before=st.integers(0, 2), thread=st.booleans()))
    return st.builds(lambda c, v, a: dict(c, variants=v, aux=a), bg.request(max_in=4, min_out=1, bits=BITS, exp=EXP),
                     st.lists(var, min_size=2, max_size=3), st.booleans())


BITS = gen.weighted((6, st.integers(3, 9)), (1, st.integers(10, 52)), (1, st.none()))
EXP = gen.weighted((6, st.sampled_from([0, None])), (1, st.integers(0, 18)))


# ---- where the secrets come from ------------------------------------------------------

def secrets_of(r, res, after):
    """{what: secret} and the same of what is published"""
    sec, pub = {}, {}
    last = r.last()
    for n, s in enumerate(r.secs):
        if s is None:
            continue
        o = after['vout'][n]
        sec['asset blinding factor of output %d' % n] = res.asset_blinding_factors[n].data
        if r.todo > 1 or r.outs[n]['amt']:
            sec['blinding factor of output %d' % n] = res.blinding_factors[n].data
        pub['asset of output %d' % n] = o['asset']
        if r.todo > 1:
            # (the only commitment is the one that balances the others)
            pub['value of output %d' % n] = o['value']
        pub['nonce of output %d' % n] = o['nonce']
        pub['range proof of output %d' % n] = o['wit']['rp']
    for k, (_, b) in enumerate(issuance_blinds(r, after)):
        sec['blinding factor of issuance %d' % k] = b
    for n, i in enumerate(after['vin']):
        for keys, f, w in ((r.akeys, 'amt', 'ar'), (r.tkeys, 'keys', 'kr')):
            if keys[n] is not None:
                pub['%s of input %d' % (f, n)] = i['iss'][f]
                pub['proof of %s of input %d' % (f, n)] = i['wit'][w]
    return sec, pub, 'blinding factor of output %d' % last


def check_sources(case):
    r = bg.Req(case)
    if not (r.can() and r.provable() and r.n_out):
        return False, ['nothing to blind']
    runs = []
    one = bg.Stream(case['seed'])
    two = bg.Stream(b'~' + case['seed'])
    with params(case['params']):
        # the same request: with one stream, with what follows in that stream, with another stream
        for s in (one, one, two):
            start = len(s.given)
            tx = r.make_tx()
            res = r.blind(tx, s)
            is_result(res, True)
            runs.append((s.given[start:], res, rd_tx(tx)))
    seen = {}
    for k, (given, res, after) in enumerate(runs):
        left = list(given)
        sec, pub, computed = secrets_of(r, res, after)
        # the factor of what is blinded last makes the sum right
        for what, x in sec.items():
            if what == computed:
                continue
            check(x in left, '%s does not come from the random source', what)
            left.remove(x)
        points = {curve.pub(x): x for x in left if len(x) == 32 and any(x) and int.from_bytes(x, 'big') < bg.N}
        for what, x in pub.items():
            if what.startswith('nonce'):
                check(x in points, '%s: the ephemeral key does not come from the random source', what)
                left.remove(points.pop(x))
        for d in (sec, pub):
            for what, x in d.items():
                # (what is published in one run can be the same: two commitments that have to balance each other)
                # (the one that makes the sum right can be forced to be another's, if it blinds an amount of zero)
                if x in seen and (seen[x][1] != k or (d is sec and computed not in (what, seen[x][0]))):
                    check(False, '%s of run %d is the same as %s of run %d', what, k, *seen[x])
                seen[x] = (what, k)
    return True, ['%d outputs' % r.n_out, '%d issuances' % r.n_iss]


def strat_sources():
    return bg.request(max_in=4, max_out=5, min_out=1, iss_weight=2, bits=BITS, exp=EXP)


# ---- the default source ---------------------------------------------------------------

def check_default(case):
    r = bg.Req(case)
    if not (r.can() and r.provable() and r.n_out):
        return False, ['nothing to blind']

    def run(fun):
        random.seed(case['rseed'])
        tx = r.make_tx()
        kw = r.kwargs()
        res = ec.blind_transaction(tx, **kw) if fun else tx.blind(**kw)
        is_result(res, True)
        sec, pub, _ = secrets_of(r, res, rd_tx(tx))
        return list(sec.items()), list(pub.items())
    with params(case['params']):
        runs = []
        for fun, fork in case['runs']:
            runs.append(in_child(lambda: run(fun)) if fork else run(fun))
    seen = {}
    for k, ds in enumerate(runs):
        for n, d in enumerate(ds):
            for what, x in d:
                if x in seen and (n == 0 or seen[x][1] != k):
                    check(False, 'without _rand_func, %s of run %d is the same as %s of run %d', what, k, *seen[x])
                seen[x] = (what, k)
    return True, ['%d runs' % len(runs)] + (['forked'] if any(f for _, f in case['runs']) else [])


def strat_default():
    return st.builds(lambda c, k, runs: dict(c, rseed=k, runs=runs), bg.request(max_out=3, min_out=1, bits=st.integers(3, 8), exp=st.just(0)),
                     st.integers(0, 9), st.lists(st.tuples(st.booleans(), st.booleans()).map(list), min_size=2, max_size=4))


# ---- other interpreters ---------------------------------------------------------------

def blind_here(case):
    """Outcome of a request (also called in other interpreters)"""
    r = bg.Req(case)
    aux = [zkp.gen33(a, abf) for a, _, _, abf in r.known] if case['aux'] else None
    base = dict(fun=case['via'], lists=None, params=case['params'], form=bytes)
    try:
        return outcome(r, base, bg.Stream(case['seed']), aux)
    except RuntimeError as e:
        if r.provable():
            raise
        return 'error', type(e).__name__


def check_interpreters(case):
    want = blind_here(case)
    for kind in case['kinds']:
        got = fresh.call(kind, True, 'vf.checks.c23:blind_here', case)
        check_eq(got, want, 'same request, same random stream, in another interpreter (%s)' % kind)
    r = bg.Req(case)
    return want[0] == 'success' and r.n_out > 0, [want[0]] + case['kinds']


def strat_interpreters():
    return st.builds(lambda c, k, a: dict(c, kinds=k, aux=a), bg.request(max_in=5, max_out=5, min_out=1, bits=BITS, exp=EXP),
                     st.lists(st.sampled_from(sorted(fresh.KINDS)), min_size=1, max_size=2, unique=True), st.booleans())


PROP = Prop('C23', [
    Sub('same', check_same, strat_same, quick=250, thorough=14000,
        doc='the same request and random stream: method or function, list or tuple, any parameters, any thread, any history'),
    Sub('interpreters', check_interpreters, strat_interpreters, quick=300, thorough=14000,
        doc='the same request and random stream in interpreters with another hash seed, locale, time zone, with -O'),
    Sub('sources', check_sources, strat_sources, quick=260, thorough=14000,
        doc='secrets are what the random source gave, each used once, and different in each run'),
    Sub('default', check_default, strat_default, quick=160, thorough=6000,
        doc='default random source: nothing repeats, not after seeding the random module or in forked processes'),
], rule='at least one output is blinded', assumptions=['stand-in library', 'random sources that do not repeat themselves'])
