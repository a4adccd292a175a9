import ctypes

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import addrgen, blindgen as bg, gen, zkp
from ..ref import curve
from bitcointx.core.key import CKey
from .c17 import is_result, check_effect
from .c19 import unblind, good
from .c20 import verified


class Boom(Exception):
    """what a failing random source raises"""


def armed(f, at, mode):
    """Runs f with the library call number at failing. (result or exception, names of the calls made)"""
    lib = zkp.lib()
    lib.standin_call.restype = ctypes.c_char_p
    lib.standin_arm(at, mode)
    try:
        try:
            r = f()
        except Exception as e:
            r = e
    finally:
        n = lib.standin_calls()
        calls = [lib.standin_call(k).decode()[10:] for k in range(min(n, 4096))]
        lib.standin_arm(-1, 0)
    return r, calls


MODES = ['does nothing', 'fails after having worked', 'this and all later ones']


def positions(calls, case):
    """Calls to let fail: one of every kind at least, and some more"""
    kinds = {}
    for k, c in enumerate(calls):
        kinds.setdefault(c, []).append(k)
    at = set()
    for n, c in enumerate(sorted(kinds)):
        at.add(kinds[c][(case['pick'] + n) % len(kinds[c])])
    for p in case['more']:
        at.add(p % len(calls))
    return sorted(at)


KEY_CALLS = ('ec_seckey_verify', 'ec_pubkey_create', 'ec_pubkey_parse', 'ecdh')


def everything(r, tx, res, what):
    """The success is a true one."""
    is_result(res, True)
    after = rd_tx(tx)
    check_effect(r, r.before(), after, res)
    check_eq(verified(r, after), r.todo, '%s: outputs and issuances that verify after a success' % what)
    check_eq(res.num_successfully_blinded, r.todo, '%s: number reported' % what)
    check(r.balance(after), '%s: success, but the transaction does not balance', what)
    for n, s in enumerate(r.secs):
        if s is not None:
            u = tx.vout[n].unblind_confidential_pair(CKey(s), after['vout'][n]['wit']['rp'])
            good(u, r.outs[n]['asset'], r.outs[n]['amt'], res.blinding_factors[n].data, res.asset_blinding_factors[n].data,
                 '%s: output %d' % (what, n))


def check_library(case):
    r = bg.Req(case)
    if not (r.can() and r.provable() and r.todo):
        return False, ['nothing to blind']
    lb = []
    with params(case['params']):
        def attempt(at, mode, strict=True):
            tx = r.make_tx()
            kw = r.kwargs()
            if not strict:
                kw['is_blind_success_strict'] = False
            kw['_rand_func'] = bg.Stream(case['seed'])
            fun = (lambda: ec.blind_transaction(tx, **kw)) if case['via'] else (lambda: tx.blind(**kw))
            res, calls = armed(fun, at, mode)
            return tx, res, calls

        tx0, res, calls = attempt(-1, 0)
        if isinstance(res, Exception):
            raise res
        is_result(res, True)
        want = tx0.serialize()
        for n, at in enumerate(positions(calls, case)):
            mode = (case['pick'] + n) % 3
            strict = bool((case['pick'] >> n % 8) & 1) or mode == 1
            tx, res, got = attempt(at, mode, strict)
            what = '%s, call %d of %d of the library, %s' % (calls[at], at, len(calls), MODES[mode])
            if len(got) <= at:
                fail('calls to the library differ between two runs (%s)', what)
            if isinstance(res, Exception):
                lb.append(calls[at] + ': exception')
            elif isinstance(res, ec.BlindingSuccess) and calls[at] in KEY_CALLS:
                # made by python-bitcointx, which checks every public key it has, whether that matters or not
                everything(r, tx, res, what)
                lb.append(calls[at] + ': success')
            elif strict:
                check(isinstance(res, ec.BlindingFailure), '%s: blinding reports %s', what, res)
                is_result(res, False)
                lb.append(calls[at] + ': failure')
            elif isinstance(res, ec.BlindingSuccess):
                # strict mode is off: everything that is counted has to be there
                is_result(res, True)
                check_eq(res.num_successfully_blinded, verified(r, rd_tx(tx)), what + ': number reported')
                check(res.num_successfully_blinded < r.todo, '%s: everything reported as blinded', what)
                lb.append(calls[at] + ': partial success')
            else:
                is_result(res, False)
                lb.append(calls[at] + ': failure')
            if n % 4 == 0:
                tx, res, _ = attempt(-1, 0)
                if isinstance(res, Exception):
                    raise res
                is_result(res, True)
                check_eq(tx.serialize(), want, 'the same request after %s' % what)
    return True, lb


def strat_library():
    return st.builds(lambda c, p, m: dict(c, pick=p, more=m),
                     bg.request(max_in=3, max_out=3, iss_weight=2, unbal=False, foreign=False,
                                bits=st.integers(3, 5), exp=st.just(0)),
                     st.integers(0, 2 ** 20), st.lists(st.integers(0, 10 ** 6), max_size=4))


# ---- the random source -----------------------------------------------------------------

class Faulty(bg.Stream):
    def __init__(self, seed, at, kind):
        super().__init__(seed)
        self.at = at
        self.kind = kind
        self.hit = False

    def __call__(self, n):
        k = len(self.given)
        b = super().__call__(n)
        if k < self.at or (k > self.at and not self.kind.startswith('from here on ')):
            return b
        self.hit = True
        kind = self.kind.replace('from here on ', '')
        if kind == 'raises':
            raise Boom('no entropy')
        if kind == 'os error':
            raise OSError(5, 'no entropy')
        return {'short': b[:n - 1], 'empty': b'', 'half': b[:n // 2], 'long': b + b'\x01', 'none': None, 'text': b.hex()[:n],
                'number': 5, 'zero': bytes(n), 'ones': b'\xff' * n, 'order': bg.N.to_bytes(32, 'big')[:n],
                'list': list(b), 'double': b + b}[kind]


KINDS = ['raises', 'os error', 'short', 'empty', 'half', 'long', 'none', 'text', 'number', 'zero', 'ones', 'order', 'list', 'double',
         'from here on raises', 'from here on short', 'from here on empty', 'from here on ones', 'from here on none']


def check_random(case):
    r = bg.Req(case)
    if not (r.can() and r.provable() and r.todo):
        return False, ['nothing to blind']
    lb = []
    with params(case['params']):
        def attempt(rand):
            tx = r.make_tx()
            try:
                res = r.blind(tx, rand)
            except Exception as e:
                res = e
            return tx, res
        s = bg.Stream(case['seed'])
        tx, res = attempt(s)
        if isinstance(res, Exception):
            raise res
        is_result(res, True)
        want = tx.serialize()
        n = len(s.given)
        if not n:
            return False, ['no random numbers used']
        for at, kind in case['faults']:
            at %= n
            f = Faulty(case['seed'], at, kind)
            tx, res = attempt(f)
            what = 'call %d of %d of the random source %s' % (at, n, kind)
            if not f.hit:
                fail('calls to the random source differ between two runs (%s)', what)
            if isinstance(res, Exception):
                lb.append(kind + ': exception')
            elif isinstance(res, ec.BlindingSuccess):
                everything(r, tx, res, what)
                check(kind.split()[-1] in ('zero', 'ones', 'order', 'list', 'long', 'double'), '%s: success', what)
                lb.append(kind + ': success')
            else:
                is_result(res, False)
                lb.append(kind + ': failure')
        tx, res = attempt(bg.Stream(case['seed']))
        if isinstance(res, Exception):
            raise res
        check_eq(tx.serialize(), want, 'the same request after failures of the random source')
    return True, lb


def strat_random():
    return st.builds(lambda c, f: dict(c, faults=f),
                     bg.request(max_in=3, max_out=3, iss_weight=2, unbal=False, foreign=False,
                                bits=st.integers(3, 5), exp=st.just(0)),
                     st.lists(st.tuples(st.integers(0, 99), st.sampled_from(KINDS)).map(list), min_size=4, max_size=9))


# ---- unblinding ------------------------------------------------------------------------

def check_unblinding(case):
    c = case
    asset, abf, amt = c['asset'], c['abf'], c['amt']
    if c['explicit']:
        abf = bg.Z32
    g = zkp.gen64(asset, abf)
    com = zkp.commit33(amt, c['bf'], g)
    nonce = c['sec'] if c['own'] else zkp.nonce_of(c['esec'], curve.pub(c['sec']))
    proof = zkp.rp_sign(amt, 1, com, c['bf'], nonce, 0, c['bits'], asset + abf, b'' if c['own'] else c['spk'], g)
    if proof is None:
        return False, ['no proof']
    o = dict(value=com, asset=b'\x01' + asset if c['explicit'] else zkp.gen33(asset, abf), nonce=b'' if c['own'] else curve.pub(c['esec']))
    lb = []
    with params(c['params']):
        key = CKey(c['sec'])
        out = ec.CElementsTxOut(ec.CConfidentialValue(o['value']), es.CElementsScript(c['spk']),
                                ec.CConfidentialAsset(o['asset']), ec.CConfidentialNonce(o['nonce']))

        def once():
            return out.unblind_confidential_pair(key, proof)
        res, calls = armed(once, -1, 0)
        if isinstance(res, Exception):
            raise res
        good(res, asset, amt, c['bf'], abf, 'without fault')
        for at in range(len(calls)):
            for mode in (0, 1, 2):
                res, got = armed(once, at, mode)
                what = '%s, call %d of %d of the library, %s' % (calls[at], at, len(calls), MODES[mode])
                if len(got) <= at:
                    fail('calls to the library differ between two runs (%s)', what)
                if isinstance(res, Exception):
                    lb.append(calls[at] + ': exception')
                    continue
                check(isinstance(res, ec.UnblindingFailure), '%s: unblinding reports %s', what, res)
                check(res.ok is False and bool(res.error), 'a failure with ok=%r, error=%r', res.ok, res.error)
                lb.append(calls[at] + ': failure')
            good(once(), asset, amt, c['bf'], abf, 'after a fault in ' + calls[at])
        good(unblind(o, c['spk'], key, proof), asset, amt, c['bf'], abf, 'in the end')
    return True, lb


def strat_unblinding():
    return st.fixed_dictionaries(dict(
        asset=gen.b32(False), abf=bg.factor(), bf=bg.factor(), amt=bg.amount(), sec=addrgen.secret(), esec=addrgen.secret(),
        spk=bg.script().filter(lambda b: len(b) < 999), explicit=gen.weighted((3, st.just(False)), (1, st.just(True))),
        own=gen.weighted((3, st.just(False)), (1, st.just(True))), bits=st.sampled_from([3, 5, 8]), params=st.sampled_from(PARAMS)))


# ---- the rest of what asks the library ---------------------------------------------------

def check_other(case):
    lb = []
    with params(case['params']):
        a = ec.CAsset(case['asset'])
        want = zkp.gen33(case['asset'])
        for what, f in (('to_commitment', a.to_commitment),):
            res, calls = armed(f, -1, 0)
            check_eq(bytes(res) if not isinstance(res, Exception) else res, want, what)
            for at in range(len(calls)):
                for mode in (0, 1, 2):
                    res, _ = armed(f, at, mode)
                    check(isinstance(res, Exception), '%s returns %s when call %s of the library %s', what, res, calls[at], MODES[mode])
                    lb.append(calls[at] + ': exception')
                check_eq(bytes(f()), want, what + ' after a fault')
        g = zkp.gen64(case['asset'])
        com = zkp.commit33(case['amt'], case['bf'], g)
        proof = zkp.rp_sign(case['amt'], 1, com, case['bf'], case['bf'], 0, 5, b'', b'', g)
        if proof is not None:
            w = ec.CElementsTxOutWitness(b'', proof)
            f = w.get_rangeproof_info
            res, calls = armed(f, -1, 0)
            if isinstance(res, Exception):
                raise res
            check(res is not None, 'no information about a range proof')
            for at in range(len(calls)):
                bad, _ = armed(f, at, at % 2)
                check(isinstance(bad, Exception) or bad is None, 'get_rangeproof_info returns %s when %s fails', bad, calls[at])
                check_eq(f(), res, 'get_rangeproof_info after a fault')
    return True, lb


PROP = Prop('C28', [
    Sub('library', check_library, strat_library, quick=150, thorough=6000,
        doc='one or all following library calls fail during blinding: at least one of every kind in every request'),
    Sub('random', check_random, strat_random, quick=250, thorough=12000,
        doc='the random source fails, or gives too little, too much, values of other types or out of range'),
    Sub('unblinding', check_unblinding, strat_unblinding, quick=120, thorough=10000,
        doc='every library call during unblinding fails'),
    Sub('other', check_other, lambda: st.fixed_dictionaries(dict(
        asset=gen.b32(False), bf=bg.factor(), amt=st.integers(1, 99), params=st.sampled_from(PARAMS))),
        quick=60, thorough=2000, doc='asset commitments and range proof information'),
], rule='at least one fault was hit', assumptions=[
    'stand-in library with injected failures: a call that fails returns 0, having left its output alone or having written it',
    'failing calls of the plain library: ec_seckey_verify, ec_pubkey_create, ec_pubkey_parse, ecdh'])
