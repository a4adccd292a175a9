import copy

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import addrgen, blindgen as bg, gen, zkp
from ..ref import curve
from bitcointx.core.key import CKey
from .c17 import is_result

N = bg.N


def not_boolean(res):
    try:
        bool(res)
    except TypeError:
        return
    fail('%s can be used as a boolean', type(res).__name__)


def unblind(o, spk, key, proof):
    """o: plain fields; unblinds a txout made of them"""
    out = ec.CElementsTxOut(ec.CConfidentialValue(o['value']), es.CElementsScript(spk),
                            ec.CConfidentialAsset(o['asset']), ec.CConfidentialNonce(o['nonce']))
    return out.unblind_confidential_pair(key, proof)


def good(res, asset, amount, bf, abf, what):
    check(isinstance(res, ec.UnblindingSuccess), '%s: unblinding failed: %s', what, res)
    check(res.ok is True and res.error == '', '%s: a success with ok=%r error=%r', what, res.ok, res.error)
    check_eq(res.asset.data, asset, what + ': asset')
    check(isinstance(res.asset, ec.CAsset), '%s: asset has type %s', what, type(res.asset).__name__)
    check_eq(res.amount, amount, what + ': amount')
    check_eq(res.blinding_factor.data, bf, what + ': blinding factor')
    check_eq(res.asset_blinding_factor.data, abf, what + ': asset blinding factor')
    d = res.get_descriptor()
    check(isinstance(d, ec.BlindingInputDescriptor), '%s: descriptor has type %s', what, type(d).__name__)
    check_eq((d.asset.data, d.amount, d.blinding_factor.data, d.asset_blinding_factor.data),
             (asset, amount, bf, abf), what + ': descriptor')
    not_boolean(res)


def bad(res, what):
    check(isinstance(res, ec.UnblindingFailure), '%s: unblinding succeeded: %s', what, res)
    check(res.ok is False and isinstance(res.error, str) and bool(res.error), '%s: a failure with ok=%r error=%r', what, res.ok, res.error)
    not_boolean(res)


def blinded(case):
    r = bg.Req(case)
    if not r.provable() or not r.can() or not r.n_out:
        return None
    tx = r.make_tx()
    res = r.blind(tx, bg.Stream(case['seed']))
    is_result(res, True)
    not_boolean(res)
    return r, tx, res


def check_unblind(case):
    with params(case['params']):
        b = blinded(case)
        if b is None:
            return False, ['nothing blinded']
        r, tx, res = b
        if case['tuples']:
            tx = ec.CElementsTransaction.deserialize(tx.serialize())
        descs = []
        for n, o in enumerate(tx.vout):
            s = r.secs[n]
            proof = bytes(tx.wit.vtxoutwit[n].rangeproof)
            if s is None:
                if not r.outs[n].get('foreign'):
                    bad(o.unblind_confidential_pair(CKey(case['ins'][0]['bf'] if any(case['ins'][0]['bf']) else b'\x01' * 32),
                                                    proof), 'output %d, not blinded' % n)
                continue
            want = (r.outs[n]['asset'], r.outs[n]['amt'], res.blinding_factors[n].data, res.asset_blinding_factors[n].data)
            u = None
            for compr in (True, False):
                for form in (bytes, bytearray):
                    u = o.unblind_confidential_pair(CKey(s, compr), form(proof))
                    good(u, *want, what='output %d' % n)
            check_eq(o.serialize(), tx.vout[n].serialize(), 'output after unblinding')
            descs.append(u)
        # what was unblinded can be spent as input of another blinding
        d = [u for u in descs if u.amount][:2]
        if not d:
            return True, ['only zero amounts']
        sec = case['again']
        t2 = ec.CElementsMutableTransaction(
            [ec.CElementsMutableTxIn(ec.CElementsMutableOutPoint(b'\x05' * 32, k)) for k in range(len(d))],
            [ec.CElementsMutableTxOut(ec.CConfidentialValue(u.amount), es.CElementsScript(b'\x51'),
                                      ec.CConfidentialAsset(u.asset)) for u in d])
        res2 = t2.blind(input_descriptors=[u.get_descriptor() for u in d],
                        output_pubkeys=[CKey(sec).pub] * len(d), custom_ct_bits=8,
                        _rand_func=bg.Stream(b'again' + case['seed']))
        is_result(res2, True)
        plain = rd_tx(t2)
        pos = [zkp.commit33(u.amount, u.blinding_factor.data, zkp.gen64(u.asset.data, u.asset_blinding_factor.data)) for u in d]
        check(zkp.tally(pos, [o['value'] for o in plain['vout']]), 'spending what was unblinded does not balance')
        for n, u in enumerate(d):
            good(t2.vout[n].unblind_confidential_pair(CKey(sec), t2.wit.vtxoutwit[n].rangeproof),
                 u.asset.data, u.amount, res2.blinding_factors[n].data, res2.asset_blinding_factors[n].data, 'spent again')
    return True, ['%d outputs' % len(descs)]


def strat_unblind():
    return st.builds(lambda c, s: dict(c, again=s), bg.request(min_out=1), addrgen.secret())


# ---- tampering ----------------------------------------------------------------

def flip(b, n):
    if not b:
        return b'\x01'
    n %= len(b) * 8
    b = bytearray(b)
    b[n // 8] ^= 1 << n % 8
    return bytes(b)


def tamper(t, kind, n, others, seed):
    """t: dict(value, asset, nonce, spk, rp, sec) -> changed, or None"""
    t = dict(t)
    f, how = kind
    if f == 'sec':
        k = int.from_bytes(t['sec'], 'big')
        k = {'next': k + 1, 'neg': N - k, 'double': 2 * k, 'other': int.from_bytes(seed, 'big')}[how] % N
        if not k:
            return None
        t['sec'] = k.to_bytes(32, 'big')
        return t
    b = t[f]
    if how == 'swap':
        if not others:
            return None
        b = others[n % len(others)][f]
    elif how == 'flip':
        if f in ('value', 'asset', 'nonce'):
            # keep it a field that can be constructed: change the content, or the parity
            b = flip(b[1:], n) if n % 3 else b[1:]
            b = bytes([t[f][0] ^ (0 if n % 3 else 1)]) + b
        else:
            b = flip(b, n)
    elif how == 'empty':
        b = b''
    elif how == 'explicit':
        if f == 'value':
            b = bg.explicit_value([t['amt'], 0, t['amt'] + 1][n % 3])
        elif f == 'asset':
            b = b'\x01' + [t['id'], bytes(32), flip(t['id'], n)][n % 3]
        else:
            b = b'\x01' + b[1:]
    elif how == 'trunc':
        b = b[:n % len(b)] if b else b
    elif how == 'extend':
        b = b + seed[:1 + n % 4]
    elif how == 'random':
        b = {'value': bytes([8 + n % 2]) + seed, 'asset': bytes([10 + n % 2]) + seed, 'nonce': bytes([2 + n % 2]) + seed,
             'rp': (seed * 40)[:n % 1300], 'spk': seed[:n % 33]}[f]
    elif how == 'point':
        p = curve.pub(seed)
        b = {'value': bytes([8 + n % 2]) + p[1:], 'asset': bytes([10 + n % 2]) + p[1:], 'nonce': p}[f]
    elif how == 'head':
        b = bytes([b[0] ^ (1 << n % 8)]) + b[1:]
    t[f] = b
    return t


KINDS = ([['sec', h] for h in ('next', 'neg', 'double', 'other')]
         + [['spk', h] for h in ('swap', 'flip', 'empty', 'trunc', 'extend', 'random')]
         + [['rp', h] for h in ('swap', 'flip', 'flip', 'flip', 'empty', 'trunc', 'extend', 'random', 'head')]
         + [[f, h] for f in ('value', 'asset', 'nonce')
            for h in ('swap', 'flip', 'flip', 'empty', 'explicit', 'explicit', 'random', 'point')])


def check_tamper(case):
    lb = []
    with params(case['params']):
        b = blinded(case)
        if b is None:
            return False, ['nothing blinded']
        r, tx, res = b
        plain = rd_tx(tx)
        recs = []
        for n, o in enumerate(plain['vout']):
            if r.secs[n] is not None:
                recs.append(dict(value=o['value'], asset=o['asset'], nonce=o['nonce'], spk=o['spk'], rp=o['wit']['rp'],
                                 sec=r.secs[n], amt=r.outs[n]['amt'], id=r.outs[n]['asset']))
        for kind, n, which, seed in case['tampers']:
            t = recs[which % len(recs)]
            others = [x for x in recs if x is not t]
            t2 = tamper(t, kind, n, others, seed)
            if t2 is None:
                continue
            core = ('value', 'asset', 'nonce', 'spk', 'rp', 'sec')
            if all(t[k] == t2[k] for k in core):
                continue
            bad(unblind(t2, t2['spk'], CKey(t2['sec'], bool(n & 1)), t2['rp'] if n & 2 else bytearray(t2['rp'])),
                '%s %s' % tuple(kind))
            lb.append('%s %s' % tuple(kind))
        # the original still can be unblinded
        t = recs[0]
        check(unblind(t, t['spk'], CKey(t['sec']), t['rp']).ok, 'the output itself cannot be unblinded any more')
    return bool(lb), lb


def strat_tamper():
    ts = st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 9999), st.integers(0, 3), addrgen.secret()).map(list),
                  min_size=4, max_size=12)
    return st.builds(lambda c, t: dict(c, tampers=t),
                     bg.request(max_in=2, max_out=3, min_out=1, unbal=False, bits=st.sampled_from([3, 4, 6, 8]),
                                exp=st.sampled_from([0, 0, 1, None]), foreign=False), ts)


# ---- fields and proofs of no origin --------------------------------------------

def check_random(case):
    o = case['o']
    with params(case['params']):
        res = unblind(o, o['spk'], CKey(case['sec']), case['rp'])
        bad(res, 'arbitrary fields')
    return bool(case['rp']), ['with range proof' if case['rp'] else 'no range proof', 'null nonce' if not o['nonce'] else 'nonce']


def strat_random():
    point = st.integers(1, 50).map(lambda n: curve.pub(n.to_bytes(32, 'big')))
    head = st.builds(lambda m, n: bytes([0x60, m]) + n.to_bytes(8, 'big'), st.integers(0, 63), st.integers(0, 3))
    return st.fixed_dictionaries(dict(
        params=st.sampled_from(PARAMS), sec=addrgen.secret(),
        o=st.fixed_dictionaries(dict(
            value=gen.weighted((1, gen.value_field()), (2, st.builds(lambda p: b'\x08' + p[1:], point))),
            asset=gen.weighted((1, gen.asset_field()), (2, st.builds(lambda p: b'\x0a' + p[1:], point))),
            nonce=gen.weighted((2, gen.nonce_field()), (2, point)), spk=gen.sized_bytes())),
        rp=gen.weighted((1, st.just(b'')), (2, st.binary(max_size=200)),
                        (3, st.builds(lambda h, b, n: (h + b * n), head, st.binary(min_size=1, max_size=64),
                                      st.integers(1, 60))))))


# ---- outputs made by a dishonest sender ------------------------------------------

def check_forged(case):
    c = case
    asset, abf, amt = c['asset'], c['abf'], c['amt']
    explicit = c['explicit']
    if explicit:
        abf = bg.Z32
    g = zkp.gen64(asset, abf)
    com = zkp.commit33(amt, c['bf'], g)
    own = c['nonnonce']
    nonce = c['sec'] if own else zkp.nonce_of(c['esec'], curve.pub(c['sec']))
    extra = b'' if own else c['spk']
    ma, mb = asset, abf
    lie = c['lie']
    honest = True
    if lie == 'asset':
        ma, honest = c['other'], c['other'] == asset
    elif lie == 'factor':
        mb, honest = c['obf'], c['obf'] == abf
    elif lie == 'both':
        ma, mb, honest = c['other'], c['obf'], (c['other'], c['obf']) == (asset, abf)
    elif lie == 'swapped':
        ma, mb, honest = abf, asset, abf == asset
    elif lie == 'overflow':
        mb, honest = b'\xff' * 32, False
    msg = ma + mb
    if lie == 'short':
        # the rest is padded with zeros, so an unblinded asset is told truthfully all the same
        msg, honest = ma, abf == bg.Z32
    elif lie == 'long':
        msg = msg + b'x'
        # the message is cut to what was asked for
    elif lie == 'negated factor':
        mb = (N - int.from_bytes(abf, 'big')) % N
        mb = mb.to_bytes(32, 'big')
        msg, honest = ma + mb, mb == abf
    if lie == 'script':
        extra = extra + b'\x00'
        honest = own
        if own:
            extra = b''
    proof = zkp.rp_sign(amt, c['min'] % (amt + 1), com, c['bf'], nonce, c['exp'], c['bits'], msg, extra, g)
    if proof is None:
        return False, ['no proof']
    o = dict(value=com, asset=b'\x01' + asset if explicit else zkp.gen33(asset, abf),
             nonce=b'' if own else curve.pub(c['esec']))
    lb = [lie, 'asset explicit' if explicit else 'asset committed', 'key as nonce' if own else 'ecdh']
    with params(c['params']):
        res = unblind(o, c['spk'], CKey(c['sec']), proof)
        if honest and 0 <= amt <= gen.MAX_MONEY:
            good(res, asset, amt, c['bf'], abf, 'made by the oracle')
            lb.append('honest')
        elif lie != 'long':
            bad(res, 'dishonest sender (%s)' % lie)
    return True, lb


LIES = ['none', 'none', 'asset', 'factor', 'both', 'swapped', 'overflow', 'short', 'long', 'negated factor', 'script', 'amount']


def strat_forged():
    def big(c, n):
        return dict(c, amt=n) if c['lie'] == 'amount' else c
    return st.builds(big, st.fixed_dictionaries(dict(
        asset=gen.b32(False), other=gen.b32(False), abf=bg.factor(), obf=bg.factor(), bf=bg.factor(),
        amt=bg.amount(), sec=addrgen.secret(), esec=addrgen.secret(), spk=bg.script().filter(lambda b: len(b) < 999),
        explicit=gen.weighted((3, st.just(False)), (1, st.just(True))), lie=st.sampled_from(LIES),
        nonnonce=gen.weighted((3, st.just(False)), (1, st.just(True))), min=st.integers(0, 30), exp=st.sampled_from([0, 0, 1, 2]),
        bits=st.sampled_from([3, 5, 8, 16]), params=st.sampled_from(PARAMS))),
        st.one_of(st.sampled_from([gen.MAX_MONEY, gen.MAX_MONEY + 1, 2 ** 52, 2 ** 62, 2 ** 63 - 1]), st.integers(1, 2 ** 63 - 1)))


# ---- result objects --------------------------------------------------------------

def check_results(case):
    msg = case['msg']
    for c in (ec.BlindingFailure, ec.UnblindingFailure):
        f = c(msg)
        check_eq(f.ok, False, 'ok of a failure')
        check_eq(f.error, msg, 'error of a failure')
        not_boolean(f)
    fs = [Uint256(x) for x in case['fs']]
    s = ec.BlindingSuccess(num_successfully_blinded=case['n'], blinding_factors=fs, asset_blinding_factors=list(reversed(fs)))
    check_eq(s.ok, True, 'ok of a success')
    check_eq(s.error, '', 'error of a success')
    check_eq((s.num_successfully_blinded, list(s.blinding_factors), list(s.asset_blinding_factors)),
             (case['n'], fs, fs[::-1]), 'fields of a success')
    check_eq(tuple(s), (case['n'], fs, fs[::-1]), 'unpacked success')
    not_boolean(s)
    u = ec.UnblindingSuccess(asset=ec.CAsset(case['asset']), amount=case['amt'], blinding_factor=Uint256(case['bf']),
                             asset_blinding_factor=Uint256(case['abf']))
    good(u, case['asset'], case['amt'], case['bf'], case['abf'], 'success made directly')
    return True, []


def strat_results():
    return st.fixed_dictionaries(dict(
        msg=st.text(min_size=1, max_size=20).filter(lambda s: s.isprintable()), n=st.integers(0, 9), fs=st.lists(gen.b32(), max_size=4), asset=gen.b32(),
        amt=gen.amounts(), bf=gen.b32(), abf=gen.b32()))


PROP = Prop('C19', [
    Sub('unblind', check_unblind, strat_unblind, quick=400, thorough=16000,
        doc='blind, unblind with the receiver\'s key, spend the result as input of another blinding'),
    Sub('tamper', check_tamper, strat_tamper, quick=500, thorough=25000,
        doc='blind, change one of key, script, nonce, commitments, range proof; unblinding must fail'),
    Sub('random', check_random, strat_random, quick=1500, thorough=80000, doc='fields of no origin'),
    Sub('forged', check_forged, strat_forged, quick=700, thorough=40000,
        doc='outputs whose range proof was made with known parameters by the verification library: honest ones open, '
            'those telling another asset, factor, script or an impossible amount do not'),
    Sub('results', check_results, strat_results, quick=300, thorough=3000, doc='result objects'),
], rule='something was blinded (unblind), at least one effective change (tamper), non-empty proof (random)',
   assumptions=['stand-in library'])
_ = copy
