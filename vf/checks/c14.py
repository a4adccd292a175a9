from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen
from ..ref import codec, sha

ZERO = b'\x00' * 32


def k32(n):
    return bytes([n]) + bytes(31)


def ref_entropy(txid, n, contract):
    return sha.midstate(codec.dsha(codec.ser_outpoint(txid, n)) + contract)


def ref_ids(entropy):
    return [sha.midstate(entropy + k32(i)) for i in (0, 1, 2)]


FORMS = {'bytes': bytes, 'bytearray': bytearray, 'Uint256': Uint256,
         'CAsset': lambda b: ec.CAsset(b)}


def ids_of(entropy):
    return [ec.calculate_asset(entropy), ec.calculate_reissuance_token(entropy, False),
            ec.calculate_reissuance_token(entropy, True)]


def check_ids(case):
    txid, n, ch = case['txid'], case['n'], case['contract']
    want = ref_entropy(txid, n, ch)
    seen = []
    with params(case['params']):
        for mutable in (False, True):
            op = cls('OutPoint', mutable)(txid, n)
            for form in sorted(FORMS):
                e = ec.generate_asset_entropy(op, FORMS[form](ch))
                check(isinstance(e, Uint256), 'entropy has type %s', type(e).__name__)
                check_eq(e.data, want, 'entropy (%s, mutable=%s)' % (form, mutable))
        # in place edits must be seen
        m = cls('OutPoint', True)(case['txid2'], case['n2'])
        ec.generate_asset_entropy(m, ch)
        m.hash, m.n = txid, n
        check_eq(ec.generate_asset_entropy(m, ch).data, want, 'entropy of an edited outpoint')
        check_eq(ec.generate_asset_entropy(op.to_immutable(), ch).data, want, 'entropy of converted outpoint')
        check_eq(ec.generate_asset_entropy(cls('TxIn', False)(op).prevout, ch).data, want,
                 'entropy of the outpoint of an input')
        refs = ref_ids(want)
        for form in sorted(FORMS):
            got = ids_of(FORMS[form](want))
            for g, w, name in zip(got, refs, ('asset', 'token', 'confidential token')):
                check(isinstance(g, ec.CAsset), '%s id has type %s', name, type(g).__name__)
                check_eq(g.data, w, '%s id (%s)' % (name, form))
            seen.append([g.data for g in got])
        buf = bytearray(want)
        got = ids_of(buf)
        buf[0] ^= 1
        check_eq([g.data for g in got], refs, 'ids after the buffer was changed')
        # any entropy at all
        free = case['entropy']
        check_eq([g.data for g in ids_of(free)], ref_ids(free), 'ids for a given entropy')
        # other arguments, other ids
        other = (case['txid2'], case['n2'], case['contract2'])
        variants = {(txid, n, ch)}
        variants |= {(other[0], n, ch), (txid, other[1], ch), (txid, n, other[2]), other,
                     (txid, n ^ 1, ch), (txid[::-1], n, ch), (txid, n, ch[::-1]), (ch, n, txid)}
        allids = []
        for t, k, c in variants:
            e = ec.generate_asset_entropy(cls('OutPoint', False)(t, k), c)
            allids.append(e.data)
            allids += [i.data for i in ids_of(e)]
        check(len(set(allids)) == 4 * len(variants), 'ids of different issuances coincide')
        check_eq(got[0].to_hex(), refs[0][::-1].hex(), 'hex form of an asset id')
    return True, [case['params'], 'n=%s' % (n if n < 2 else 'large')]


def strat_ids():
    idx = st.one_of(gen.out_index(), st.sampled_from([0x40000000, 0x80000000, 0xc0000000, 0xfffffffe]))
    return st.fixed_dictionaries(dict(
        txid=gen.b32(), n=idx, contract=gen.b32(), txid2=gen.b32(), n2=idx, contract2=gen.b32(), entropy=gen.b32(),
        params=st.sampled_from(['elements', 'elements/liquidv1', 'bitcoin'])))


def check_reject(case):
    op = cls('OutPoint', case['mutable'])(case['txid'], 1)
    e = case['entropy']
    lb = []

    def refused(f, what):
        try:
            r = f()
        except Exception:
            return
        fail('%s not refused: %r', what, r)
    x = e if len(e) != 32 else e[:-1]
    for form in (bytes, bytearray):
        refused(lambda: ec.generate_asset_entropy(op, form(x)), 'contract hash of %d bytes' % len(x))
        refused(lambda: ec.calculate_asset(form(x)), 'entropy of %d bytes' % len(x))
        refused(lambda: ec.calculate_reissuance_token(form(x), False), 'entropy of %d bytes' % len(x))
        refused(lambda: ec.calculate_reissuance_token(form(x), True), 'entropy of %d bytes' % len(x))
    good = (e + ZERO)[:32]
    for bad in (good.hex(), None, 7, list(good), memoryview(good), op):
        t = type(bad).__name__
        refused(lambda: ec.generate_asset_entropy(op, bad), 'contract hash of type ' + t)
        refused(lambda: ec.calculate_asset(bad), 'entropy of type ' + t)
        refused(lambda: ec.calculate_reissuance_token(bad, True), 'entropy of type ' + t)
    for bad in (good, good.hex(), None, cls('TxIn', False)(op.to_immutable()), (good, 1)):
        refused(lambda: ec.generate_asset_entropy(bad, good), 'outpoint of type ' + type(bad).__name__)
    for bad in (0, 1, None, 'yes', b'\x01'):
        refused(lambda: ec.calculate_reissuance_token(good, bad), 'is_confidential of type ' + type(bad).__name__)
    return True, lb


def strat_reject():
    return st.fixed_dictionaries(dict(txid=gen.b32(), mutable=st.booleans(), entropy=st.binary(max_size=70)))


def check_count(case):
    model = case['tx']
    want = sum(bool(i['iss']['amt']) + bool(i['iss']['keys']) for i in model['vin'] if i['iss'])
    with params(case['params']):
        for mutable in (False, True):
            t = mk_tx(model, mutable)
            check_eq(t.num_issuances, want, 'num_issuances (mutable=%s)' % mutable)
            check_eq(t.to_mutable().num_issuances, want, 'num_issuances of mutable copy')
        if model['vin']:
            k = case['k'] % len(model['vin'])
            i = model['vin'][k]
            t.vin[k].assetIssuance = mk_issuance(case['iss'])
            w2 = want - (bool(i['iss']['amt']) + bool(i['iss']['keys']) if i['iss'] else 0) + (
                bool(case['iss']['amt']) + bool(case['iss']['keys']) if case['iss'] else 0)
            check_eq(t.num_issuances, w2, 'num_issuances after an edit')
            t.vin.append(t.vin[k])
            w3 = w2 + (bool(case['iss']['amt']) + bool(case['iss']['keys']) if case['iss'] else 0)
            check_eq(t.num_issuances, w3, 'num_issuances after adding an input')
        if all(x['n'] != 0xffffffff for x in model['vin']):
            # (the encoding of a transaction drops what coinbase inputs cannot carry)
            check_eq(ec.CElementsTransaction.deserialize(mk_tx(model, False).serialize()).num_issuances, want,
                     'num_issuances after a round trip')
    return want > 0, ['%d issuances' % want if want < 4 else '4 or more']


def strat_count():
    return st.fixed_dictionaries(dict(
        tx=st.fixed_dictionaries(dict(
            v=st.just(2), lt=st.just(0), vin=st.lists(gen.txin(coinbase=False, nulliss=True), max_size=5),
            vout=st.lists(gen.txout(), max_size=1))),
        k=st.integers(0, 9), iss=st.one_of(st.none(), gen.issuance(True)),
        params=st.sampled_from(['elements', 'bitcoin'])))


PROP = Prop('C14', [
    Sub('ids', check_ids, strat_ids, quick=1200, thorough=40000, doc='all ids against a midstate in plain Python'),
    Sub('reject', check_reject, strat_reject, quick=400, thorough=4000, doc='wrong types and lengths'),
    Sub('count', check_count, strat_count, quick=1600, thorough=40000, doc='number of issuances'),
], rule='outpoint, contract hash and variants of them; non-trivial: all but transactions without issuances',
   assumptions=['SHA-256 collisions are not expected'], zkp=False)
_ = check
