from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import blindgen as bg, gen, zkp
from ..ref import curve
import bitcointx.core as bc
from bitcointx.core.key import CKey, CPubKey
from .c17 import is_result

# Every change makes the request impossible. It gets the request, the mutable
# transaction, the keyword arguments, a number and some bytes; returns False
# when it does not apply.

CHANGES = {}


def change(f):
    CHANGES[f.__name__] = f
    return f


def setlist(kw, name, size, pos, value, default):
    x = list(kw.get(name, ()))
    while len(x) < size:
        x.append(default)
    x[pos] = value
    kw[name] = x


def pubkey_at(tx, kw, k, pub):
    setlist(kw, 'output_pubkeys', k + 1, k, pub, CPubKey(b''))


def some_key(b):
    return CKey((int.from_bytes(b, 'big') % (bg.N - 1) + 1).to_bytes(32, 'big'))


def good_out(r, tx, n):
    """Position of an output that could be blinded, made one if need be"""
    k = n % len(tx.vout)
    if r.outs[k].get('foreign') or not r.outs[k]['amt'] or r.outs[k]['amt'] > gen.MAX_MONEY:
        return None
    if not r.outs[k]['spk']:
        tx.vout[k].scriptPubKey = es.CElementsScript(b'\x51')
    return k


@change
def too_many_pubkeys(r, tx, kw, n, b):
    setlist(kw, 'output_pubkeys', len(tx.vout) + 1 + n % 2, -1, some_key(b).pub if n & 4 else CPubKey(b''), CPubKey(b''))


@change
def too_many_asset_keys(r, tx, kw, n, b):
    setlist(kw, 'blind_issuance_asset_keys', len(tx.vin) + 1 + n % 2, -1, some_key(b) if n & 4 else None, None)


@change
def too_many_token_keys(r, tx, kw, n, b):
    setlist(kw, 'blind_issuance_token_keys', len(tx.vin) + 1 + n % 2, -1, some_key(b) if n & 4 else None, None)


@change
def too_few_descriptors(r, tx, kw, n, b):
    d = list(kw['input_descriptors'])
    del d[n % len(d)]
    kw['input_descriptors'] = d


@change
def no_descriptors(r, tx, kw, n, b):
    del kw['input_descriptors']


@change
def too_many_descriptors(r, tx, kw, n, b):
    d = list(kw['input_descriptors'])
    kw['input_descriptors'] = d + d[:1]


@change
def pubkey_type(r, tx, kw, n, b):
    if not tx.vout:
        return False
    k = some_key(b)
    pubkey_at(tx, kw, n % len(tx.vout), [bytes(k.pub), None, k, bytes(k.pub).hex(), 0, b''][n % 6])


@change
def asset_key_type(r, tx, kw, n, b):
    k = some_key(b)
    setlist(kw, 'blind_issuance_asset_keys', n % len(tx.vin) + 1, n % len(tx.vin),
            [bytes(b), k.pub, 0, b'', '', 1, False][n % 7], None)


@change
def token_key_type(r, tx, kw, n, b):
    k = some_key(b)
    setlist(kw, 'blind_issuance_token_keys', n % len(tx.vin) + 1, n % len(tx.vin),
            [bytes(b), k.pub, 0, b'', '', 1, False][n % 7], None)


@change
def descriptor_type(r, tx, kw, n, b):
    d = list(kw['input_descriptors'])
    k = n % len(d)
    f, v = [('asset', b), ('asset', Uint256(b)), ('asset', b.hex()), ('asset', None), ('amount', '1'), ('amount', 1.0),
            ('amount', None), ('blinding_factor', b), ('blinding_factor', None), ('blinding_factor', 0),
            ('asset_blinding_factor', b), ('asset_blinding_factor', None)][n % 12]
    d[k] = d[k]._replace(**{f: v})
    kw['input_descriptors'] = d


@change
def descriptor_type_with_issuance(r, tx, kw, n, b):
    """... when there is also an issuance to blind first"""
    k = (n >> 4) % len(tx.vin)
    tx.vin[k].assetIssuance = new_issuance(amt=5, keys=6 if n & 8 else None)
    keys_at(tx, kw, k, b, True, n & 8 != 0)
    if len(tx.wit.vtxinwit) > k:
        tx.wit.vtxinwit[k] = ec.CElementsMutableTxInWitness()
    return descriptor_type(r, tx, kw, n, b)


@change
def descriptor_missing(r, tx, kw, n, b):
    d = list(kw['input_descriptors'])
    d[n % len(d)] = None
    kw['input_descriptors'] = d


@change
def ct_type(r, tx, kw, n, b):
    kw[['custom_ct_bits', 'custom_ct_exponent'][n & 1]] = ['8', 8.0, b'8', [8], ''][n % 5]


@change
def ct_range(r, tx, kw, n, b):
    if n & 1:
        kw['custom_ct_bits'] = [-1, 65, 100, -2 ** 31, 2 ** 31, 2 ** 32 + 8][n % 6]
    else:
        kw['custom_ct_exponent'] = [-2, 19, 100, -2 ** 31, 2 ** 31, 2 ** 32][n % 6]


@change
def immutable_tx(r, tx, kw, n, b):
    return tx.to_immutable()


@change
def immutable_tx_nothing_to_blind(r, tx, kw, n, b):
    for k in ('blind_issuance_asset_keys', 'blind_issuance_token_keys', 'output_pubkeys'):
        kw.pop(k, None)
    kw['via'] = True
    return tx.to_immutable()


@change
def foreign_tx(r, tx, kw, n, b):
    kw['via'] = True
    return [bc.CBitcoinMutableTransaction(), tx.serialize(), list(tx.vout), 'tx'][n % 4]


def aux_for(r):
    return [zkp.gen33(a, abf) for a, _, _, abf in r.known]


@change
def too_few_generators(r, tx, kw, n, b):
    if len(tx.vin) < 2:
        return False
    kw['auxiliary_generators'] = aux_for(r)[:1 + n % (len(tx.vin) - 1)]


@change
def generator_length(r, tx, kw, n, b):
    a = aux_for(r)
    k = n % len(a)
    a[k] = [a[k][:-1], a[k] + b'\x00', b'', a[k][1:], a[k] * 2][n % 5]
    kw['auxiliary_generators'] = a


@change
def generator_type(r, tx, kw, n, b):
    a = aux_for(r)
    k = n % len(a)
    a[k] = [None, 'x' * 33, [0] * 33, Uint256(b), 33][n % 5]
    kw['auxiliary_generators'] = a


def no_point(b):
    while curve.lift(int.from_bytes(b, 'big')) is not None:
        b = b[:31] + bytes([(b[31] + 1) & 255])
    return b


@change
def generator_invalid(r, tx, kw, n, b):
    a = aux_for(r)
    d = list(kw['input_descriptors'])
    k = n % len(d)
    d[k] = d[k]._replace(asset=ec.CAsset())
    p = a[k]
    a[k] = [b'\x0a' + no_point(b), b'\x02' + p[1:], b'\x08' + p[1:], b'\x01' + p[1:], b'\x00' * 33, b'\xff' * 33,
            b'\x0c' + p[1:]][n % 7]
    kw['auxiliary_generators'] = a
    kw['input_descriptors'] = d


@change
def extra_generator_invalid(r, tx, kw, n, b):
    a = aux_for(r)
    p = a[0]
    a += [p] * (n % 3) + [[b'\x0a' + no_point(b), b'\x02' + p[1:], b'\x08' + p[1:], b'\x00' * 33][n % 4]]
    kw['auxiliary_generators'] = a


@change
def unknown_asset(r, tx, kw, n, b):
    d = list(kw['input_descriptors'])
    d[n % len(d)] = d[n % len(d)]._replace(asset=ec.CAsset())
    kw['input_descriptors'] = d


@change
def negative_amount(r, tx, kw, n, b):
    d = list(kw['input_descriptors'])
    k = n % len(d)
    d[k] = d[k]._replace(amount=[-1, -2 ** 63, -2 ** 64 + d[k].amount][n % 3],
                         **{['blinding_factor', 'asset_blinding_factor'][n & 1]: Uint256(b)})
    kw['input_descriptors'] = d


@change
def invalid_pubkey(r, tx, kw, n, b):
    if not tx.vout:
        return False
    k = good_out(r, tx, n)
    if k is None:
        return False
    p = bytes(some_key(b).pub)
    pubkey_at(tx, kw, k, CPubKey([b'\x02' + no_point(b), b'\x05' + p[1:], p[:-1], p + b'\x00', b'\x02', b'\x00' * 33, b'\x00',
                                  b'\x04' + p[1:] + bytes(32), b'\x02' + b'\xff' * 32][n % 9]))


@change
def confidential_output(r, tx, kw, n, b):
    k = good_out(r, tx, n) if tx.vout else None
    if k is None:
        return False
    o = tx.vout[k]
    f = some_key(b).secret_bytes
    a = r.outs[k]['asset']
    if n & 3 != 1:
        o.nValue = ec.CConfidentialValue(zkp.commit33(r.outs[k]['amt'], f, zkp.gen64(a)))
    if n & 3 != 2:
        o.nAsset = ec.CConfidentialAsset(zkp.gen33(a, f))
    pubkey_at(tx, kw, k, some_key(b).pub)


@change
def null_output_field(r, tx, kw, n, b):
    k = good_out(r, tx, n) if tx.vout else None
    if k is None:
        return False
    if n & 1:
        tx.vout[k].nValue = ec.CConfidentialValue()
    else:
        tx.vout[k].nAsset = ec.CConfidentialAsset()
    pubkey_at(tx, kw, k, some_key(b).pub)


@change
def output_amount(r, tx, kw, n, b):
    k = good_out(r, tx, n) if tx.vout else None
    if k is None:
        return False
    v = [0, -1, -2 ** 63, 2 ** 63 - 1, gen.MAX_MONEY + 1][n % 5]
    if not v:
        tx.vout[k].scriptPubKey = es.CElementsScript(b'\x51')
    tx.vout[k].nValue = ec.CConfidentialValue(v)
    pubkey_at(tx, kw, k, some_key(b).pub)


@change
def fee_output(r, tx, kw, n, b):
    k = good_out(r, tx, n) if tx.vout else None
    if k is None:
        return False
    tx.vout[k].scriptPubKey = es.CElementsScript()
    pubkey_at(tx, kw, k, some_key(b).pub)


def fill_witness(tx):
    while len(tx.wit.vtxinwit) < len(tx.vin):
        tx.wit.vtxinwit.append(ec.CElementsMutableTxInWitness())
    while len(tx.wit.vtxoutwit) < len(tx.vout):
        tx.wit.vtxoutwit.append(cls('TxOutWitness', True)())


@change
def output_has_proof(r, tx, kw, n, b):
    k = good_out(r, tx, n) if tx.vout else None
    if k is None:
        return False
    fill_witness(tx)
    if n & 3 != 1:
        tx.wit.vtxoutwit[k].rangeproof = b[:1 + n % 7]
    if n & 3 != 2:
        tx.wit.vtxoutwit[k].surjectionproof = b[:1 + n % 5]
    pubkey_at(tx, kw, k, some_key(b).pub)


def new_issuance(bn=bg.Z32, amt=5, keys=None, ent=b'\x07' * 32):
    def field(v):
        return ec.CConfidentialValue(v) if isinstance(v, (bytes, int)) else ec.CConfidentialValue()
    return ec.CAssetIssuance(Uint256(bn), Uint256(ent), field(amt), field(keys))


def keys_at(tx, kw, k, b, asset=True, token=False, other=True):
    """Keys for the issuance of input k; with other off, the list of keys not asked for may end before it."""
    for name, on in (('blind_issuance_asset_keys', asset), ('blind_issuance_token_keys', token)):
        if on or other:
            setlist(kw, name, k + 1, k, some_key(b) if on else None, None)
        elif len(kw.get(name, ())) > k:
            kw[name] = list(kw[name])[:k + b[0] % 2]
            if len(kw[name]) > k:
                kw[name][k] = None


@change
def committed_issuance(r, tx, kw, n, b):
    k = n % len(tx.vin)
    c = zkp.commit33(7, some_key(b).secret_bytes, zkp.gen64(b))
    tx.vin[k].assetIssuance = new_issuance(amt=c if n & 1 else [5, None][n >> 2 & 1], keys=None if n & 1 else c)
    if n & 2:
        keys_at(tx, kw, k, b, n & 1 == 1, n & 1 == 0)


@change
def issuance_has_proof(r, tx, kw, n, b):
    k = n % len(tx.vin)
    tx.vin[k].assetIssuance = new_issuance(amt=5, keys=6)
    fill_witness(tx)
    if n & 1:
        tx.wit.vtxinwit[k].issuanceAmountRangeproof = b[:1 + n % 7]
    else:
        tx.wit.vtxinwit[k].inflationKeysRangeproof = b[:1 + n % 7]
    keys_at(tx, kw, k, b, n & 1 == 1 or n & 2 != 0, n & 1 == 0 or n & 2 != 0, n & 4 != 0)


@change
def key_without_amount(r, tx, kw, n, b):
    k = n % len(tx.vin)
    if n & 1:
        tx.vin[k].assetIssuance = new_issuance(amt=None, keys=6)
        keys_at(tx, kw, k, b, True, n & 2 != 0, n & 4 != 0)
    else:
        tx.vin[k].assetIssuance = new_issuance(amt=6, keys=None)
        keys_at(tx, kw, k, b, n & 2 != 0, True, n & 4 != 0)


@change
def issuance_amount(r, tx, kw, n, b):
    k = n % len(tx.vin)
    v = [-1, -2 ** 63, 2 ** 63 - 1, gen.MAX_MONEY + 1][n % 4]
    tx.vin[k].assetIssuance = new_issuance(amt=5 if n & 4 else v, keys=v if n & 4 else 5)
    keys_at(tx, kw, k, b, True, True)


@change
def key_without_issuance(r, tx, kw, n, b):
    k = n % len(tx.vin)
    tx.vin[k].assetIssuance = ec.CAssetIssuance()
    keys_at(tx, kw, k, b, n & 1 == 1 or n & 2 != 0, n & 1 == 0 or n & 2 != 0, n & 4 != 0)


@change
def token_key_of_reissuance(r, tx, kw, n, b):
    k = n % len(tx.vin)
    tx.vin[k].assetIssuance = new_issuance(bn=b, amt=5)
    keys_at(tx, kw, k, b, n & 1 == 1, True)


@change
def reissuance_of_tokens(r, tx, kw, n, b):
    k = n % len(tx.vin)
    tx.vin[k].assetIssuance = new_issuance(bn=b, amt=[5, None][n & 1], keys=5)
    if n & 2:
        keys_at(tx, kw, k, b, n & 1 == 0, n & 4 != 0)


def check_refused(case):
    lb = []
    r = bg.Req(case)
    with params(case['params']):
        for name, n, b in case['changes']:
            tx = r.make_tx()
            kw = r.kwargs()
            kw = {k: list(v) if isinstance(v, tuple) else v for k, v in kw.items()}
            if not case['strict']:
                kw['is_blind_success_strict'] = False
            try:
                x = CHANGES[name](r, tx, kw, n, b)
            except (IndexError, KeyError) as e:
                fail('change %s: %r', name, e)
            if x is False:
                continue
            via = kw.pop('via', case['via'])
            kw['_rand_func'] = bg.Stream(case['seed'])
            before = tx.serialize()
            subject = tx if x is None else x
            imm = tx.to_immutable()
            try:
                res = ec.blind_transaction(subject, **kw) if via else subject.blind(**kw)
            except Exception as e:
                check(not isinstance(e, (MemoryError, RecursionError)), '%r', e)
                lb.append(name + ': ' + type(e).__name__)
            else:
                try:
                    is_result(res, False)
                except Exception as e:
                    fail('%s: %s', name, e)
                lb.append(name + ': failure')
            check_eq(tx.serialize(), before, 'transaction after the refusal (%s)' % name)
            check_eq(imm.serialize(), before, 'immutable form after the refusal (%s)' % name)
    return bool(lb), lb


def strat_refused():
    ch = st.tuples(st.sampled_from(sorted(CHANGES)), st.integers(0, 10 ** 6), bg.factor()).map(list)
    return st.builds(lambda c, x, s: dict(c, changes=x, strict=s),
                     bg.request(bits=st.just(8), exp=st.just(0), unbal=False, max_in=3, max_out=3),
                     st.lists(ch, min_size=5, max_size=12), st.booleans())


# ---- strict or not -----------------------------------------------------------

def verified(r, after):
    """How many outputs and issuances are committed with proofs that verify"""
    n = 0
    gens = r.target_gens()
    for k, o in enumerate(after['vout']):
        if r.secs[k] is None:
            continue
        g = zkp.parse_gen(o['asset'])
        if g is None or not o['wit']['sp'] or zkp.rp_verify(o['value'], o['wit']['rp'], o['spk'], g) is None:
            continue
        n += bool(zkp.surjection(o['wit']['sp'], gens, g))
    for k, i in enumerate(after['vin']):
        if i['iss'] is None:
            continue
        ids = bg.asset_ids(r.vin[k])
        for key, f, w, a in ((r.akeys[k], 'amt', 'ar', ids[0]), (r.tkeys[k], 'keys', 'kr', ids[r.tok[k]])):
            if key is not None:
                n += zkp.rp_verify(i['iss'][f], i['wit'][w], b'', zkp.gen64(a)) is not None
    return n


def check_strict(case):
    r = bg.Req(case)
    strange = 0
    for k, o in enumerate(r.outs):
        if k in case['strange'] and not o.get('foreign'):
            # an asset that is not among the inputs
            o['asset'] = b'\x66' * 32
            r.vout[k]['asset'] = b'\x01' + o['asset']
            strange += r.secs[k] is not None
    if not r.provable():
        return False, ['no room in the range proof']
    lb = []
    with params(case['params']):
        for strict in (True, False):
            tx = r.make_tx()
            before = tx.serialize()
            res = r.blind(tx, bg.Stream(case['seed']), **({} if strict and case['tuples'] else {'is_blind_success_strict': strict}))
            after = rd_tx(tx)
            n = verified(r, after)
            possible = r.can() and not strange
            if strict:
                is_result(res, possible)
                if possible:
                    check_eq(n, r.todo, 'outputs and issuances verifying after a success in strict mode')
                    check_eq(res.num_successfully_blinded, r.todo, 'number reported in strict mode')
                elif r.n_iss == 0 and not strange:
                    check_eq(tx.serialize(), before, 'transaction after refusal in strict mode')
            else:
                is_result(res, True)
                check_eq(res.num_successfully_blinded, n, 'number reported with strict mode off (%d asked for)' % r.todo)
                if possible:
                    check_eq(n, r.todo, 'blinded with strict mode off')
                elif r.can():
                    check_eq(n, r.todo - strange, 'blinded with strict mode off')
                elif not r.n_out:
                    check_eq(n, max(0, r.n_iss - 1), 'blinded with strict mode off, issuances only')
                else:
                    check_eq(n, 0, 'blinded with strict mode off')
                check_eq(len(res.blinding_factors), len(r.vout), 'number of factors')
        lb.append('possible' if possible else 'strange asset' if strange else 'issuances only' if not r.n_out else 'single output')
    return r.todo > 0, lb


def strat_strict():
    def few(c, s, k):
        c = dict(c, strange=s)
        if k == 1:
            c['outs'] = [dict(o, blind=False) for o in c['outs']]
        elif k == 2:
            c['outs'] = [dict(o, blind=n == 0) for n, o in enumerate(c['outs'])]
            c['ins'] = [dict(i, bf=bg.Z32, abf=bg.Z32, iss=i['iss'] and dict(i['iss'], key=False)) for i in c['ins']]
        return c
    return st.builds(few, bg.request(max_in=2, max_out=3, iss_weight=3, bits=st.sampled_from([3, 8, 13]), exp=st.sampled_from([0, None]),
                                     foreign=False),
                     gen.weighted((2, st.just([])), (2, st.lists(st.integers(0, 3), max_size=2))),
                     st.sampled_from([0, 0, 1, 2]))


PROP = Prop('C20', [
    Sub('refused', check_refused, strat_refused, quick=900, thorough=60000,
        doc='a valid request made impossible in one of %d ways: error or failure, transaction unchanged' % len(CHANGES)),
    Sub('strict', check_strict, strat_strict, quick=500, thorough=20000,
        doc='requests that can be done only partly, in strict mode and not'),
], rule='at least one change applied (refused), something to blind (strict)', assumptions=['stand-in library'])
