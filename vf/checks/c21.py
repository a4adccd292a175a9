from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq
from .. import addrgen, blindgen as bg, gen, zkp
from bitcointx.core.key import CKey
from .c17 import is_result, check_effect, scalars_balance
from .c19 import unblind, good, bad
from .c20 import CHANGES, check_refused, strat_refused

PARTS = (('akeys', 'amt', 'ar', 0), ('tkeys', 'keys', 'kr', 2))


def check_issuance(case):
    r = bg.Req(case)
    if not r.n_iss:
        return False, ['no issuance key']
    if bg.too_many(r) or not r.provable() or not r.can():
        return False, ['cannot be blinded']
    lb = ['%d keys' % r.n_iss, '%d outputs' % r.n_out]
    with params(case['params']):
        tx = r.make_tx()
        before = r.before()
        res = r.blind(tx, bg.Stream(case['seed']))
        is_result(res, True)
        after = rd_tx(tx)
        check_eq(res.num_successfully_blinded, r.todo, 'number blinded')
        # entropy, nonce and whatever was not asked for
        check_effect(r, before, after, res)
        check(scalars_balance(r, after, res), 'blinding factors do not balance')
        if not case['unbal'] and not case['foreign']:
            check(r.balance(after), 'commitments do not balance')
        for n, i in enumerate(after['vin']):
            if i['iss'] is None:
                continue
            ids = bg.asset_ids(r.vin[n])
            for keys, f, w, k in PARTS:
                key = getattr(r, keys)[n]
                k = k and r.tok[n]
                if key is None:
                    continue
                lb.append(('reissuance ' if i['iss']['bn'] != bg.Z32 else '') + f)
                amount = int.from_bytes(r.vin[n]['iss'][f][1:], 'big')
                g = zkp.gen64(ids[k])
                rng = zkp.rp_verify(i['iss'][f], i['wit'][w], b'', g)
                check(rng is not None, 'range proof of issuance %s of input %d does not verify', f, n)
                check_eq(rng, r.range_of(amount, b'')[2:], 'range proved for issuance %s of input %d' % (f, n))
                o = dict(value=i['iss'][f], asset=b'\x01' + ids[k], nonce=b'')
                # committed script has to be ignored: issuance proofs commit to none
                u = unblind(o, case['script'], CKey(key, case['compr']), i['wit'][w])
                bf = u.blinding_factor.data if u.ok else b''
                good(u, ids[k], amount, bf, bg.Z32, 'issuance %s of input %d' % (f, n))
                check_eq(zkp.commit33(amount, bf, g), i['iss'][f], 'opening of issuance %s of input %d' % (f, n))
                # nobody else
                others = [case['other']] + [x for x in r.akeys + r.tkeys if x is not None and x != key]
                others += [s for s in r.secs if s is not None and s != key]
                for x in others:
                    if x != key:
                        bad(unblind(o, case['script'], CKey(x), i['wit'][w]), 'issuance %s with another key' % f)
                # nor as another asset
                for a in set(ids) - {ids[k]}:
                    bad(unblind(dict(o, asset=b'\x01' + a), b'', CKey(key), i['wit'][w]), 'issuance %s as another asset' % f)
                # proofs are not interchangeable
                bad(unblind(o, b'', CKey(key), b''), 'issuance without proof')
                other = i['wit']['kr' if w == 'ar' else 'ar']
                bad(unblind(o, b'', CKey(key), other), 'issuance with the proof of the other amount')
    return True, lb


def more(c, first):
    ins = []
    for k, i in enumerate(c['ins']):
        s = i['iss']
        if k == c['at'] % len(c['ins']):
            s = dict(s or first, key=True)
            if s['amt'] is None:
                s['amt'] = 100
        ins.append(dict(i, iss=s))
    outs = c['outs']
    if not any(o['blind'] for o in outs) and outs:
        outs = [dict(outs[0], blind=True)] + outs[1:]
    return dict(c, ins=ins, outs=outs)


def strat_issuance():
    return st.builds(lambda c, i, k, s: more(dict(c, other=k, script=s), i),
                     bg.request(max_in=3, max_out=3, min_out=1, unbal=True, bits=gen.weighted((9, st.integers(3, 9)), (1, bg.BITS))),
                     bg.issuance_part(), addrgen.secret(),
                     st.sampled_from([b'', b'\x51', b'\x6a', b'\x00\x14' + b'\x11' * 20]))


def strat_many():
    return st.builds(lambda c, i, k, s: more(dict(c, other=k, script=s), i),
                     bg.request(min_in=3, max_in=6, min_out=2, max_out=6, iss_weight=4, bits=st.integers(3, 7),
                                exp=st.sampled_from([0, None])),
                     bg.issuance_part(), addrgen.secret(), st.sampled_from([b'', b'\x51']))


ISS = ['committed_issuance', 'issuance_has_proof', 'key_without_amount', 'issuance_amount', 'key_without_issuance',
       'token_key_of_reissuance', 'reissuance_of_tokens', 'asset_key_type', 'token_key_type', 'too_many_asset_keys',
       'too_many_token_keys']
assert all(n in CHANGES for n in ISS)


def strat_refuse():
    ch = st.tuples(st.sampled_from(ISS), st.integers(0, 10 ** 6), bg.factor()).map(list)
    return st.builds(lambda c, x: dict(c, changes=x), strat_refused(), st.lists(ch, min_size=4, max_size=9))


PROP = Prop('C21', [
    Sub('issuance', check_issuance, strat_issuance, quick=500, thorough=30000,
        doc='blind issuances and reissuances together with outputs; amounts opened with issuance keys and no other'),
    Sub('many', check_issuance, strat_many, quick=100, thorough=6000, doc='the same with 3-6 inputs, most with an issuance'),
    Sub('refuse', check_refused, strat_refuse, quick=300, thorough=15000,
        doc='issuances that cannot be blinded'),
], rule='an issuance key was given and the request can be done; refuse: at least one change applied',
   assumptions=['stand-in library'])
