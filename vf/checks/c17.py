from ..build import *  # noqa
from hypothesis import strategies as st

from ..core import Prop, Sub, check, check_eq
from .. import blindgen as bg, gen, zkp

N = bg.N


def num(b):
    return int.from_bytes(b, 'big')


def is_result(res, ok):
    if ok:
        check(isinstance(res, ec.BlindingSuccess), 'blinding failed: %s', res)
        check(res.ok is True and res.error == '', 'a success with ok=%r error=%r', res.ok, res.error)
    else:
        check(isinstance(res, ec.BlindingFailure), 'blinding reported success: %s', res)
        check(res.ok is False and isinstance(res.error, str) and res.error, 'a failure with ok=%r error=%r',
              res.ok, res.error)


def factors(res, n):
    b = [x.data for x in res.blinding_factors]
    a = [x.data for x in res.asset_blinding_factors]
    check_eq(len(b), n, 'number of blinding factors')
    check_eq(len(a), n, 'number of asset blinding factors')
    return b, a


def check_effect(r, before, after, res, strict=True):
    """after = before with exactly what was asked for blinded; openings by the factors in res."""
    bf, abf = factors(res, len(before['vout']))
    want = dict(before, vin=[dict(i) for i in before['vin']], vout=[dict(o) for o in before['vout']])
    for n, o in enumerate(want['vout']):
        got = after['vout'][n]
        if r.secs[n] is None:
            check_eq(bf[n], bg.Z32, 'blinding factor of output %d, which was not blinded' % n)
            check_eq(abf[n], bg.Z32, 'asset blinding factor of output %d, which was not blinded' % n)
            continue
        src = r.outs[n]
        check(got['value'][:1] in (b'\x08', b'\x09') and len(got['value']) == 33, 'value of output %d is not committed', n)
        check(got['asset'][:1] in (b'\x0a', b'\x0b') and len(got['asset']) == 33, 'asset of output %d is not committed', n)
        check(got['nonce'][:1] in (b'\x02', b'\x03') and len(got['nonce']) == 33, 'nonce of output %d is not committed', n)
        check_eq(got['asset'], zkp.gen33(src['asset'], abf[n]), 'asset commitment of output %d opens to its asset' % n)
        check_eq(got['value'], zkp.commit33(src['amt'], bf[n], zkp.gen64(src['asset'], abf[n])),
                 'value commitment of output %d opens to its amount' % n)
        o.update(value=got['value'], asset=got['asset'], nonce=got['nonce'], wit=got['wit'])
    for n, i in enumerate(want['vin']):
        got = after['vin'][n]
        for key, f, w in ((r.akeys[n], 'amt', 'ar'), (r.tkeys[n], 'keys', 'kr')):
            if key is not None:
                check(got['iss'] is not None and got['iss'][f][:1] in (b'\x08', b'\x09'),
                      'issuance %s of input %d is not committed', f, n)
                i['iss'] = dict(i['iss'], **{f: got['iss'][f]})
                i['wit'] = dict(i['wit'], **{w: got['wit'][w]})
    same(after, want, 'everything not blinded')


def issuance_blinds(r, after):
    """[(amount, factor)] of the blinded issuances, rewinding their proofs."""
    res = []
    for n, i in enumerate(after['vin']):
        for key, f, w, k in ((r.akeys[n], 'amt', 'ar', 0), (r.tkeys[n], 'keys', 'kr', r.tok[n])):
            if key is not None:
                a = bg.asset_ids(r.vin[n])[k]
                x = zkp.rp_rewind(key, i['iss'][f], i['wit'][w], b'', zkp.gen64(a))
                check(x is not None, 'range proof of issuance %s of input %d cannot be rewound', f, n)
                check_eq(x[0], num(r.vin[n]['iss'][f][1:]), 'amount in issuance %s of input %d' % (f, n))
                check_eq(zkp.commit33(x[0], x[1], zkp.gen64(a)), i['iss'][f], 'opening of issuance %s of input %d' % (f, n))
                res.append((x[0], x[1]))
    return res


def scalars_balance(r, after, res):
    """Sum of amount * asset factor + factor is the same on both sides (whatever the amounts)."""
    left = sum(v * num(abf) + num(bf) for _, v, bf, abf in r.known)
    left += sum(num(b) for _, b in issuance_blinds(r, after))
    right = 0
    for o, b, a in zip(r.outs, res.blinding_factors, res.asset_blinding_factors):
        right += o['amt'] * num(a.data) + num(b.data)
    return left % N == right % N


def check_zero(case):
    """A single zero to blind, while the factors of what is spent add up to nothing (or nearly do)"""
    r = bg.Req(case)
    if r.n_out != 1 or r.n_iss:
        return False, ['not a single output']
    if not r.vanishes():
        return check_blind(case)
    return check_vanishing(case, r)


def strat_zero():
    def fix(c, first, sec, near, up):
        ins = []
        for k, i in enumerate(c['ins'][:2]):
            bf = bg.Z32
            if near and len(c['ins']) > 1:
                bf = first if k == 0 else ((N - num(first) + (near == 2)) % N).to_bytes(32, 'big')
            ins.append(dict(i, amt=0 if up != k else i['amt'], bf=bf, iss=None))
        if not c['outs']:
            return c
        outs = [dict(o, blind=k == 0, zero=k == 0) for k, o in enumerate(c['outs'])]
        return dict(c, ins=ins, outs=outs)
    return st.builds(fix, bg.request(max_in=2, max_out=2, min_out=1, foreign=False, unbal=False), bg.factor(), bg.factor(),
                     st.sampled_from([0, 1, 1, 2]), gen.weighted((3, st.none()), (1, st.integers(0, 1))))


def check_vanishing(case, r):
    with params(case['params']):
        tx = r.make_tx()
        res = r.blind(tx, bg.Stream(case['seed']))
        is_result(res, True)
        check_eq(res.num_successfully_blinded, 1, 'number of outputs and issuances blinded')
        same(rd_tx(tx), r.before(), 'transaction with a zero output that needs no blinding')
        for x in res.blinding_factors + res.asset_blinding_factors:
            check_eq(x.data, bg.Z32, 'factor of an output that was not blinded')
    return True, ['nothing to balance']


def check_blind(case):
    r = bg.Req(case)
    lb = ['%d outputs' % r.n_out, '%d issuances' % r.n_iss, '%d blinded inputs' % r.blinded_in]
    if r.vanishes():
        return check_vanishing(case, r)
    if bg.too_many(r) or not r.provable():
        return False, ['no room in the range proof']
    with params(case['params']):
        tx = r.make_tx()
        before = r.before()
        same(rd_tx(tx), before, 'transaction to blind')
        res = r.blind(tx, bg.Stream(case['seed']))
        after = rd_tx(tx)
        is_result(res, r.can())
        if not r.can():
            return bool(r.todo), lb + ['refused']
        check_eq(res.num_successfully_blinded, r.todo, 'number of outputs and issuances blinded')
        check_effect(r, before, after, res)
        if r.todo:
            check(scalars_balance(r, after, res), 'blinding factors do not balance')
        if case['foreign']:
            lb.append('with outputs of others')
        elif not case['unbal'] and (r.todo or not r.blinded_in):
            check(r.balance(after), 'commitments of inputs and outputs do not balance')
            lb.append('balanced')
        elif r.todo:
            check(not r.balance(after), 'commitments of an unbalanced transaction balance')
    return r.todo > 0, lb


def strat_blind():
    return bg.request(iss_weight=2)


PROP = Prop('C17', [
    Sub('blind', check_blind, strat_blind, quick=900, thorough=40000,
        doc='blind a generated transaction; commitments opened and summed with the verification library'),
    Sub('many', check_blind, bg.many, quick=120, thorough=6000, doc='the same with 4-10 inputs and up to 14 outputs'),
    Sub('zero', check_zero, strat_zero, quick=300, thorough=8000,
        doc='a single zero to blind; where nothing has to be balanced it stays as it is and counts as done'),
], rule='a transaction with known openings of its inputs, per-asset balanced (mostly), with issuances and any choice of '
        'outputs to blind; non-trivial: something was to be blinded and the range proofs have room for the asset',
   assumptions=['the stand-in library is used by the code under test and, on a handle of its own, by the oracle',
                'random numbers are not adversarial'])
