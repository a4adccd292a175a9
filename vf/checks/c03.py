from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import edits, gen
from ..ref import codec


def judge(t, model, what):
    check_eq(t.GetTxid(), codec.txid(model), 'txid ' + what)
    check_eq(t.GetHash(), codec.wtxid(model), 'hash ' + what)
    check_eq(t.GetTxid(), codec.txid(model), 'txid (second call) ' + what)
    check_eq(t.GetHash(), codec.wtxid(model), 'hash (second call) ' + what)


def stripped_key(m):
    return codec.ser_stripped(m)


def check_ids(case):
    model = case['tx']
    with params(case['params']):
        im = mk_tx(model, False, case['wit'])
        mut = mk_tx(model, True, case['wit'])
        if case['wit'] == 'none':
            model = dict(model, vin=[dict(i, wit=dict(codec.NULL_INWIT)) for i in model['vin']],
                         vout=[dict(o, wit=dict(codec.NULL_OUTWIT)) for o in model['vout']])
        judge(im, model, 'of immutable')
        judge(mut, model, 'of mutable')
        judge(im.to_mutable(), model, 'of immutable made mutable')
        judge(mut.to_immutable(), model, 'of mutable made immutable')
        judge(ec.CElementsTransaction.deserialize(codec.ser_tx(model)), model, 'after round trip')
        lb = set()
        first = (codec.txid(model), codec.wtxid(model))
        m = model
        for op in case['ops']:
            before = m
            m2 = edits.apply(m, mut, op)
            if m2 is None:
                continue
            m = m2
            judge(mut, m, 'after edit %s' % op['op'])
            if op['op'] in edits.WITNESS_OPS:
                check_eq(mut.GetTxid(), codec.txid(before), 'txid after witness edit')
                lb.add('witness edit')
            if stripped_key(before) != stripped_key(m):
                check(mut.GetTxid() != codec.txid(before), 'txid unchanged by edit %s', op['op'])
                lb.add('non-witness edit')
            judge(mut.to_immutable(), m, 'snapshot after edit')
        # the immutable original has not moved
        check_eq((im.GetTxid(), im.GetHash()), first, 'ids of the immutable original')
    if not codec.wit_null(case['tx']):
        lb.add('witness')
    return (len(case['ops']) > 0, lb)


def strat_ids():
    return st.fixed_dictionaries(dict(
        tx=gen.weighted((7, gen.tx(max_in=3, max_out=3)), (1, gen.late())), ops=st.lists(edits.strategy(), max_size=8),
        wit=gen.weighted((3, st.just('full')), (1, st.just('none'))),
        params=st.sampled_from(['elements', 'elements/liquidv1', 'bitcoin'])))


PROP = Prop('C03', [
    Sub('ids', check_ids, strat_ids, quick=2400, thorough=80000,
        doc='ids of both mutabilities against the reference, after every edit of a history'),
], rule='a transaction and a history of up to 8 edits; non-trivial: at least one edit',
   assumptions=['double SHA-256 collisions are not expected'])
_ = fail
