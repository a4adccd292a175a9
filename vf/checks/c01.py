from io import BytesIO

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen
from ..ref import codec
from bitcointx.core.serialize import SerializationError


def tx_labels(tx):
    lb = set()
    for i in tx['vin']:
        if i['n'] == 0xffffffff:
            lb.add('coinbase')
        if i['iss'] is not None:
            lb.add('issuance')
        if i['pegin']:
            lb.add('pegin')
        if len(i['ss']) > 252:
            lb.add('big script')
    for o in tx['vout']:
        lb.add('value:%s' % {0: 'null', 9: 'explicit', 33: 'commit'}[len(o['value'])])
    if not codec.wit_null(tx):
        lb.add('witness')
    if len(tx['vin']) > 252 or len(tx['vout']) > 252:
        lb.add('many')
    return lb


def cut_witness(tx, ni, no):
    """Witness records beyond the given numbers do not exist."""
    return dict(
        tx,
        vin=[i if n < ni else dict(i, wit=dict(codec.NULL_INWIT))
             for n, i in enumerate(tx['vin'])],
        vout=[o if n < no else dict(o, wit=dict(codec.NULL_OUTWIT))
              for n, o in enumerate(tx['vout'])])


def check_tx(case):
    tx = case['tx']
    wit = case['wit']
    if wit == 'full':
        model = tx
    elif wit == 'none':
        model = cut_witness(tx, 0, 0)
    else:
        ni, no = min(wit[0], len(tx['vin'])), min(wit[1], len(tx['vout']))
        wit = (ni, no)
        model = cut_witness(tx, ni, no)
    want = codec.ser_tx(model)
    norm = codec.normalize(model)
    with params(case['params']):
        objs = []
        for mutable in (False, True):
            t = mk_tx(tx, mutable, wit)
            check_eq(t.serialize(), want, 'serialization (mutable=%s)' % mutable)
            same(rd_tx(t), model, 'fields after construction')
            check_eq(t.serialize(), want, 'second serialization')
            objs.append(t)
        classes = [ec.CElementsTransaction, ec.CElementsMutableTransaction]
        if case['params'].startswith('elements'):
            from bitcointx.core import CTransaction, CMutableTransaction
            classes += [CTransaction, CMutableTransaction]
        for c in classes:
            t2 = c.deserialize(want)
            mut = c.__name__.find('Mutable') >= 0
            check_eq(t2.__class__, cls('Transaction', mut), 'class of decoded transaction')
            same(rd_tx(t2), norm, 'decoded fields')
            check_eq(t2.serialize(), want, 'reserialization of decoded transaction')
            for t in objs:
                check(t2 == t and t == t2 and not (t != t2), 'decoded transaction is not equal')
        # streaming: reads exactly its own bytes
        f = BytesIO(want + b'tail')
        ec.CElementsTransaction.stream_deserialize(f)
        check_eq(f.read(), b'tail', 'bytes left in the stream')
    lb = tx_labels(tx)
    lb.add('wit:' + (case['wit'] if isinstance(case['wit'], str) else 'partial'))
    return (bool(tx['vin'] or tx['vout']), lb)


def wit_modes():
    return gen.weighted((2, st.just('full')), (1, st.just('none')), (2,
                     st.tuples(st.integers(0, 4), st.integers(0, 4))))


def strat_tx():
    return st.fixed_dictionaries(dict(
        tx=gen.weighted((9, gen.tx(long=True, top=True)), (1, gen.late(True))), wit=wit_modes(),
        params=st.sampled_from(['elements'] * 3 + PARAMS)))


def strat_many():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(many=True), wit=wit_modes(), params=st.just('elements')))


def roundtrip(c, obj, want, read, model, what, **kw):
    f = BytesIO()
    obj.stream_serialize(f, **kw)
    check_eq(f.getvalue(), want, what + ' serialization')
    if not kw:
        check_eq(obj.serialize(), want, what + ' serialize()')
    f = BytesIO(want + b'\xaa\xbb')
    o2 = c.stream_deserialize(f, **kw)
    check_eq(f.read(), b'\xaa\xbb', what + ': bytes left in the stream')
    same(read(o2), model, what + ' decoded fields')
    f = BytesIO()
    o2.stream_serialize(f, **kw)
    check_eq(f.getvalue(), want, what + ' reserialization')
    check(o2 == obj and obj == o2, what + ': decoded object not equal')
    return o2


def check_parts(case):
    tx = case['tx']
    with params(case['params']):
        for mutable in (False, True):
            for i in tx['vin']:
                d = dict(i)
                w = d.pop('wit')
                o = mk_in(i, mutable)
                n = codec.normalize(dict(tx, vin=[d]))['vin'][0]
                roundtrip(o.__class__, o, codec.ser_in(i), rd_in, n, 'input')
                if i['iss'] is not None:
                    a = mk_issuance(i['iss'])
                    roundtrip(ec.CAssetIssuance, a, codec.ser_issuance(i['iss']),
                              lambda x: dict(bn=x.assetBlindingNonce.data,
                                             ent=x.assetEntropy.data,
                                             amt=rd_field(x.nAmount),
                                             keys=rd_field(x.nInflationKeys)),
                              i['iss'], 'issuance')
                p = cls('OutPoint', mutable)(i['txid'], i['n'])
                roundtrip(p.__class__, p, codec.ser_outpoint(i['txid'], i['n']),
                          lambda x: (bytes(x.hash), x.n), (i['txid'], i['n']), 'outpoint')
                o = mk_inwit(w, mutable)
                roundtrip(o.__class__, o, codec.ser_inwit(w), rd_inwit, w, 'input witness')
                check_eq(o.is_null(), codec.inwit_null(w), 'input witness is_null')
            for o in tx['vout']:
                d = dict(o)
                w = d.pop('wit')
                t = mk_out(o, mutable)
                roundtrip(t.__class__, t, codec.ser_out(o), rd_out, d, 'output')
                for f, c in (('asset', ec.CConfidentialAsset), ('value', ec.CConfidentialValue),
                             ('nonce', ec.CConfidentialNonce)):
                    roundtrip(c, c(o[f]), codec.conf(o[f]), rd_field, o[f], f)
                t = mk_outwit(w, mutable)
                roundtrip(t.__class__, t, codec.ser_outwit(w), rd_outwit, w, 'output witness')
                check_eq(t.is_null(), codec.outwit_null(w), 'output witness is_null')
            w = cls('TxWitness', mutable)(
                [mk_inwit(i['wit'], mutable) for i in tx['vin']],
                [mk_outwit(o['wit'], mutable) for o in tx['vout']])
            want = codec.ser_witness(tx)
            f = BytesIO()
            w.stream_serialize(f)
            check_eq(f.getvalue(), want, 'witness serialization')
            f = BytesIO(want + b'\x01')
            w2 = w.__class__.stream_deserialize(f, num_inputs=len(tx['vin']),
                                                num_outputs=len(tx['vout']))
            check_eq(f.read(), b'\x01', 'bytes left after witness')
            same([rd_inwit(x) for x in w2.vtxinwit], [i['wit'] for i in tx['vin']], 'witness inputs')
            same([rd_outwit(x) for x in w2.vtxoutwit], [o['wit'] for o in tx['vout']], 'witness outputs')
            check_eq(w.is_null(), codec.wit_null(tx), 'witness is_null')
    return (bool(tx['vin'] or tx['vout']), tx_labels(tx))


def strat_parts():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(max_in=2, max_out=2, long=True), params=st.sampled_from(PARAMS)))


def corpus_cases(tier):
    import json
    import os
    with open(os.path.join(env.VERIF, 'vf', 'data', 'corpus.json')) as f:
        return json.load(f)


def check_corpus(case):
    """Transactions recorded from Elements Core with its txid and hash."""
    b = bytes.fromhex(case['hex'])
    with params('elements'):
        t = ec.CElementsTransaction.deserialize(b)
        same(rd_tx(t), codec.parse_tx(b), 'fields of recorded transaction')
        check_eq(t.serialize(), b, 'recorded transaction reserialized')
        check_eq(t.to_mutable().serialize(), b, 'recorded transaction reserialized (mutable)')
        check_eq(t.GetTxid()[::-1].hex(), case['txid'], 'txid')
        check_eq(t.GetHash()[::-1].hex(), case['hash'], 'hash')
    return (True, ['recorded'])


def check_defaults(case):
    """Default-constructed objects are the null ones."""
    with params(case['params']):
        for m in (False, True):
            t = cls('Transaction', m)()
            same(rd_tx(t), dict(v=t.nVersion, lt=0, vin=[], vout=[]), 'default transaction')
            check(t.nVersion in (1, 2), 'default version')
            check_eq(t.serialize(), codec.ser_tx(dict(v=t.nVersion, lt=0, vin=[], vout=[])),
                     'default transaction')
            i = cls('TxIn', m)()
            check_eq(i.serialize(), b'\0' * 32 + b'\xff' * 4 + b'\0' + b'\xff' * 4, 'default input')
            check_eq(cls('TxOut', m)().serialize(), b'\0' * 4, 'default output')
            check_eq(cls('TxInWitness', m)().serialize(), b'\0' * 4, 'default input witness')
            check_eq(cls('TxOutWitness', m)().serialize(), b'\0' * 2, 'default output witness')
    check_eq(ec.CAssetIssuance().serialize(), b'\0' * 66, 'default issuance')
    for c in (ec.CConfidentialAsset, ec.CConfidentialValue, ec.CConfidentialNonce):
        check_eq(c().serialize(), b'\0', 'default field')
    return (True, [])


def check_grow(case):
    """A mutable transaction grown step by step encodes like one built at once."""
    tx = case['tx']
    with params(case['params']):
        t = ec.CElementsMutableTransaction()
        t.nVersion = tx['v']
        t.nLockTime = tx['lt']
        for i in tx['vin']:
            t.vin.append(mk_in(i, True))
        for o in tx['vout']:
            t.vout.append(mk_out(o, True))
        stripped = cut_witness(tx, 0, 0)
        check_eq(t.serialize(), codec.ser_tx(stripped), 'transaction without witness')
        # outputs first, then inputs, as blinding does
        no = case['no'] % (len(tx['vout']) + 1)
        ni = case['ni'] % (len(tx['vin']) + 1)
        for o in tx['vout'][:no]:
            t.wit.vtxoutwit.append(mk_outwit(o['wit'], True))
        m = cut_witness(tx, 0, no)
        check_eq(t.serialize(), codec.ser_tx(m), 'transaction with output witnesses only')
        for i in tx['vin'][:ni]:
            t.wit.vtxinwit.append(mk_inwit(i['wit'], True))
        m = cut_witness(tx, ni, no)
        b = t.serialize()
        check_eq(b, codec.ser_tx(m), 'transaction with some witnesses')
        t2 = ec.CElementsTransaction.deserialize(b)
        same(rd_tx(t2), codec.normalize(m), 'decoded fields')
        t3 = t.to_immutable()
        check_eq(t3.serialize(), b, 'immutable copy')
    partial = 0 < ni < len(tx['vin']) or 0 < no < len(tx['vout']) or (no and not ni)
    return (bool(tx['vin'] or tx['vout']), ['partial'] if partial else [])


def strat_grow():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(max_in=3, max_out=3, witness=True), ni=st.integers(0, 4), no=st.integers(0, 4),
        params=st.sampled_from(['elements', 'elements/liquidv1', 'bitcoin'])))


def check_flagged(case):
    """An index that uses the flag bits is not written as another input."""
    tx = case['tx']
    k = case['k'] % len(tx['vin'])
    n = case['n']
    coinbase = n == 0xffffffff
    bad = bool(n & 0xc0000000) and not coinbase
    m = dict(tx, vin=[dict(i, n=n) if j == k else i for j, i in enumerate(tx['vin'])])
    with params(case['params']):
        objs = [mk_tx(m, False), mk_tx(m, True)]
        t = mk_tx(tx, True)
        t.vin[k].prevout.n = n
        objs.append(t)
        t = mk_tx(tx, True)
        t.vin[k].prevout = ec.CElementsMutableOutPoint(t.vin[k].prevout.hash, n)
        objs += [t, t.to_immutable()]
        for t in objs:
            calls = dict(transaction=t.serialize, input=t.vin[k].serialize, txid=t.GetTxid, hash=t.GetHash)
            if not coinbase:
                calls['size'] = t.get_virtual_size
            for what, fn in calls.items():
                try:
                    r = fn()
                except Exception as e:
                    check(bad, '%s of an input with index 0x%x refused: %r', what, n, e)
                    check(isinstance(e, (SerializationError, ValueError)), '%s: unexpected %r', what, e)
                    continue
                check(not bad, '%s given for an input with index 0x%x: %r', what, n, r)
                if what == 'transaction' and not coinbase:
                    check_eq(r, codec.ser_tx(m), 'encoding')
            if bad:
                # the outpoint itself encodes any index
                check_eq(t.vin[k].prevout.serialize(), m['vin'][k]['txid'] + n.to_bytes(4, 'little'), 'outpoint')
    return True, ['refused' if bad else 'coinbase' if coinbase else 'fine', 'mutated']


def strat_flagged():
    idx = st.builds(lambda a, b: a | b, st.sampled_from([0x80000000, 0x40000000, 0xc0000000]),
                    gen.weighted((2, st.integers(0, 3)), (1, st.integers(0, 0x3fffffff)),
                                 (1, st.sampled_from([0x3fffffff, 0x3ffffffe]))))
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=3, max_out=2), k=st.integers(0, 2),
        n=gen.weighted((4, idx), (1, st.integers(0, 0x3fffffff))), params=st.sampled_from(PARAMS)))


PROP = Prop('C01', [
    Sub('tx', check_tx, strat_tx, quick=1600, thorough=60000,
        doc='whole transactions against the independent codec, both mutabilities, all witness modes'),
    Sub('many', check_tx, strat_many, quick=48, thorough=1500,
        doc='as tx, with numbers of inputs and outputs across the one-byte count'),
    Sub('parts', check_parts, strat_parts, quick=600, thorough=20000,
        doc='every separately serializable component against the independent codec'),
    Sub('grow', check_grow, strat_grow, quick=600, thorough=20000,
        doc='mutable transactions grown in place'),
    Sub('flagged', check_flagged, strat_flagged, quick=600, thorough=20000,
        doc='indices that collide with the flag bits are refused, through constructor and assignment'),
    Sub('corpus', check_corpus, cases=corpus_cases, doc='transactions recorded from Elements Core'),
    Sub('defaults', check_defaults, cases=lambda tier: [dict(params=p) for p in PARAMS],
        doc='default-constructed objects'),
], rule='generated transactions (fields biased to edges and length-prefix boundaries); non-trivial: '
        'has at least one input or output; distinct by canonical JSON of the case',
   assumptions=['the reference codec (vf/ref/codec.py) reproduces txid, hash and vsize of 70+ '
                'transactions recorded from Elements Core (sub corpus, self-test)',
                'in-memory transactions that the encoding cannot represent for another reason than index '
                'flag bits (a coinbase input with an issuance, invalid prefixes) are outside the property'])
_ = fail
