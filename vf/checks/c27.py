from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import edits, gen
from ..ref import codec
from .c01 import cut_witness


def check_vsize(case):
    model = case['tx']
    wit = case['wit']
    if wit == 'none':
        model = cut_witness(model, 0, 0)
    elif wit != 'full':
        wit = (min(wit[0], len(model['vin'])), min(wit[1], len(model['vout'])))
        model = cut_witness(model, *wit)
    with params(case['params']):
        for mutable in (False, True):
            t = mk_tx(case['tx'], mutable, wit)
            check_eq(t.get_virtual_size(), codec.vsize(model), 'virtual size (mutable=%s)' % mutable)
            check_eq(t.serialize(), codec.ser_tx(model), 'encoding after the size was asked for')
        n = 0
        for op in case['ops']:
            m2 = edits.apply(model, t, op)
            if m2 is None:
                continue
            model = m2
            n += 1
            check_eq(t.get_virtual_size(), codec.vsize(model), 'virtual size after edit')
        im = t.to_immutable()
        check_eq(im.get_virtual_size(), codec.vsize(model), 'virtual size of the snapshot')
    total = 3 * len(codec.ser_stripped(model)) + len(codec.ser_tx(model))
    return (True, ['weight mod 4: %d' % (total % 4),
                   'witness' if not codec.wit_null(model) else 'no witness'])


def strat():
    return st.fixed_dictionaries(dict(
        tx=gen.weighted((40, gen.tx(max_in=3, max_out=3, long=True)), (3, gen.late()),
                        (1, gen.tx(max_in=1, max_out=1, many=True))),
        wit=gen.weighted((4, st.just('full')), (1, st.just('none')),
                         (1, st.tuples(st.integers(0, 3), st.integers(0, 3)))),
        ops=st.lists(edits.strategy(), max_size=3),
        params=st.sampled_from(['elements', 'elements/liquidv1', 'bitcoin'])))


def check_corpus(case):
    t = ec.CElementsTransaction.deserialize(bytes.fromhex(case['hex']))
    check_eq(t.get_virtual_size(), case['vsize'], 'virtual size recorded by Elements Core')
    check_eq(t.to_mutable().get_virtual_size(), case['vsize'], 'the same, mutable')
    return (True, ())


def corpus(tier):
    from .. import selftest
    for e in selftest.corpus():
        if e.get('vsize'):
            yield dict(hex=e['hex'], vsize=e['vsize'])


PROP = Prop('C27', [
    Sub('vsize', check_vsize, strat, quick=1800, thorough=60000,
        doc='virtual size against the weight formula on independently computed encodings'),
    Sub('recorded', check_corpus, cases=corpus,
        doc='virtual sizes recorded by Elements Core'),
], rule='a transaction (absent, partial or full witness) and up to 3 edits; every case counts')
_ = (check, fail)
