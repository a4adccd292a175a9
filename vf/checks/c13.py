from hypothesis import strategies as st

from ..addrgen import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from ..ref import addr, codec


def size_of(a, fields):
    """Length of the reference encoding of an output to the address."""
    o = dict(spk=addr.script(a['kind'], a['payload']), **fields)
    return len(codec.ser_out(o))


def check_size(case):
    a = case['a']
    conf = a['blind'] is not None
    if conf:
        fields = dict(asset=case['asset'], value=case['value'], nonce=case['nonce'])
    else:
        fields = dict(asset=b'', value=b'\x01' + case['amount'].to_bytes(8, 'big'), nonce=b'')
    want = size_of(a, fields)
    with params(a['net']):
        obj = bw.CCoinAddress(to_str(a))
        txo = ec.CElementsTxOut(ec.CConfidentialValue(fields['value']), obj.to_scriptPubKey(),
                                ec.CConfidentialAsset(fields['asset']), ec.CConfidentialNonce(fields['nonce']))
        check_eq(len(txo.serialize()), want, 'encoding of such an output')
        check_eq(generic(a['kind'], conf).get_output_size(), want, 'size reported by the generic class')
    with params(case['sel']):
        cls = type(obj)
        check(cls is leaf(a['net'], a['kind'], conf), 'address has type %s', cls.__name__)
        check_eq(obj.get_output_size(), want, 'size reported by the address')
        check_eq(cls.get_output_size(), want, 'size reported by %s' % cls.__name__)
        if conf:
            check_eq(obj.to_unconfidential().get_output_size(),
                     size_of(a, dict(asset=b'', value=b'\x01' + b'\x00' * 8, nonce=b'')),
                     'size reported by the unconfidential form')
        # a class that stands for addresses of several sizes has none
        for name in ('C%sAddress', 'C%sConfidentialAddress'):
            c = klass(name % NETNAME[a['net']])
            try:
                r = c.get_output_size()
            except TypeError:
                continue
            fail('%s reports %r', c.__name__, r)
    return True, [a['kind'] + (' confidential' if conf else ''),
                  'other network selected' if case['sel'] != a['net'] else 'own network selected']


def strat_size():
    b = st.binary(min_size=32, max_size=32)

    def f(p):
        return st.builds(lambda i, x: bytes([p + i]) + x, st.integers(0, 1), b)
    return st.fixed_dictionaries(dict(
        a=address(ENETS), sel=st.sampled_from(['elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet']),
        asset=f(10), value=f(8), nonce=f(2), amount=st.integers(0, 21 * 10 ** 14)))


PROP = Prop('C13', [
    Sub('size', check_size, strat_size, quick=3200, thorough=60000,
        doc='reported sizes against the encoding of an output with commitments'),
], rule='an Elements address and an output paying to it; every case is non-trivial', zkp=False)
