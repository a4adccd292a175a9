import hashlib

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen
from ..ref import curve
from bitcointx.core.key import CKey, CKeyBase
from bitcointx.core.script import CScript, CBitcoinScript
from bitcointx.wallet import CCoinKey, CBitcoinKey, CCoinExtKey, CBitcoinExtKey
from elementstx.wallet import CElementsKey, CElementsLiquidV1Key, CElementsExtKey


def ref_hmac(key, msg):
    """RFC 2104, from its definition."""
    k = key + b'\x00' * (64 - len(key))
    inner = hashlib.sha256(bytes(x ^ 0x36 for x in k) + msg).digest()
    return hashlib.sha256(bytes(x ^ 0x5c for x in k) + inner).digest()


MASTERS = {
    'CKey': CKey,
    'CKey uncompressed': lambda b: CKey(b, compressed=False),
    'CElementsKey': CElementsKey.from_secret_bytes,
    'CElementsLiquidV1Key': CElementsLiquidV1Key.from_secret_bytes,
    'CBitcoinKey': CBitcoinKey.from_secret_bytes,
    'CCoinKey': lambda b: CCoinKey.from_secret_bytes(b),
    'CBitcoinExtKey': lambda b: CBitcoinExtKey.from_seed(b).priv,
    'CElementsExtKey': lambda b: CElementsExtKey.from_seed(b).priv,
}


def check_derive(case):
    s = case['script']
    with params(case['params1']):
        master = MASTERS[case['master']](case['secret'])
    if 'Ext' in case['master']:
        secret = bytes(master.secret_bytes)
    else:
        secret = case['secret']
    check_eq(bytes(master.secret_bytes), secret, 'secret of the master key')
    check(isinstance(master, CKeyBase), 'master is no CKeyBase')
    want = ref_hmac(secret, s)
    buf = bytearray(s)
    with params(case['params2']):
        forms = {'script method': lambda: es.CElementsScript(s).derive_blinding_key(master),
                 'CElementsScript': lambda: ec.derive_blinding_key(master, es.CElementsScript(s)),
                 'bytes': lambda: ec.derive_blinding_key(master, s),
                 'bytearray': lambda: ec.derive_blinding_key(master, buf),
                 'again': lambda: ec.derive_blinding_key(master, s),
                 'script of output': lambda: ec.derive_blinding_key(
                     master, ec.CElementsTxOut(ec.CConfidentialValue(), es.CElementsScript(s)).scriptPubKey)}
        if case['params2'].startswith('elements'):
            forms['CScript'] = lambda: ec.derive_blinding_key(master, CScript(s))
            forms['CScript method'] = lambda: CScript(s).derive_blinding_key(master)
        for name, f in forms.items():
            k = f()
            check(isinstance(k, CKey), '%s: type %s', name, type(k).__name__)
            check_eq(bytes(k.secret_bytes), want, 'key derived from %s' % name)
        check_eq(bytes(k.pub), curve.pub(want), 'public key')
        check(len(k.pub) == 33 and k.pub.is_fullyvalid() and k.pub.is_compressed(), 'public key not compressed')
        check_eq(bytes(buf), s, 'buffer given as script')
        # another script or master, another key
        other = case['other']
        if other != s:
            check(bytes(ec.derive_blinding_key(master, other).secret_bytes) != want, 'same key for another script')
        m2 = CKey(curve_secret(hashlib.sha256(secret).digest()))
        check(bytes(ec.derive_blinding_key(m2, s).secret_bytes) != want, 'same key for another master')
        check_eq(bytes(master.secret_bytes), secret, 'master after derivation')
    return True, [case['master'], 'empty script' if not s else 'script']


def curve_secret(b):
    return (int.from_bytes(b, 'big') % (curve.N - 1) + 1).to_bytes(32, 'big')


def strat_script():
    return st.one_of(gen.sized_bytes(), gen.long_bytes(), st.sampled_from([b'', b'\x6a', b'\x00' * 63, b'\x00' * 64]),
                     st.binary(min_size=20, max_size=20).map(lambda h: b'\x00\x14' + h))


def strat_derive():
    return st.fixed_dictionaries(dict(
        script=strat_script(), other=strat_script(), master=st.sampled_from(sorted(MASTERS)),
        secret=st.one_of(st.binary(min_size=32, max_size=32).map(curve_secret),
                         st.sampled_from([1, 256, 2 ** 248, 2 ** 255, curve.N - 1]).map(lambda n: n.to_bytes(32, 'big'))),
        params1=st.sampled_from(PARAMS), params2=st.sampled_from(PARAMS)))


def check_refuse(case):
    s = case['script']
    master = CKey(case['secret'])

    def refused(f, what):
        try:
            r = f()
        except TypeError:
            return
        fail('%s not refused: %r', what, r)
    with params(case['params']):
        refused(lambda: ec.derive_blinding_key(master, CBitcoinScript(s)), 'Bitcoin script')
        if not case['params'].startswith('elements'):
            refused(lambda: ec.derive_blinding_key(master, CScript(s)), 'script of the selected foreign chain')
        for x in (s.hex(), None, 5, [s], memoryview(s), ec.CElementsTxOut()):
            refused(lambda: ec.derive_blinding_key(master, x), 'script of type %s' % type(x).__name__)
        for x in (case['secret'], None, 'k', master.pub, 1):
            refused(lambda: ec.derive_blinding_key(x, s), 'master of type %s' % type(x).__name__)
            refused(lambda: es.CElementsScript(s).derive_blinding_key(x), 'master of type %s' % type(x).__name__)
    return True, [case['params']]


def strat_refuse():
    return st.fixed_dictionaries(dict(script=strat_script(), params=st.sampled_from(PARAMS),
                                      secret=st.binary(min_size=32, max_size=32).map(curve_secret)))


PROP = Prop('C15', [
    Sub('derive', check_derive, strat_derive, quick=1200, thorough=30000,
        doc='all argument forms against HMAC written from its definition'),
    Sub('refuse', check_refuse, strat_refuse, quick=400, thorough=4000, doc='foreign scripts and wrong types'),
], rule='a script, a master key of some class and two selected networks; every case is non-trivial', zkp=False)
_ = (CCoinExtKey,)
