from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen
from bitcointx.core.script import CScript

OPS = {
    'OP_DETERMINISTICRANDOM': 0xc0, 'OP_CHECKSIGFROMSTACK': 0xc1, 'OP_CHECKSIGFROMSTACKVERIFY': 0xc2,
    'OP_SUBSTR_LAZY': 0xc3, 'OP_SHA256INITIALIZE': 0xc4, 'OP_SHA256UPDATE': 0xc5, 'OP_SHA256FINALIZE': 0xc6,
    'OP_INSPECTINPUTOUTPOINT': 0xc7, 'OP_INSPECTINPUTASSET': 0xc8, 'OP_INSPECTINPUTVALUE': 0xc9,
    'OP_INSPECTINPUTSCRIPTPUBKEY': 0xca, 'OP_INSPECTINPUTSEQUENCE': 0xcb, 'OP_INSPECTINPUTISSUANCE': 0xcc,
    'OP_PUSHCURRENTINPUTINDEX': 0xcd, 'OP_INSPECTOUTPUTASSET': 0xce, 'OP_INSPECTOUTPUTVALUE': 0xcf,
    'OP_INSPECTOUTPUTNONCE': 0xd0, 'OP_INSPECTOUTPUTSCRIPTPUBKEY': 0xd1, 'OP_INSPECTVERSION': 0xd2,
    'OP_INSPECTLOCKTIME': 0xd3, 'OP_INSPECTNUMINPUTS': 0xd4, 'OP_INSPECTNUMOUTPUTS': 0xd5, 'OP_TXWEIGHT': 0xd6,
    'OP_ADD64': 0xd7, 'OP_SUB64': 0xd8, 'OP_MUL64': 0xd9, 'OP_DIV64': 0xda, 'OP_NEG64': 0xdb,
    'OP_LESSTHAN64': 0xdc, 'OP_LESSTHANOREQUAL64': 0xdd, 'OP_GREATERTHAN64': 0xde,
    'OP_GREATERTHANOREQUAL64': 0xdf, 'OP_SCRIPTNUMTOLE64': 0xe0, 'OP_LE64TOSCRIPTNUM': 0xe1,
    'OP_LE32TOLE64': 0xe2, 'OP_ECMULSCALARVERIFY': 0xe3, 'OP_TWEAKVERIFY': 0xe4,
}


def ref_op(s, pos):
    """(opcode, data or None, next position) as GetScriptOp; None when malformed."""
    if pos >= len(s):
        return None
    op = s[pos]
    pos += 1
    if op > 0x4e:
        return op, None, pos
    if op < 0x4c:
        n = op
    else:
        k = {0x4c: 1, 0x4d: 2, 0x4e: 4}[op]
        if len(s) - pos < k:
            return None
        n = int.from_bytes(s[pos:pos + k], 'little')
        pos += k
    if len(s) - pos < n:
        return None
    return op, s[pos:pos + n], pos + n


def ref_pegout(s):
    r = ref_op(s, 0)
    if r is None or r[0] != 0x6a:
        return None
    r = ref_op(s, r[2])
    if r is None or r[1] is None or len(r[1]) != 32:
        return None
    g = r[1]
    r = ref_op(s, r[2])
    if r is None or not r[1]:
        return None
    return g, r[1]


def ref_unspendable(s):
    return len(s) == 0 or s[0] == 0x6a or len(s) > 10000


def as_attribute(f, what):
    try:
        bool(f)
    except TypeError:
        return
    fail('%s used as an attribute is not refused', what)


def check_script(case):
    s = case['script']
    want = ref_pegout(s)
    with params(case['params']):
        objs = [es.CElementsScript(s), es.CElementsScript(bytearray(s)),
                ec.CElementsTxOut(ec.CConfidentialValue(), es.CElementsScript(s)).scriptPubKey]
        if case['params'].startswith('elements'):
            objs.append(CScript(s))
        for o in objs:
            got = o.get_pegout_data()
            if want is None:
                check(got is None, 'peg-out data of a script that is no peg-out: %r', got)
            else:
                check(got is not None, 'no peg-out data for a peg-out')
                check(len(got) == 2, 'peg-out data is a pair')
                check_eq(bytes(got[0]), want[0], 'genesis hash')
                check_eq(bytes(got[1]), want[1], 'destination script')
                check(isinstance(got[1], es.CElementsScript), 'destination has type %s', type(got[1]).__name__)
            check_eq(o.is_pegout(), want is not None, 'is_pegout')
            check_eq(o.is_unspendable(), ref_unspendable(s), 'is_unspendable')
            check(o.is_pegout() in (True, False) and isinstance(o.is_unspendable(), bool), 'not a bool')
            as_attribute(o.is_pegout, 'is_pegout')
            as_attribute(o.is_unspendable, 'is_unspendable')
            check_eq(bytes(o), s, 'script after the calls')
    lb = ['pegout' if want else 'no pegout', 'unspendable' if ref_unspendable(s) else 'spendable']
    if len(s) > 9000:
        lb.append('around the size limit')
    return bool(want) or s[:1] == b'\x6a' or len(s) > 9000, lb


def push(d, how):
    n = len(d)
    if how == 0 and n < 0x4c:
        return bytes([n]) + d
    if how <= 1 and n < 256:
        return b'\x4c' + bytes([n]) + d
    if how <= 2 and n < 65536:
        return b'\x4d' + n.to_bytes(2, 'little') + d
    return b'\x4e' + n.to_bytes(4, 'little') + d


@st.composite
def pegoutish(draw):
    head = draw(gen.weighted((12, st.just(b'\x6a')), (1, st.just(b'')), (1, st.sampled_from([b'\x00', b'\x61', b'\x6b', b'\x01\x6a']))))
    n = draw(gen.weighted((8, st.just(32)), (1, st.sampled_from([0, 1, 20, 31, 33, 64, 75, 76]))))
    g = draw(st.binary(min_size=n, max_size=n))
    d = draw(gen.weighted((5, st.binary(min_size=1, max_size=40)), (2, gen.sized_bytes()), (1, st.just(b''))))
    how = st.integers(0, 3)
    second = draw(gen.weighted((10, how.map(lambda h: push(g, h))), (1, st.sampled_from([b'\x51', b'\x60', b'\x4f', b'\xac', b'']))))
    third = draw(gen.weighted((10, how.map(lambda h: push(d, h))), (1, st.sampled_from([b'\x51', b'\x60', b'\x4f', b'\xac', b'\x6a', b'']))))
    tail = draw(gen.weighted((3, st.just(b'')), (2, st.lists(st.binary(max_size=40).map(lambda b: push(b, 0)), max_size=3).map(b''.join)),
                             (1, st.binary(max_size=6)), (1, st.sampled_from([b'\x4c', b'\x4d\xff', b'\x4e\x00', b'\x05ab', b'\x4e\xff\xff\xff\xff']))))
    s = head + second + third + tail
    if draw(gen.weighted((6, st.just(False)), (1, st.just(True)))):
        s = s[:draw(st.integers(0, len(s)))]
    return s


def strat_script():
    big = st.builds(lambda n, c: (c * n)[:n], st.sampled_from([9998, 9999, 10000, 10001, 10002, 10255, 10256, 20000]),
                    st.sampled_from([b'\x00', b'\x51', b'\xac', b'\x4c', b'\x6a']))
    s = gen.weighted((8, pegoutish()), (2, st.binary(max_size=80)), (1, big), (1, gen.sized_bytes()),
                     (1, st.sampled_from([b'', b'\x6a', b'\x6a\x6a', b'\x00', b'\x00\x6a', b'\x50', b'\xff'])))
    return st.fixed_dictionaries(dict(script=s, params=st.sampled_from(PARAMS)))


def check_out(case):
    s, v, a, n = case['spk'], case['value'], case['asset'], case['nonce']
    fee = s == b'' and v[:1] == b'\x01' and a[:1] == b'\x01'
    null = not (s or v or a or n)
    with params(case['params']):
        for mutable in (False, True):
            o = mk_out(case, mutable)
            for x in (o, o.to_mutable(), o.to_immutable(), o.clone(), type(o).deserialize(o.serialize())):
                check_eq(x.is_fee(), fee, 'is_fee (mutable=%s)' % mutable)
                check_eq(x.is_null(), null, 'is_null (mutable=%s)' % mutable)
                as_attribute(x.is_fee, 'is_fee')
        # classification follows edits
        m = cls('TxOut', True)()
        check_eq((m.is_null(), m.is_fee()), (True, False), 'empty output')
        m.nValue = ec.CConfidentialValue(v)
        m.nAsset = ec.CConfidentialAsset(a)
        check_eq(m.is_fee(), v[:1] == b'\x01' and a[:1] == b'\x01', 'is_fee after edits')
        m.scriptPubKey = es.CElementsScript(s)
        m.nNonce = ec.CConfidentialNonce(n)
        check_eq((m.is_null(), m.is_fee()), (null, fee), 'output after all edits')
    return not s, ['fee' if fee else 'no fee', 'null' if null else 'not null']


def strat_out():
    return st.fixed_dictionaries(dict(
        spk=gen.weighted((3, st.just(b'')), (1, gen.sized_bytes()), (1, st.sampled_from([b'\x6a', b'\x00', b'\x51']))),
        value=gen.value_field(), asset=gen.asset_field(), nonce=gen.nonce_field(), params=st.sampled_from(PARAMS)))


def cases_ops(tier):
    return [dict(name=k) for k in sorted(OPS)]


def check_ops(case):
    name = case['name']
    op = getattr(es, name)
    check_eq(int(op), OPS[name], name)
    for other in OPS:
        check((getattr(es, other) == op) == (other == name), '%s and %s', name, other)
    with params('elements'):
        for sc in (es.CElementsScript, CScript):
            check_eq(bytes(sc([op])), bytes([OPS[name]]), 'script made of %s' % name)
            b = bytes(sc([b'\x01\x02', op, 5]))
            check_eq(b, b'\x02\x01\x02' + bytes([OPS[name]]) + b'\x55', 'script with %s' % name)
            check_eq(list(sc(b)), [b'\x01\x02', op, 5], 'script read back')
            check(not sc(b).is_pegout() and not sc(b).is_unspendable(), 'classified')
    return True, []


PROP = Prop('C16', [
    Sub('ops', check_ops, cases=cases_ops, doc='opcode table of Elements Core'),
    Sub('script', check_script, strat_script, quick=6000, thorough=300000,
        doc='peg-out data and spendability against an independent parser'),
    Sub('out', check_out, strat_out, quick=3000, thorough=60000, doc='fee and null outputs'),
], rule='script structured like a peg-out with one deviation, or output with/without script; non-trivial: starts with '
        'OP_RETURN or near the size limit; outputs without script', zkp=False)
