import struct

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen
from ..ref import codec

KINDS = {'asset': ec.CConfidentialAsset, 'value': ec.CConfidentialValue,
         'nonce': ec.CConfidentialNonce}


def classify(kind, b):
    size, prefixes = codec.FIELDS[kind]
    if not b:
        return 'null'
    if b[0] == 1 and len(b) == size:
        return 'explicit'
    if b[0] in prefixes and len(b) == 33:
        return 'commitment'
    return None


def raises(exc, fn, what):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        fail('%s: raised %s instead of %s', what, short(e), exc)
    fail('%s: accepted, got %s', what, short(r))


def judge(kind, b):
    cls_ = KINDS[kind]
    size, prefixes = codec.FIELDS[kind]
    if len(b) not in (0, size, 33):
        for t in (bytes, bytearray):
            raises(ValueError, lambda: cls_(t(b)), '%s of length %d' % (kind, len(b)))
        return None
    buf = bytearray(b)
    f = cls_(buf)
    g = cls_(bytes(b))
    for i in range(len(buf)):
        buf[i] ^= 0xff
    buf += b'zz'
    cl = classify(kind, b)
    for x in (f, g):
        check_eq(bytes(x.commitment), b, 'content')
        check(type(x.commitment) is bytes, 'content is not bytes')
        check_eq([x.is_null() is True, x.is_explicit() is True, x.is_commitment() is True],
                 [cl == 'null', cl == 'explicit', cl == 'commitment'], 'class of %s' % kind)
        check_eq([x.is_null() is False, x.is_explicit() is False, x.is_commitment() is False],
                 [cl != 'null', cl != 'explicit', cl != 'commitment'], 'class of %s' % kind)
        check_eq(x.is_valid(), cl is not None, 'validity')
        for p in ('is_null', 'is_explicit', 'is_commitment', 'is_valid'):
            raises(TypeError, lambda: bool(getattr(x, p)), 'predicate %s used as a boolean' % p)
        want = b if b else b'\x00'
        if cl is not None:
            check_eq(x.serialize(), want, 'serialization')
            d = cls_.deserialize(want)
            check(d == x and hash(d) == hash(x) and not d != x, 'decoded field differs')
            check_eq(bytes(d.commitment), b, 'content of decoded field')
            for s in (str(x), repr(x)):
                check(isinstance(s, str) and s.startswith(cls_.__name__), 'text form')
            if kind != 'nonce' and cl == 'explicit':
                content = b[1:][::-1].hex() if kind == 'asset' else str(struct.unpack('>q', b[1:])[0])
                check(content in str(x) and content in repr(x), 'text form lacks the content')
            elif kind == 'nonce' or cl == 'commitment':
                check(b.hex() in repr(x), 'repr lacks the content')
        elif b and b[0] not in (0, 1) + prefixes:
            raises(Exception, lambda: cls_.deserialize(b), 'decoding of prefix %d' % b[0])
        if kind == 'asset':
            if cl == 'explicit':
                check_eq(x.to_asset().data, b[1:], 'asset id')
                check(type(x.to_asset()) is ec.CAsset, 'type of asset id')
            else:
                raises(TypeError, x.to_asset, 'asset id of %s field' % cl)
        if kind == 'value':
            if cl == 'explicit':
                check_eq(x.to_amount(), struct.unpack('>q', b[1:])[0], 'amount')
            else:
                raises(TypeError, x.to_amount, 'amount of %s field' % cl)
    check(f == g and hash(f) == hash(g), 'same content, not equal')
    raises((AttributeError, TypeError), lambda: setattr(f, 'commitment', b'') or 'set', 'assignment')
    return cl


def check_prefix(case):
    """All lengths and prefixes."""
    kind, n = case['kind'], case['n']
    seen = set()
    for p in (range(256) if n else [0]):
        b = (bytes([p]) + case['fill'] * n)[:n]
        seen.add(judge(kind, b))
    return (True, ['%s' % s for s in seen])


def prefix_cases(tier):
    for kind in sorted(KINDS):
        for n in range(71):
            yield dict(kind=kind, n=n, fill=bytes([n * 7 % 256, 0x5a, 0xff]))


def check_content(case):
    kind = case['kind']
    cl = judge(kind, case['a'])
    cl2 = judge(kind, case['b'])
    if cl is not None and cl2 is not None:
        x, y = KINDS[kind](case['a']), KINDS[kind](case['b'])
        check_eq(x == y, case['a'] == case['b'], 'equality')
        check_eq(x != y, case['a'] != case['b'], 'inequality')
    for other in KINDS:
        # a field of another kind is another thing
        if other != kind and cl and classify(other, case['a']):
            check(not KINDS[kind](case['a']) == KINDS[other](case['a']),
                  '%s equals %s', kind, other)
    return (True, [kind + ':%s' % cl])


def strat_content():
    def fields(kind):
        f = {'asset': gen.asset_field, 'value': gen.value_field, 'nonce': gen.nonce_field}[kind]()
        f = st.one_of(f, st.builds(lambda p, b: bytes([p]) + b, st.integers(0, 255), gen.b32()),
                      st.binary(max_size=70))
        near = st.builds(lambda b, p, x: b and b[:p % len(b)] + bytes([b[p % len(b)] ^ x]) + b[p % len(b) + 1:],
                         st.shared(f, key=kind), st.integers(0, 40), st.integers(0, 255))
        return st.fixed_dictionaries(dict(kind=st.just(kind), a=st.shared(f, key=kind),
                                          b=st.one_of(near, f)))
    return st.one_of(*[fields(k) for k in sorted(KINDS)])


BAD = [None, 'text', 1.5, [], (), object, memoryview(b'')]


def check_convert(case):
    v, a = case['v'], case['a']
    for f in (ec.CConfidentialValue(v), ec.CConfidentialValue.from_amount(v)) \
            if -2 ** 63 <= v < 2 ** 63 else ():
        check_eq(f.to_amount(), v, 'amount')
        check_eq(bytes(f.commitment), b'\x01' + v.to_bytes(8, 'big', signed=True), 'content')
        check(f.is_explicit() and not f.is_null() and not f.is_commitment(), 'class')
    if not -2 ** 63 <= v < 2 ** 63:
        raises(Exception, lambda: ec.CConfidentialValue(v), 'amount %d' % v)
        raises(Exception, lambda: ec.CConfidentialValue.from_amount(v), 'amount %d' % v)
    asset = ec.CAsset(a)
    for f in (ec.CConfidentialAsset(asset), ec.CConfidentialAsset.from_asset(asset)):
        check(f.to_asset() == asset and f.to_asset().data == a, 'asset id')
        check_eq(bytes(f.commitment), b'\x01' + a, 'content')
    check_eq(asset.to_hex(), a[::-1].hex(), 'hex of asset id')
    check(asset.to_hex() in repr(asset), 'repr of asset id')
    raises(TypeError, lambda: ec.CConfidentialAsset.from_asset(a), 'asset from bytes')
    raises(TypeError, lambda: ec.CConfidentialValue.from_amount(a), 'amount from bytes')
    raises(TypeError, lambda: ec.CConfidentialAsset(v), 'asset from int')
    raises(TypeError, lambda: ec.CConfidentialNonce(v), 'nonce from int')
    for bad in BAD:
        for c in KINDS.values():
            raises(TypeError, lambda: c(bad), 'field from %s' % type(bad))
    return (True, ['in range' if -2 ** 63 <= v < 2 ** 63 else 'out of range'])


def strat_convert():
    return st.fixed_dictionaries(dict(
        v=st.one_of(gen.amounts64(), st.sampled_from([2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 - 1, -2 ** 64]),
                    st.integers(-2 ** 70, 2 ** 70)),
        a=gen.b32()))


PROP = Prop('C04', [
    Sub('lengths', check_prefix, cases=prefix_cases,
        doc='every prefix at every length 0..70 of each kind, against a three-line classification'),
    Sub('content', check_content, strat_content, quick=3200, thorough=100000,
        doc='pairs of field contents (often differing in one byte): class, encoding, equality, hash'),
    Sub('convert', check_convert, strat_convert, quick=2400, thorough=60000,
        doc='amounts and asset ids to fields and back, refusal of wrong types and ranges'),
], rule='field contents (bytes and bytearray), amounts, asset ids; every case counts', zkp=False)
_ = check_eq
