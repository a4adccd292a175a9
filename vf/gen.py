"""Hypothesis strategies of plain (JSON-able) cases."""
import copy

from hypothesis import strategies as st

MAX_MONEY = 21000000 * 100000000

U32_EDGES = [0, 1, 2, 0x7f, 0xff, 0x100, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff,
             0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]


@st.composite
def _weighted(draw, alts):
    return draw(draw(st.sampled_from(alts)))


def weighted(*alts):
    """weighted((3, a), (1, b)): like one_of, which drops duplicates, but with
    weights. Shrinks towards the first."""
    return _weighted([s for w, s in alts for _ in range(w)])


def u32():
    return st.one_of(st.sampled_from(U32_EDGES), st.integers(0, 0xffffffff))


def i32():
    return st.one_of(st.sampled_from([0, 1, 2, 3, -1, -2, 0x7fffffff, -0x80000000]),
                     st.integers(-0x80000000, 0x7fffffff))


def out_index():
    """Index of a spent output (without the flag bits)."""
    return st.one_of(st.sampled_from([0, 1, 2, 255, 256, 65535, 0x3ffffffe]),
                     st.integers(0, 0x3ffffffe))


def b32(edges=True):
    r = st.binary(min_size=32, max_size=32)
    if edges:
        return st.one_of(r, st.sampled_from([b'\x00' * 32, b'\xff' * 32,
                                             b'\x00' * 31 + b'\x01', b'\x01' + b'\x00' * 31]))
    return r


def sized_bytes(small=40):
    """Mostly short, sometimes across the length-prefix boundaries."""
    return weighted(
        (5, st.binary(max_size=small)),
        (1, st.builds(lambda n, b: (b or b'\x00') * 1 + b'\x5a' * max(0, n - max(1, len(b))),
                  st.sampled_from([75, 76, 77, 251, 252, 253, 254, 255, 256, 257, 519, 520, 521]),
                  st.binary(max_size=4))))


def long_bytes():
    return st.builds(lambda n, b: (b * (n // len(b) + 1))[:n],
                     st.sampled_from([65534, 65535, 65536, 65537, 70000]),
                     st.binary(min_size=1, max_size=5))


def mid_bytes():
    """The sizes real proofs and redeem scripts have."""
    return st.builds(lambda n, b: (b * (n // len(b) + 1))[:n],
                     st.sampled_from([1025, 2049, 2893, 4097, 4174, 5134, 10001]),
                     st.binary(min_size=1, max_size=5))


def proof():
    return weighted((12, sized_bytes()), (1, mid_bytes()))


def maybe_long(p_long=1):
    return weighted((30, sized_bytes()), (p_long, long_bytes()))


def amounts():
    return st.one_of(st.sampled_from([0, 1, 2, 255, 256, MAX_MONEY - 1, MAX_MONEY]),
                     st.integers(0, MAX_MONEY))


def amounts64():
    return st.one_of(amounts(), st.sampled_from([-1, -2 ** 63, 2 ** 63 - 1, MAX_MONEY + 1]),
                     st.integers(-2 ** 63, 2 ** 63 - 1))


def value_field(null=True, commit=True):
    alts = [st.builds(lambda v: b'\x01' + v.to_bytes(8, 'big', signed=True), amounts64())]
    if null:
        alts.append(st.just(b''))
    if commit:
        alts.append(st.builds(lambda p, b: bytes([p]) + b, st.sampled_from([8, 9]), b32()))
    return st.one_of(*alts)


def asset_field(null=True, commit=True):
    alts = [st.builds(lambda b: b'\x01' + b, b32())]
    if null:
        alts.append(st.just(b''))
    if commit:
        alts.append(st.builds(lambda p, b: bytes([p]) + b, st.sampled_from([10, 11]), b32()))
    return st.one_of(*alts)


def nonce_field():
    return st.one_of(st.just(b''),
                     st.builds(lambda p, b: bytes([p]) + b, st.sampled_from([1, 2, 3]), b32()))


def issuance(allow_null=False):
    s = st.fixed_dictionaries(dict(
        bn=st.one_of(st.just(b'\x00' * 32), b32()), ent=b32(),
        amt=value_field(), keys=value_field()))
    if not allow_null:
        s = s.map(lambda d: d if d['amt'] or d['keys'] else dict(d, amt=b'\x01' + b'\x00' * 8))
    return s


def stack(max_size=3, item=None):
    return st.lists(item if item is not None else sized_bytes(20), max_size=max_size)


def _inwit(long=False):
    big = maybe_long() if long else proof()
    return st.fixed_dictionaries(dict(ar=big, kr=proof(), sw=stack(), pw=stack()))


def inwit(long=False):
    null = st.just({'ar': b'', 'kr': b'', 'sw': [], 'pw': []})
    # mostly one of the parts only, so that every part decides on its own
    def one(k, v):
        d = {'ar': b'', 'kr': b'', 'sw': [], 'pw': []}
        d[k] = v
        return d
    return st.one_of(
        null, _inwit(long),
        st.builds(one, st.sampled_from(['ar', 'kr']),
                  weighted((8, st.binary(min_size=1, max_size=5)), (1, mid_bytes()))),
        st.builds(one, st.sampled_from(['sw', 'pw']),
                  st.lists(st.binary(max_size=3), min_size=1, max_size=2)))


def outwit(long=False):
    big = maybe_long() if long else proof()
    return st.one_of(
        st.just({'sp': b'', 'rp': b''}),
        st.fixed_dictionaries(dict(sp=proof(), rp=big)),
        st.builds(lambda k, v: dict({'sp': b'', 'rp': b''}, **{k: v}),
                  st.sampled_from(['sp', 'rp']),
                  weighted((8, st.binary(min_size=1, max_size=5)), (1, mid_bytes()))))


def _no_marker(i):
    # the last index with both flag bits set would read as the coinbase marker
    if i['n'] == 0x3fffffff and i['pegin'] and i['iss'] is not None:
        return dict(i, pegin=False)
    return i


def pos():
    """Index of an input, output or witness (taken modulo their number)."""
    return weighted((4, st.integers(0, 5)), (1, st.integers(0, 15)))


def txin(long=False, coinbase=True, nulliss=False, top=False):
    idx = out_index()
    if top:
        idx = weighted((9, idx), (1, st.just(0x3fffffff)))
    plain = st.fixed_dictionaries(dict(
        txid=b32(), n=idx, ss=maybe_long() if long else sized_bytes(),
        seq=u32(), pegin=st.booleans(),
        iss=weighted((2, st.none()), (1, issuance(nulliss))), wit=inwit(long)))
    if top:
        plain = plain.map(_no_marker)
    if not coinbase:
        return plain
    cb = st.fixed_dictionaries(dict(
        txid=b32(), n=st.just(0xffffffff), ss=sized_bytes(), seq=u32(),
        pegin=st.just(False), iss=st.none(), wit=inwit()))
    return weighted((9, plain), (1, cb))


def txout(long=False):
    any_ = st.fixed_dictionaries(dict(
        asset=asset_field(), value=value_field(), nonce=nonce_field(),
        spk=maybe_long() if long else sized_bytes(), wit=outwit(long)))
    fee = st.fixed_dictionaries(dict(
        asset=asset_field(False, False), value=value_field(False, False),
        nonce=weighted((5, st.just(b'')), (1, nonce_field())), spk=st.just(b''),
        wit=weighted((5, st.just({'sp': b'', 'rp': b''})), (1, outwit()))))
    return weighted((8, any_), (1, fee))


def _spread(pool, picks):
    return [copy.deepcopy(pool[p % len(pool)]) for p in picks]


def wide(item):
    """Longer lists than the usual ones, of a few different entries."""
    return st.builds(_spread, st.lists(item, min_size=1, max_size=3),
                     st.lists(st.integers(0, 2), min_size=5, max_size=14))


NULLW_IN = {'ar': b'', 'kr': b'', 'sw': [], 'pw': []}
NULLW_OUT = {'sp': b'', 'rp': b''}


def _strip(tx):
    return dict(tx, vin=[dict(i, wit=dict(NULLW_IN)) for i in tx['vin']],
                vout=[dict(o, wit=dict(NULLW_OUT)) for o in tx['vout']])


def _strip_but(tx, k):
    """Only one input or output keeps its witness, which has some content."""
    t = copy.deepcopy(_strip(tx))
    n = len(tx['vin']) + len(tx['vout'])
    if not n:
        return t
    k %= n
    if k >= len(tx['vout']):
        w = tx['vin'][k - len(tx['vout'])]['wit']
        t['vin'][k - len(tx['vout'])]['wit'] = dict(w) if w != NULLW_IN else \
            [dict(w, ar=b'a'), dict(w, kr=b'k'), dict(w, sw=[b'']), dict(w, pw=[b'p'])][k % 4]
    else:
        w = tx['vout'][k]['wit']
        t['vout'][k]['wit'] = dict(w) if w != NULLW_OUT else [dict(w, sp=b's'), dict(w, rp=b'r')][k % 2]
    return t


def tx(min_in=0, max_in=4, min_out=0, max_out=4, long=False, coinbase=True,
       many=False, witness=None, top=False):
    sizes_in = st.lists(txin(long, coinbase, top=top), min_size=min_in, max_size=max_in)
    sizes_out = st.lists(txout(long), min_size=min_out, max_size=max_out)
    if max_in >= 3:
        sizes_in = weighted((9, sizes_in), (1, wide(txin(False, coinbase, top=top))))
    if max_out >= 3:
        sizes_out = weighted((9, sizes_out), (1, wide(txout(False))))
    if many:
        # counts across the one-byte length prefix
        rep = st.sampled_from([252, 253, 254, 300])
        sizes_in = st.one_of(sizes_in, st.builds(
            lambda i, n: [i] * n, txin(False, coinbase), rep))
        sizes_out = st.one_of(sizes_out, st.builds(
            lambda o, n: [o] * n, txout(False), rep))
    s = st.fixed_dictionaries(dict(v=i32(), lt=u32(), vin=sizes_in, vout=sizes_out))
    if witness is None:
        return weighted((6, s), (1, s.map(_strip)),
                        (1, st.builds(_strip_but, s, weighted((1, pos()), (1, st.integers(0, 29))))))
    if witness is False:
        return s.map(_strip)
    return s


def late(top=False):
    """A wide transaction where one input or output, often a late one, has the
    only witness."""
    s = st.fixed_dictionaries(dict(v=i32(), lt=u32(), vin=wide(txin(False, True, top=top)), vout=wide(txout(False))))
    return st.builds(lambda t, k: _strip_but(t, k + len(t['vin']) + len(t['vout'])), s, st.integers(-15, 29))


def huge():
    """A recipe for a transaction with hundreds of inputs or outputs; see
    build_huge."""
    size = weighted((2, st.sampled_from([252, 253, 254, 255, 256, 257, 300])), (1, st.integers(1, 5)))
    return st.fixed_dictionaries(dict(
        v=i32(), lt=u32(), ins=st.lists(txin(False, False), min_size=1, max_size=3), outs=st.lists(txout(False), min_size=1, max_size=3),
        nin=size, nout=size, salt=st.integers(0, 2 ** 31)))


def build_huge(r):
    """All inputs and outputs differ."""
    vin, vout = [], []
    for k in range(r['nin']):
        i = copy.deepcopy(r['ins'][(k * k + r['salt']) % len(r['ins'])])
        i['n'] = (i['n'] + k) % 2 ** 30
        i['seq'] = (i['seq'] + 7 * k) % 2 ** 32
        vin.append(i)
    for k in range(r['nout']):
        o = copy.deepcopy(r['outs'][(k * k + r['salt']) % len(r['outs'])])
        if o['spk']:
            o['spk'] = o['spk'] + k.to_bytes(2, 'big')
        elif len(o['value']) == 9:
            o['value'] = b'\x01' + (k + 1).to_bytes(8, 'big')
        vout.append(o)
    return dict(v=r['v'], lt=r['lt'], vin=vin, vout=vout)


def huge_index():
    return weighted((2, st.sampled_from([0, 1, 127, 128, 251, 252, 253, 254, 255, 256, 299])), (1, pos()))
