"""Strategies and class tables shared by the address checks."""
from hypothesis import strategies as st

from . import gen
from .build import *  # noqa
from .ref import addr, curve

import bitcointx.wallet as bw  # noqa: E402
import elementstx.wallet as ew  # noqa: E402

ENETS = ['elements', 'elements/liquidv1']
NETS = list(addr.NETS)
NETNAME = {'elements': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1', 'bitcoin': 'Bitcoin',
           'bitcoin/testnet': 'BitcoinTestnet', 'bitcoin/regtest': 'BitcoinRegtest',
           'bitcoin/signet': 'BitcoinSignet'}
KNAME = {'p2pkh': 'P2PKH', 'p2sh': 'P2SH', 'p2wpkh': 'P2WPKH', 'p2wsh': 'P2WSH', 'p2tr': 'P2TR'}
KINDS = list(KNAME)
BASE58 = ('p2pkh', 'p2sh')


def klass(name):
    return getattr(ew, name) if hasattr(ew, name) else getattr(bw, name)


def leaf(net, kind, conf):
    return klass(KNAME[kind] + NETNAME[net] + ('Confidential' if conf else '') + 'Address')


def generic(kind, conf):
    return klass(KNAME[kind] + 'Coin' + ('Confidential' if conf else '') + 'Address')


def family(kind, conf):
    """Names of the classes in between, with NET to be replaced by Coin or a network."""
    r = ['CNETAddress']
    r.append('CBase58NETAddress' if kind in BASE58 else None if conf else 'CBech32NETAddress')
    if conf:
        r.append('CNETConfidentialAddress')
        r.append('CBase58NETConfidentialAddress' if kind in BASE58 else 'CBlech32NETConfidentialAddress')
    return [x for x in r if x]


ALL_FAMILY = ['CNETAddress', 'CBase58NETAddress', 'CBech32NETAddress', 'CNETConfidentialAddress',
              'CBase58NETConfidentialAddress', 'CBlech32NETConfidentialAddress']


def payload(kind):
    n = addr.KINDS[kind]
    return st.one_of(st.binary(min_size=n, max_size=n),
                     st.sampled_from([b'\x00' * n, b'\xff' * n, b'\x00' * (n - 1) + b'\x01']))


def secret():
    return st.one_of(st.binary(min_size=32, max_size=32).map(
        lambda b: (int.from_bytes(b, 'big') % (curve.N - 1) + 1).to_bytes(32, 'big')),
        st.sampled_from([1, 2, curve.N - 1]).map(lambda n: n.to_bytes(32, 'big')))


# Multiples of the base point, so that a case carries the key itself and is
# cheap to produce.
_POINTS = []


def _points():
    p = curve.G
    if not _POINTS:
        for _ in range(64):
            _POINTS.append(curve.ser(p))
            p = curve.add(p, p)
    return _POINTS


def blindkey():
    """A valid compressed public key of either parity."""
    def x(b):
        n = int.from_bytes(b[1:], 'big') % curve.P
        while curve.lift(n) is None:
            n = (n + 1) % curve.P
        return bytes([2 + b[0] % 2]) + n.to_bytes(32, 'big')
    return gen.weighted((3, st.binary(min_size=33, max_size=33).map(x)),
                        (1, st.deferred(lambda: st.sampled_from(_points()))))


def address(nets=None, confidential=None):
    """Plain description of an address: net, kind, payload, blind."""
    @st.composite
    def s(draw):
        net = draw(st.sampled_from(nets or NETS))
        kind = draw(st.sampled_from(KINDS))
        conf = net in ENETS and (draw(st.booleans()) if confidential is None else confidential)
        return dict(net=net, kind=kind, payload=draw(payload(kind)),
                    blind=draw(blindkey()) if conf else None)
    return s()


def to_str(a):
    return addr.encode(a['net'], a['kind'], a['payload'], a['blind'])


# ---- changing strings -------------------------------------------------------

def corruption():
    """An edit of a string: list of [op, position (fraction), character index]."""
    ops = st.sampled_from(['sub', 'sub', 'sub', 'swap', 'ins', 'del', 'dup', 'trunc', 'case', 'upper',
                           'prefix', 'suffix', 'move', 'qbefore', 'any'])
    return st.lists(st.tuples(ops, st.integers(0, 9999), st.integers(0, 9999)).map(list),
                    min_size=1, max_size=4)


ANYCH = ['1', 'b', 'i', 'o', 'O', '0', 'I', 'l', ' ', '\n', '\t', '\x00', '\x7f', '!', '~', 'é', 'İ',
         'K', '１', '\ud800', '\U0001f600']


def corrupt(s, edits, charset):
    for op, p, c in edits:
        if not s and op not in ('ins', 'prefix', 'suffix', 'any'):
            continue
        i = p % len(s) if s else 0
        ch = charset[c % len(charset)]
        if op == 'sub':
            s = s[:i] + ch + s[i + 1:]
        elif op == 'swap':
            j = c % len(s)
            t = list(s)
            t[i], t[j] = t[j], t[i]
            s = ''.join(t)
        elif op == 'ins':
            s = s[:i] + ch + s[i:]
        elif op == 'del':
            s = s[:i] + s[i + 1:]
        elif op == 'dup':
            s = s[:i] + s[i] + s[i:]
        elif op == 'trunc':
            s = s[:i]
        elif op == 'case':
            s = s[:i] + s[i].swapcase() + s[i + 1:]
        elif op == 'upper':
            s = s.upper()
        elif op == 'prefix':
            s = ch + s
        elif op == 'suffix':
            s = s + ch
        elif op == 'move':
            j = c % len(s)
            t = list(s)
            t.insert(j, t.pop(i))
            s = ''.join(t)
        elif op == 'qbefore':
            s = s[:-1] + 'q' * (1 + c % 3) + s[-1:]
        elif op == 'any':
            s = s[:i] + ANYCH[c % len(ANYCH)] + s[i:]
    return s
