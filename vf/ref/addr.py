"""Address strings of the Bitcoin and Elements networks, from their specifications.

Independent of the library: base58check from its definition, bech32 (BIP173,
BIP350) and blech32 with the generator constants of Elements Core's blech32.cpp
and a polynomial-remainder formulation of the checksum.
"""
import hashlib

B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
CS = 'qpzry9x8gf2tvdw0s3jn54khce6mua7l'

# kind -> payload length
KINDS = {'p2pkh': 20, 'p2sh': 20, 'p2wpkh': 20, 'p2wsh': 32, 'p2tr': 32}
WITVER = {'p2wpkh': 0, 'p2wsh': 0, 'p2tr': 1}

NETS = {
    'bitcoin': dict(p2pkh=b'\x00', p2sh=b'\x05', hrp='bc', blinded=None, blech=None),
    'bitcoin/testnet': dict(p2pkh=b'\x6f', p2sh=b'\xc4', hrp='tb', blinded=None, blech=None),
    'bitcoin/regtest': dict(p2pkh=b'\x6f', p2sh=b'\xc4', hrp='bcrt', blinded=None, blech=None),
    'bitcoin/signet': dict(p2pkh=b'\x6f', p2sh=b'\xc4', hrp='tb', blinded=None, blech=None),
    'elements': dict(p2pkh=b'\xeb', p2sh=b'\x4b', hrp='ert', blinded=b'\x04', blech='el'),
    'elements/liquidv1': dict(p2pkh=b'\x39', p2sh=b'\x27', hrp='ex', blinded=b'\x0c', blech='lq'),
}


def b58enc(b):
    n = int.from_bytes(b, 'big')
    s = ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\x00'))) + s


def b58dec(s):
    n = 0
    for c in s:
        i = B58.find(c)
        if i < 0:
            return None
        n = n * 58 + i
    body = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return b'\x00' * (len(s) - len(s.lstrip('1'))) + body


def chk4(d):
    return hashlib.sha256(hashlib.sha256(d).digest()).digest()[:4]


def b58check(d):
    return b58enc(d + chk4(d))


def b58check_dec(s):
    b = b58dec(s)
    if b is None or len(b) < 4 or chk4(b[:-4]) != b[-4:]:
        return None
    return b[:-4]


# ---- bech32 family: remainder in GF(32)[x] of a monic generator ------------
# The generator polynomial itself is obtained from the first constant (the
# multiples of it by 2, 4, 8, 16 in GF(32) must be the other four).

GEN = {6: [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3],
       12: [0x7d52fba40bd886, 0x5e8dbf1a03950c, 0x1c3a3c74072a18,
            0x385d72fa0e5139, 0x7093e5a608865b]}
# value the remainder must have: (bech32, bech32m)
CONST = {6: (1, 0x2bc830a3), 12: (1, 0x455972a3350f7a1)}


def gf_mul(a, b):
    r = 0
    for i in range(5):
        if b >> i & 1:
            r ^= a << i
    for i in range(8, 4, -1):
        if r >> i & 1:
            r ^= 0b101001 << (i - 5)
    return r


GFMUL = [[gf_mul(a, b) for b in range(32)] for a in range(32)]


def gen_poly(n):
    g = GEN[n][0]
    co = [(g >> 5 * (n - 1 - i)) & 31 for i in range(n)]
    return co


_POLY = {n: gen_poly(n) for n in GEN}
for _n in GEN:
    for _i in range(5):
        _v = 0
        for _c in _POLY[_n]:
            _v = _v << 5 | GFMUL[_c][1 << _i]
        assert _v == GEN[_n][_i], 'blech32 constants are inconsistent'


def remainder(values, n):
    """Of (x^len + values) modulo the generator, as a list of n coefficients."""
    r = [0] * (n - 1) + [1]
    g = _POLY[n]
    for v in values:
        top = r[0]
        r = r[1:] + [v]
        row = GFMUL[top]
        r = [a ^ row[b] for a, b in zip(r, g)]
    return r


def expand(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def to5(b):
    bits = ''.join('{:08b}'.format(x) for x in b)
    bits += '0' * (-len(bits) % 5)
    return [int(bits[i:i + 5], 2) for i in range(0, len(bits), 5)]


def to8(v):
    """None unless the padding is canonical."""
    bits = ''.join('{:05b}'.format(x) for x in v)
    k = len(bits) % 8
    if k >= 5 or '1' in bits[len(bits) - k:]:
        return None
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - k, 8))


def coeffs(const, n):
    return [(const >> 5 * (n - 1 - i)) & 31 for i in range(n)]


def seg_raw(hrp, values, n, variant):
    """Data part of arbitrary 5-bit values with a correct checksum."""
    r = remainder(expand(hrp) + list(values) + [0] * n, n)
    cs = [a ^ b for a, b in zip(r, coeffs(CONST[n][variant], n))]
    return hrp + '1' + ''.join(CS[v] for v in list(values) + cs)


def seg_enc(hrp, ver, prog, n):
    return seg_raw(hrp, [ver] + to5(prog), n, 0 if ver == 0 else 1)


def seg_dec(hrp, s, n):
    """(version, program) or None. n = 6: bech32, 12: blech32."""
    if any(not 33 <= ord(c) <= 126 for c in s):
        return None
    if s != s.lower() and s != s.upper():
        return None
    s = s.lower()
    if len(s) > (90 if n == 6 else 1000):
        return None
    pos = s.rfind('1')
    if pos < 1 or len(s) - pos - 1 < n or s[:pos] != hrp:
        return None
    v = [CS.find(c) for c in s[pos + 1:]]
    if min(v) < 0:
        return None
    r = remainder(expand(hrp) + v, n)
    if r == coeffs(CONST[n][0], n):
        variant = 0
    elif r == coeffs(CONST[n][1], n):
        variant = 1
    else:
        return None
    v = v[:-n]
    if not v:
        return None
    ver = v[0]
    prog = to8(v[1:])
    extra = 0 if n == 6 else 33
    if prog is None or not 2 <= len(prog) <= 40 + extra or ver > 16:
        return None
    if ver == 0 and len(prog) not in (20 + extra, 32 + extra):
        return None
    if (ver == 0) != (variant == 0):
        return None
    return ver, prog


# ---- addresses --------------------------------------------------------------

def encode(net, kind, payload, blind=None):
    """String of an address; blind is a 33-byte key for confidential ones."""
    t = NETS[net]
    if kind in ('p2pkh', 'p2sh'):
        if blind is None:
            return b58check(t[kind] + payload)
        return b58check(t['blinded'] + t[kind] + blind + payload)
    if blind is None:
        return seg_enc(t['hrp'], WITVER[kind], payload, 6)
    return seg_enc(t['blech'], WITVER[kind], blind + payload, 12)


def seg_kind(ver, n):
    for k, v in WITVER.items():
        if v == ver and KINDS[k] == n:
            return k
    return None


def classify(net, s):
    """(kind, payload, blinding key or None) of an address string, or None."""
    t = NETS[net]
    d = b58check_dec(s)
    if d is not None:
        for kind in ('p2pkh', 'p2sh'):
            pfx = t[kind]
            if d[:1] == pfx and len(d) == 21:
                return kind, d[1:], None
            if t['blinded'] and d[:2] == t['blinded'] + pfx and len(d) == 2 + 33 + 20:
                return kind, d[35:], d[2:35]
    r = seg_dec(t['hrp'], s, 6)
    if r is not None:
        k = seg_kind(r[0], len(r[1]))
        if k:
            return k, r[1], None
    if t['blech']:
        r = seg_dec(t['blech'], s, 12)
        if r is not None and len(r[1]) > 33:
            k = seg_kind(r[0], len(r[1]) - 33)
            if k:
                return k, r[1][33:], r[1][:33]
    return None


def script(kind, payload):
    return {'p2pkh': b'\x76\xa9\x14%s\x88\xac', 'p2sh': b'\xa9\x14%s\x87',
            'p2wpkh': b'\x00\x14%s', 'p2wsh': b'\x00\x20%s',
            'p2tr': b'\x51\x20%s'}[kind] % payload


def classify_script(b):
    for kind, n in KINDS.items():
        for off in range(0, 4):
            if len(b) >= off + n and script(kind, b[off:off + n]) == b:
                return kind, b[off:off + n]
    return None
