"""secp256k1 in plain Python: enough to judge keys, tweaks and tagged hashes."""
import hashlib

P = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P) % P
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P) % P
    x = (m * m - a[0] - b[0]) % P
    return (x, (m * (a[0] - x) - a[1]) % P)


def mul(k, p=G):
    r = None
    k %= N
    while k:
        if k & 1:
            r = add(r, p)
        p = add(p, p)
        k >>= 1
    return r


def neg(p):
    return None if p is None else (p[0], P - p[1])


def lift(x):
    """Point with even y, or None."""
    if not 0 <= x < P:
        return None
    s = (x * x * x + 7) % P
    y = pow(s, (P + 1) // 4, P)
    if y * y % P != s:
        return None
    return (x, y if y % 2 == 0 else P - y)


def ser(p):
    return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, 'big')


def parse(b):
    """A public key in any of the encodings libsecp256k1 accepts, or None."""
    if len(b) == 33 and b[0] in (2, 3):
        p = lift(int.from_bytes(b[1:], 'big'))
        if p is None:
            return None
        return p if b[0] == 2 else neg(p)
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P or y >= P or (y * y - x * x * x - 7) % P:
            return None
        if b[0] != 4 and (b[0] & 1) != (y & 1):
            return None
        return (x, y)
    return None


def pub(secret):
    return ser(mul(int.from_bytes(secret, 'big')))


def tagged(tag, msg):
    t = hashlib.sha256(tag.encode()).digest()
    return hashlib.sha256(t + t + msg).digest()


def ecdsa_ok(pubkey, digest, der):
    """Whether der (strict enough for signatures made by libsecp256k1) is a signature of digest."""
    q = parse(pubkey)
    if q is None or len(der) < 8 or der[0] != 0x30 or der[1] != len(der) - 2 or der[2] != 2:
        return False
    n = der[3]
    if der[4 + n] != 2 or 6 + n + der[5 + n] != len(der):
        return False
    r, s = int.from_bytes(der[4:4 + n], 'big'), int.from_bytes(der[6 + n:], 'big')
    if not (0 < r < N and 0 < s < N):
        return False
    w = pow(s, -1, N)
    p = add(mul(int.from_bytes(digest, 'big') * w), mul(r * w, q))
    return p is not None and p[0] % N == r


def schnorr_ok(xonly, msg, sig):
    """BIP340"""
    p = lift(int.from_bytes(xonly, 'big'))
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if len(sig) != 64 or p is None or r >= P or s >= N:
        return False
    e = int.from_bytes(tagged('BIP0340/challenge', sig[:32] + xonly + msg), 'big') % N
    q = add(mul(s), mul(N - e, p))
    return q is not None and q[1] % 2 == 0 and q[0] == r
