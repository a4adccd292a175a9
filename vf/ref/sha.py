"""SHA-256 compression function, for midstates (FIPS 180-4, plain Python)."""
import math


def _primes(n):
    r = []
    i = 2
    while len(r) < n:
        if all(i % p for p in r):
            r.append(i)
        i += 1
    return r


def _root(n, k):
    """First 32 bits of the fractional part of the k-th root of n."""
    x = n << (32 * k)
    lo, hi = 0, 1 << 60
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= x:
            lo = m
        else:
            hi = m - 1
    return lo & 0xffffffff


K = [_root(p, 3) for p in _primes(64)]
IV = [_root(p, 2) for p in _primes(8)]


def _r(x, n):
    return (x >> n | x << (32 - n)) & 0xffffffff


def midstate(block):
    """State after one 64-byte block, as bytes."""
    assert len(block) == 64
    w = [int.from_bytes(block[i:i + 4], 'big') for i in range(0, 64, 4)]
    for i in range(16, 64):
        a, b = w[i - 15], w[i - 2]
        w.append((w[i - 16] + (_r(a, 7) ^ _r(a, 18) ^ a >> 3) + w[i - 7]
                  + (_r(b, 17) ^ _r(b, 19) ^ b >> 10)) & 0xffffffff)
    s = list(IV)
    for i in range(64):
        e, a = s[4], s[0]
        t1 = s[7] + (_r(e, 6) ^ _r(e, 11) ^ _r(e, 25)) + ((e & s[5]) ^ (~e & s[6])) + K[i] + w[i]
        t2 = (_r(a, 2) ^ _r(a, 13) ^ _r(a, 22)) + ((a & s[1]) ^ (a & s[2]) ^ (s[1] & s[2]))
        s = [(t1 + t2) & 0xffffffff, s[0], s[1], s[2], (s[3] + t1) & 0xffffffff, s[4], s[5], s[6]]
    return b''.join(((x + y) & 0xffffffff).to_bytes(4, 'big') for x, y in zip(s, IV))


_ = math
