"""Verification side of confidential transactions, on a handle of the stand-in
library of its own (not the one the code under test uses)."""
import ctypes
import hashlib

from . import env
from .ref import curve

N = curve.N
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(env.zkp_path())
    return _lib


def _buf(n):
    return ctypes.create_string_buffer(n)


def gen64(asset, abf=None):
    """Internal form of the (blinded) generator of an asset id."""
    g = _buf(64)
    if abf is None:
        ok = lib().secp256k1_generator_generate(None, g, bytes(asset))
    else:
        ok = lib().secp256k1_generator_generate_blinded(None, g, bytes(asset), bytes(abf))
    if ok != 1:
        raise env.HarnessError('generator')
    return g.raw


def gen33(asset, abf=None):
    o = _buf(33)
    lib().secp256k1_generator_serialize(None, o, gen64(asset, abf))
    return o.raw


def parse_gen(c):
    """64 bytes, or None when this is no generator."""
    if len(c) != 33 or c[0] not in (10, 11):
        return None
    g = _buf(64)
    return g.raw if lib().secp256k1_generator_parse(None, g, bytes(c)) == 1 else None


def parse_com(c):
    if len(c) != 33 or c[0] not in (8, 9):
        return None
    g = _buf(64)
    return g.raw if lib().secp256k1_pedersen_commitment_parse(None, g, bytes(c)) == 1 else None


def commit33(value, bf, g64):
    """None when it is the point at infinity."""
    c, o = _buf(64), _buf(33)
    if lib().secp256k1_pedersen_commit(None, c, bytes(bf), ctypes.c_uint64(value), g64) != 1:
        return None
    lib().secp256k1_pedersen_commitment_serialize(None, o, c)
    return o.raw


def tally(pos, neg):
    def arr(x):
        return (ctypes.c_char_p * len(x))(*x) if x else None
    return lib().secp256k1_pedersen_verify_tally(
        None, arr(pos), ctypes.c_size_t(len(pos)), arr(neg), ctypes.c_size_t(len(neg))) == 1


def rp_verify(com33, proof, extra, g64):
    """(min, max) or None"""
    c = parse_com(com33)
    if c is None or not proof:
        return None
    mn, mx = ctypes.c_uint64(), ctypes.c_uint64()
    ok = lib().secp256k1_rangeproof_verify(
        None, ctypes.byref(mn), ctypes.byref(mx), c, bytes(proof), ctypes.c_size_t(len(proof)),
        bytes(extra) if extra else None, ctypes.c_size_t(len(extra)), g64)
    return (mn.value, mx.value) if ok == 1 else None


def rp_info(proof):
    """(exponent, mantissa, min, max) or None"""
    e, m = ctypes.c_int(), ctypes.c_int()
    mn, mx = ctypes.c_uint64(), ctypes.c_uint64()
    if lib().secp256k1_rangeproof_info(None, ctypes.byref(e), ctypes.byref(m), ctypes.byref(mn), ctypes.byref(mx),
                                       bytes(proof), ctypes.c_size_t(len(proof))) != 1:
        return None
    return e.value, m.value, mn.value, mx.value


def rp_rewind(nonce, com33, proof, extra, g64):
    """(amount, blinding factor, message) or None"""
    c = parse_com(com33)
    if c is None or not proof:
        return None
    b, v, m, n = _buf(32), ctypes.c_uint64(), _buf(4096), ctypes.c_size_t(64)
    mn, mx = ctypes.c_uint64(), ctypes.c_uint64()
    if lib().secp256k1_rangeproof_rewind(
            None, b, ctypes.byref(v), m, ctypes.byref(n), bytes(nonce), ctypes.byref(mn), ctypes.byref(mx), c,
            bytes(proof), ctypes.c_size_t(len(proof)), bytes(extra) if extra else None,
            ctypes.c_size_t(len(extra)), g64) != 1:
        return None
    return v.value, b.raw, m.raw[:n.value]


def rp_sign(value, min_value, com33, bf, nonce, exp, bits, msg, extra, g64):
    """A range proof, or None"""
    c = parse_com(com33)
    p, n = _buf(5134), ctypes.c_size_t(5134)
    if lib().secp256k1_rangeproof_sign(
            None, p, ctypes.byref(n), ctypes.c_uint64(min_value), c, bytes(bf), bytes(nonce), ctypes.c_int(exp),
            ctypes.c_int(bits), ctypes.c_uint64(value), bytes(msg), ctypes.c_size_t(len(msg)),
            bytes(extra) if extra else None, ctypes.c_size_t(len(extra)), g64) != 1:
        return None
    return p.raw[:n.value]


def surjection(proof, targets64, out64):
    if not proof:
        return False
    return lib().standin_surjection_check(
        bytes(proof), ctypes.c_size_t(len(proof)), b''.join(targets64), ctypes.c_size_t(len(targets64)), out64) == 1


def rp_params(value, min_value, exp, min_bits):
    """What a range proof for these wishes states: (exponent, mantissa, min, max), or None when there is none
    (or none with room for the asset). From the description of the proof format, for 0 <= exp <= 18."""
    if min_value > value or value > 2 ** 63 - 1:
        return None
    bits = min_bits
    if min_value:
        bits = min(bits, 64 - min_value.bit_length())
    if bits > 61:
        exp = 0
    v = value - min_value
    top = (1 << bits) - 1 if bits else 0
    e = 0
    while e < exp and top <= (2 ** 64 - 1) // 10:
        v //= 10
        top *= 10
        e += 1
    mn = value - v * 10 ** e
    mant = max(v.bit_length() if v else 1, bits)
    if (mant + 1) // 2 < 2:
        return None
    return e, mant, mn, mn + ((1 << mant) - 1) * 10 ** e


def nonce_of(secret, pub):
    """Rewind nonce shared by the owner of secret and the owner of pub."""
    p = curve.parse(pub)
    s = curve.mul(int.from_bytes(secret, 'big'), p)
    return hashlib.sha256(hashlib.sha256(curve.ser(s)).digest()).digest()
