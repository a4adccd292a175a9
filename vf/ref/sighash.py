"""Independent models of the Elements signature digests, on plain transactions
(see codec.py), and tables of what each hash type covers."""
import hashlib
import struct

from .codec import (
    RefError, conf, csize, dsha, iss_is_null, outpoint_flags, ser_issuance,
    ser_out, ser_outpoint, ser_outwit, sha256, vbytes)

ALL, NONE, SINGLE, ACP = 1, 2, 3, 0x80
ONE = b'\x01' + b'\x00' * 31


def script_ops(s):
    """Boundaries of the operations of a script; RefError if malformed."""
    p = 0
    res = []
    while p < len(s):
        start = p
        op = s[p]
        p += 1
        n = 0
        if op < 0x4c:
            n = op
        elif op in (0x4c, 0x4d, 0x4e):
            w = {0x4c: 1, 0x4d: 2, 0x4e: 4}[op]
            if p + w > len(s):
                raise RefError('truncated length')
            n = int.from_bytes(s[p:p + w], 'little')
            p += w
        if p + n > len(s):
            raise RefError('truncated push')
        data = s[p:p + n] if op <= 0x4e else None
        p += n
        res.append((start, p, op, data))
    return res


def without_codeseparators(s):
    return b''.join(s[a:b] for a, b, op, _ in script_ops(s) if op != 0xab)


def legacy(tx, idx, script, ht):
    """(digest, failed)"""
    if idx >= len(tx['vin']):
        return ONE, True
    out_type = ht & 0x1f
    if out_type == SINGLE and idx >= len(tx['vout']):
        return ONE, True
    code = without_codeseparators(script)
    r = struct.pack('<i', tx['v'])
    ins = [idx] if ht & ACP else range(len(tx['vin']))
    r += csize(len(ins))
    for n in ins:
        i = tx['vin'][n]
        r += i['txid'] + struct.pack('<I', i['n'])
        r += vbytes(code) if n == idx else b'\x00'
        if n != idx and out_type in (NONE, SINGLE):
            r += b'\x00' * 4
        else:
            r += struct.pack('<I', i['seq'])
        if not iss_is_null(i['iss']):
            r += ser_issuance(i['iss'])
    if out_type == NONE:
        r += b'\x00'
    elif out_type == SINGLE:
        r += csize(idx + 1) + b'\x00\x00\x00\x00' * idx + ser_out(tx['vout'][idx])
    else:
        r += csize(len(tx['vout'])) + b''.join(ser_out(o) for o in tx['vout'])
    r += struct.pack('<I', tx['lt']) + struct.pack('<I', ht & 0xffffffff)
    return dsha(r), False


def _iss(i):
    return b'\x00' if iss_is_null(i['iss']) else ser_issuance(i['iss'])


def segwit_v0(tx, idx, script, ht, amount):
    out_type = ht & 0x1f
    zero = b'\x00' * 32
    vin, vout = tx['vin'], tx['vout']
    i = vin[idx]
    acp = bool(ht & ACP)
    r = struct.pack('<i', tx['v'])
    r += zero if acp else dsha(b''.join(ser_outpoint(x['txid'], x['n']) for x in vin))
    r += zero if acp or out_type in (NONE, SINGLE) else \
        dsha(b''.join(struct.pack('<I', x['seq']) for x in vin))
    r += zero if acp else dsha(b''.join(_iss(x) for x in vin))
    r += ser_outpoint(i['txid'], i['n']) + vbytes(script) + conf(amount)
    r += struct.pack('<I', i['seq'])
    if not iss_is_null(i['iss']):
        r += ser_issuance(i['iss'])
    if out_type == SINGLE:
        r += dsha(ser_out(vout[idx])) if idx < len(vout) else zero
    elif out_type == NONE:
        r += zero
    else:
        r += dsha(b''.join(ser_out(o) for o in vout))
    r += struct.pack('<I', tx['lt']) + struct.pack('<I', ht & 0xffffffff)
    return dsha(r)


def tagged(tag, msg):
    t = sha256(tag)
    return sha256(t + t + msg)


def leaf_hash(script, version=0xc4):
    return tagged(b'TapLeaf/elements', bytes([version]) + vbytes(script))


def branch_hash(a, b):
    return tagged(b'TapBranch/elements', a + b if a <= b else b + a)


def taproot(tx, idx, spent, ht, genesis, annex_hash=None, leaf=None, codesep=-1):
    """spent: list of plain outputs; ht None is the default hash type;
    leaf: leaf hash or None for a key path spend. RefError when the request is
    invalid."""
    vin, vout = tx['vin'], tx['vout']
    if idx < 0 or idx >= len(vin) or len(spent) != len(vin):
        raise RefError('index')
    t = 0 if ht is None else ht
    out_type = ALL if ht is None else ht & 3
    acp = bool(t & ACP)
    parts = [bytes([t]), struct.pack('<i', tx['v']), struct.pack('<I', tx['lt'])]

    def flag(i):
        return bytes([outpoint_flags(i) >> 24])

    def proofs(i):
        return vbytes(i['wit']['ar']) + vbytes(i['wit']['kr'])

    if not acp:
        for fn in (flag, lambda i: ser_outpoint(i['txid'], i['n'])):
            parts.append(sha256(b''.join(fn(i) for i in vin)))
        parts.append(sha256(b''.join(conf(o['asset']) + conf(o['value']) for o in spent)))
        parts.append(sha256(b''.join(vbytes(o['spk']) for o in spent)))
        for fn in (lambda i: struct.pack('<I', i['seq']), _iss, proofs):
            parts.append(sha256(b''.join(fn(i) for i in vin)))
    if out_type == ALL:
        parts.append(sha256(b''.join(ser_out(o) for o in vout)))
        parts.append(sha256(b''.join(ser_outwit(o['wit']) for o in vout)))
    parts.append(bytes([(2 if leaf is not None else 0) + (1 if annex_hash is not None else 0)]))
    i = vin[idx]
    if acp:
        o = spent[idx]
        parts += [flag(i), ser_outpoint(i['txid'], i['n']), conf(o['asset']), conf(o['value']),
                  vbytes(o['spk']), struct.pack('<I', i['seq']), _iss(i)]
        if not iss_is_null(i['iss']):
            parts.append(sha256(proofs(i)))
    else:
        parts.append(struct.pack('<I', idx))
    if annex_hash is not None:
        parts.append(annex_hash)
    if out_type == SINGLE:
        if idx >= len(vout):
            raise RefError('no matching output')
        parts += [sha256(ser_out(vout[idx])), sha256(ser_outwit(vout[idx]['wit']))]
    if leaf is not None:
        parts += [leaf, b'\x00', struct.pack('<i', codesep)]
    return tagged(b'TapSighash/elements', genesis + genesis + b''.join(parts))


# ---- coverage tables --------------------------------------------------------
# What a digest depends on, stated on its own: (where, field, k) -> bool

def covers(kind, tx, idx, ht, where, field=None, k=None):
    """kind: 'legacy', 'v0', 'taproot'. where: 'tx' (v, lt), 'in' (txid, n,
    seq, iss, pegin, ss), 'out', 'inwit', 'outwit', 'spent'. Assumes a valid
    request and that the field is in the encoding."""
    out_type = 1 if ht is None else (ht & 0x1f if kind != 'taproot' else ht & 3)
    acp = ht is not None and bool(ht & ACP)
    if where == 'tx':
        return True
    if where in ('in', 'spent') and acp and k != idx:
        return False
    if where == 'in':
        if field == 'ss':
            return False
        if field == 'pegin':
            return kind == 'taproot'
        if field == 'seq':
            return k == idx or kind == 'taproot' or out_type not in (NONE, SINGLE)
        return True
    if where == 'spent':
        if field == 'nonce':
            return False
        if kind == 'taproot':
            return True
        return kind == 'v0' and k == idx and field == 'value'
    if where in ('out', 'outwit'):
        if where == 'outwit' and kind != 'taproot':
            return False
        if out_type == NONE:
            return False
        if out_type == SINGLE:
            return k == idx
        return True
    if where == 'inwit':
        if kind != 'taproot' or field in ('sw', 'pw'):
            return False
        if acp:
            return k == idx and not iss_is_null(tx['vin'][k]['iss'])
        return True
    raise RefError('unknown part')


_ = hashlib
