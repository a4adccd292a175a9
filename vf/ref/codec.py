"""Independent model of the Elements transaction encoding.

A transaction is a plain dict:
  v, lt: ints
  vin:  list of dict(txid=32 bytes, n=int, ss=bytes, seq=int, pegin=bool,
                     iss=None | dict(bn=32 bytes, ent=32 bytes, amt=bytes, keys=bytes),
                     wit=dict(ar=bytes, kr=bytes, sw=[bytes], pw=[bytes]))
  vout: list of dict(asset=bytes, value=bytes, nonce=bytes, spk=bytes,
                     wit=dict(sp=bytes, rp=bytes))
Confidential fields are raw: b'' for null, otherwise with their prefix byte.
"""
import hashlib
import struct


class RefError(Exception):
    pass


NULL_INWIT = {'ar': b'', 'kr': b'', 'sw': [], 'pw': []}
NULL_OUTWIT = {'sp': b'', 'rp': b''}

ISSUANCE_FLAG = 0x80000000
PEGIN_FLAG = 0x40000000
INDEX_MASK = 0x3fffffff

# explicit size, committed prefixes
FIELDS = {'asset': (33, (10, 11)), 'value': (9, (8, 9)), 'nonce': (33, (2, 3))}


def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def csize(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def vbytes(b):
    return csize(len(b)) + bytes(b)


def conf(c):
    return bytes(c) if c else b'\x00'


def iss_is_null(iss):
    return iss is None or (not iss['amt'] and not iss['keys'])


def ser_issuance(iss):
    return iss['bn'] + iss['ent'] + conf(iss['amt']) + conf(iss['keys'])


def ser_outpoint(txid, n):
    return txid + struct.pack('<I', n)


def outpoint_flags(i):
    """Flag bits as a 32-bit value."""
    f = 0
    if not iss_is_null(i['iss']):
        f |= ISSUANCE_FLAG
    if i['pegin']:
        f |= PEGIN_FLAG
    return f


def ser_in(i, flags=True, ss=None, seq=None):
    n = i['n']
    coinbase = n == 0xffffffff
    issue = not coinbase and not iss_is_null(i['iss'])
    if flags and not coinbase:
        n |= outpoint_flags(i)
    r = ser_outpoint(i['txid'], n) + vbytes(i['ss'] if ss is None else ss)
    r += struct.pack('<I', i['seq'] if seq is None else seq)
    if issue:
        r += ser_issuance(i['iss'])
    return r


def ser_out(o):
    return conf(o['asset']) + conf(o['value']) + conf(o['nonce']) + vbytes(o['spk'])


def ser_stack(st):
    return csize(len(st)) + b''.join(vbytes(x) for x in st)


def ser_inwit(w):
    return vbytes(w['ar']) + vbytes(w['kr']) + ser_stack(w['sw']) + ser_stack(w['pw'])


def ser_outwit(w):
    return vbytes(w['sp']) + vbytes(w['rp'])


def inwit_null(w):
    return not (w['ar'] or w['kr'] or w['sw'] or w['pw'])


def outwit_null(w):
    return not (w['sp'] or w['rp'])


def wit_null(tx):
    return (all(inwit_null(i['wit']) for i in tx['vin'])
            and all(outwit_null(o['wit']) for o in tx['vout']))


def ser_body(tx):
    return (csize(len(tx['vin'])) + b''.join(ser_in(i) for i in tx['vin'])
            + csize(len(tx['vout'])) + b''.join(ser_out(o) for o in tx['vout'])
            + struct.pack('<I', tx['lt']))


def ser_stripped(tx):
    return struct.pack('<i', tx['v']) + b'\x00' + ser_body(tx)


def ser_witness(tx):
    return (b''.join(ser_inwit(i['wit']) for i in tx['vin'])
            + b''.join(ser_outwit(o['wit']) for o in tx['vout']))


def ser_tx(tx):
    if wit_null(tx):
        return ser_stripped(tx)
    return struct.pack('<i', tx['v']) + b'\x01' + ser_body(tx) + ser_witness(tx)


def txid(tx):
    return dsha(ser_stripped(tx))


def wtxid(tx):
    return dsha(ser_tx(tx))


def vsize(tx):
    return (3 * len(ser_stripped(tx)) + len(ser_tx(tx)) + 3) // 4


# ---- parser --------------------------------------------------------------

MAX_SIZE = 0x02000000


class R:
    def __init__(self, b):
        self.b = b
        self.p = 0

    def take(self, n):
        if n > MAX_SIZE or self.p + n > len(self.b):
            raise RefError('truncated')
        r = self.b[self.p:self.p + n]
        self.p += n
        return r

    def u8(self):
        return self.take(1)[0]

    def u32(self):
        return struct.unpack('<I', self.take(4))[0]

    def i32(self):
        return struct.unpack('<i', self.take(4))[0]

    def csize(self):
        x = self.u8()
        if x < 0xfd:
            return x
        w = {0xfd: 2, 0xfe: 4, 0xff: 8}[x]
        v = int.from_bytes(self.take(w), 'little')
        if v < {2: 0xfd, 4: 0x10000, 8: 0x100000000}[w]:
            raise RefError('non-canonical size')
        return v

    def vbytes(self):
        return self.take(self.csize())

    def conf(self, kind):
        size, prefixes = FIELDS[kind]
        v = self.u8()
        if v == 0:
            return b''
        if v == 1:
            return bytes([v]) + self.take(size - 1)
        if v in prefixes:
            return bytes([v]) + self.take(32)
        raise RefError('bad prefix')

    def stack(self):
        return [self.vbytes() for _ in range(self.count())]

    def count(self):
        n = self.csize()
        if n > len(self.b):
            raise RefError('truncated')
        return n


def parse_in(r):
    txid = r.take(32)
    n = r.u32()
    ss = r.vbytes()
    seq = r.u32()
    iss = None
    pegin = False
    if n != 0xffffffff:
        pegin = bool(n & PEGIN_FLAG)
        if n & ISSUANCE_FLAG:
            bn, ent = r.take(32), r.take(32)
            amt = r.conf('value')
            keys = r.conf('value')
            iss = dict(bn=bn, ent=ent, amt=amt, keys=keys)
        n &= INDEX_MASK
    return dict(txid=txid, n=n, ss=ss, seq=seq, pegin=pegin, iss=iss,
                wit=dict(NULL_INWIT))


def parse_out(r):
    asset, value, nonce = r.conf('asset'), r.conf('value'), r.conf('nonce')
    return dict(asset=asset, value=value, nonce=nonce, spk=r.vbytes(),
                wit=dict(NULL_OUTWIT))


def parse_tx(b):
    """The transaction encoded by b (all of it), or RefError."""
    r = R(b)
    v = r.i32()
    flag = r.u8()
    if flag not in (0, 1):
        raise RefError('unknown flag')
    vin = [parse_in(r) for _ in range(r.count())]
    vout = [parse_out(r) for _ in range(r.count())]
    lt = r.u32()
    tx = dict(v=v, lt=lt, vin=vin, vout=vout)
    if flag == 1:
        for i in vin:
            ar, kr = r.vbytes(), r.vbytes()
            sw = r.stack()
            pw = r.stack()
            i['wit'] = dict(ar=ar, kr=kr, sw=sw, pw=pw)
        for o in vout:
            o['wit'] = dict(sp=r.vbytes(), rp=r.vbytes())
        if wit_null(tx):
            raise RefError('superfluous witness')
    if r.p != len(b):
        raise RefError('trailing data')
    return tx


def normalize(tx):
    """What an encode/decode round trip keeps: empty issuances disappear,
    coinbase inputs have neither issuance nor peg-in flag."""
    vin = []
    for i in tx['vin']:
        i = dict(i)
        if iss_is_null(i['iss']) or i['n'] == 0xffffffff:
            i['iss'] = None
        if i['n'] == 0xffffffff:
            i['pegin'] = False
        vin.append(i)
    return dict(tx, vin=vin)
