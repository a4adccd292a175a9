from hypothesis import strategies as st

from bitcointx.core import CTransaction
from bitcointx.core.serialize import SerializationError

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen
from ..ref import codec
from . import c01


def decode(b, c=None):
    """(transaction, None) or (None, error)"""
    try:
        return (c or ec.CElementsTransaction).deserialize(b), None
    except (SerializationError, ValueError) as e:
        return None, e


def judge(b, what=''):
    """Decoding of b behaves as the reference parser says."""
    try:
        want = codec.parse_tx(b)
        err = None
    except codec.RefError as e:
        want, err = None, e
    with params('elements'):
        for c in (ec.CElementsTransaction, ec.CElementsMutableTransaction, CTransaction):
            t, e = decode(b, c)
            if want is None:
                check(t is None, '%s bytes the format does not allow (%s) were accepted: %s',
                      what, err, b.hex()[:400])
            else:
                check(e is None, '%s valid bytes rejected with %r: %s', what, e, b.hex()[:400])
                same(rd_tx(t), want, 'decoded fields')
                canon = codec.ser_tx(codec.normalize(want))
                check_eq(t.serialize(), canon, 'reserialization of accepted bytes')
                if canon != b:
                    t2, e = decode(canon, c)
                    check(e is None, 'reserialized bytes rejected: %r', e)
                    check_eq(t2.serialize(), canon, 'decode of reserialized bytes is not stable')
    return want, err


def check_raw(case):
    want, err = judge(case['b'])
    return (len(case['b']) > 5, ['accepted' if want is not None else 'rejected'])


def strat_raw():
    return st.fixed_dictionaries(dict(b=st.one_of(
        st.binary(max_size=60),
        st.builds(lambda v, f, b: v + f + b, st.binary(min_size=4, max_size=4),
                  st.sampled_from([b'\0', b'\1', b'\0\0\0', b'\1\0\0', b'\1\1', b'\0\1']),
                  st.binary(max_size=120)))))


def mutate(b, ops):
    b = bytearray(b)
    for op in ops:
        n = len(b)
        k = op['pos'] % (n + 1)
        o = op['op']
        if o == 'flip' and n:
            b[k % n] ^= 1 << (op['x'] % 8)
        elif o == 'set' and n:
            b[k % n] = op['x'] % 256
        elif o == 'ins':
            b[k:k] = op['data']
        elif o == 'del':
            del b[k:k + 1 + op['x'] % 4]
        elif o == 'trunc':
            del b[k:]
        elif o == 'app':
            b += op['data']
        elif o == 'dup':
            b[k:k] = b[k:k + 1 + op['x'] % 40]
    return bytes(b)


def mutations(max_size=3):
    return st.lists(st.fixed_dictionaries(dict(
        op=st.sampled_from(['flip', 'set', 'ins', 'del', 'trunc', 'app', 'dup']),
        pos=st.one_of(st.integers(0, 12), st.integers(0, 400)),
        x=st.one_of(st.sampled_from([0, 1, 2, 8, 9, 10, 11, 0xfd, 0xfe, 0xff]), st.integers(0, 255)),
        data=st.binary(min_size=1, max_size=4))), min_size=1, max_size=max_size)


def check_mut(case):
    b = codec.ser_tx(case['tx'])
    m = mutate(b, case['ops'])
    want, err = judge(m)
    return (m != b, ['accepted' if want is not None else 'rejected:' + str(err)])


def strat_mut():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(max_in=2, max_out=2), ops=mutations()))


def check_trunc(case):
    """Every proper prefix and every extension of an encoding is rejected."""
    b = codec.ser_tx(codec.normalize(case['tx']))
    with params('elements'):
        check(decode(b)[0] is not None, 'valid encoding rejected')
        for n in range(len(b)):
            t, e = decode(b[:n])
            check(t is None, 'truncated encoding (%d of %d bytes) accepted', n, len(b))
        for tail in (b'\0', b'\1', case['tail']):
            t, e = decode(b + tail)
            check(t is None, 'trailing data accepted')
    return (bool(case['tx']['vin'] or case['tx']['vout']), [])


def strat_trunc():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(max_in=2, max_out=2), tail=st.binary(min_size=1, max_size=4)))


# ---- structure-aware faults ------------------------------------------------

class Enc:
    """Encoder with one fault injected at the n-th place where it applies."""

    def __init__(self, fault, at, arg):
        self.fault, self.at, self.arg = fault, at, arg
        self.seen = 0
        self.done = False

    def hit(self, kind):
        if kind != self.fault:
            return False
        self.seen += 1
        if self.seen - 1 == self.at:
            self.done = True
            return True
        return False

    def csize(self, n):
        if self.hit('noncanonical'):
            widths = [w for w, hi in ((2, 0xfd), (4, 0x10000), (8, 0x100000000)) if n < hi]
            w = widths[self.arg % len(widths)]
            return {2: b'\xfd', 4: b'\xfe', 8: b'\xff'}[w] + n.to_bytes(w, 'little')
        if self.hit('hugelen'):
            v = [0x02000001, 0xffffffff, 0x100000000, 2 ** 64 - 1, 0x01ffffff][self.arg % 5]
            return codec.csize(v)
        if self.hit('wronglen'):
            return codec.csize(max(0, n + [1, -1, 2, 252, 253][self.arg % 5]))
        return codec.csize(n)

    def vbytes(self, b):
        return self.csize(len(b)) + b

    def conf(self, c, kind):
        r = codec.conf(c)
        if self.hit('prefix'):
            return bytes([self.arg % 256]) + r[1:]
        return r

    def stack(self, s):
        return self.csize(len(s)) + b''.join(self.vbytes(x) for x in s)

    def tx(self, tx):
        wit = not codec.wit_null(tx)
        flag = 1 if wit else 0
        if self.hit('superfluous') and not wit:
            flag, wit = 1, True
        if self.hit('dropwit') and wit:
            wit = False
        fb = flag
        if self.hit('flag'):
            fb = [2, 3, 4, 0x80, 0x81, 0xff, 1 - flag][self.arg % 7]
        r = (tx['v'] & 0xffffffff).to_bytes(4, 'little') + bytes([fb])
        r += self.csize(len(tx['vin']))
        for i in tx['vin']:
            n = i['n']
            issue = n != 0xffffffff and not codec.iss_is_null(i['iss'])
            if n != 0xffffffff:
                n |= codec.outpoint_flags(i)
                if self.hit('issflag'):
                    n ^= codec.ISSUANCE_FLAG
                if self.hit('peginflag'):
                    n ^= codec.PEGIN_FLAG
            iss = i['iss']
            if n != 0xffffffff and not issue and self.hit('nulliss'):
                n |= codec.ISSUANCE_FLAG
                issue = True
                iss = dict(bn=bytes([self.arg % 256]) * 32, ent=b'\1' * 32, amt=b'', keys=b'')
            r += i['txid'] + n.to_bytes(4, 'little') + self.vbytes(i['ss'])
            r += i['seq'].to_bytes(4, 'little')
            if issue:
                r += iss['bn'] + iss['ent'] + self.conf(iss['amt'], 'value') \
                    + self.conf(iss['keys'], 'value')
        r += self.csize(len(tx['vout']))
        for o in tx['vout']:
            r += self.conf(o['asset'], 'asset') + self.conf(o['value'], 'value')
            r += self.conf(o['nonce'], 'nonce') + self.vbytes(o['spk'])
        r += tx['lt'].to_bytes(4, 'little')
        if wit:
            for i in tx['vin']:
                w = i['wit']
                r += self.vbytes(w['ar']) + self.vbytes(w['kr']) + self.stack(w['sw']) + self.stack(w['pw'])
            for o in tx['vout']:
                r += self.vbytes(o['wit']['sp']) + self.vbytes(o['wit']['rp'])
        return r


FAULTS = ['flag', 'prefix', 'superfluous', 'noncanonical', 'hugelen', 'wronglen',
          'issflag', 'peginflag', 'nulliss', 'dropwit']


def check_fault(case):
    tx = codec.normalize(case['tx'])
    e = Enc(case['fault'], case['at'], case['arg'])
    b = e.tx(tx)
    want, err = judge(b, case['fault'])
    lb = []
    if e.done:
        lb.append('%s:%s' % (case['fault'], 'rejected' if want is None else 'accepted'))
    return (e.done, lb)


def strat_fault():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(max_in=2, max_out=2, min_out=1), fault=st.sampled_from(FAULTS),
        at=st.one_of(st.just(0), st.integers(0, 8)), arg=st.integers(0, 255)))


def check_corpus(case):
    """Every byte position of a recorded transaction changed in turn."""
    import random
    b = bytes.fromhex(case['hex'])
    rnd = random.Random(case['seed'])
    for _ in range(case['n']):
        m = bytearray(b)
        k = rnd.randrange(len(b)) if rnd.random() < 0.5 else rnd.randrange(min(len(b), 200))
        how = rnd.randrange(4)
        if how == 0:
            m[k] ^= 1 << rnd.randrange(8)
        elif how == 1:
            m[k] = rnd.choice([0, 1, 2, 8, 9, 10, 11, 0xfc, 0xfd, 0xfe, 0xff])
        elif how == 2:
            del m[k]
        else:
            m[k:k] = bytes([rnd.choice([0, 1, 0xfd, 0xff])])
        judge(bytes(m))
    return (True, [])


def corpus_cases(tier):
    import os
    seed = int(os.environ.get('VERIF_SEED', '1') or 1) if os.environ.get('VERIF_SEED', '1').isdigit() else 1
    n = 12 if tier == 'quick' else 600
    return [dict(hex=c['hex'], seed=seed * 1000 + k, n=n)
            for k, c in enumerate(c01.corpus_cases(tier))]


PROP = Prop('C02', [
    Sub('raw', check_raw, strat_raw, quick=4000, thorough=200000,
        doc='random byte strings'),
    Sub('mutate', check_mut, strat_mut, quick=4000, thorough=150000,
        doc='byte-level mutations of valid encodings, judged by the reference parser'),
    Sub('fault', check_fault, strat_fault, quick=4000, thorough=150000,
        doc='one structural fault (flag, prefix, non-canonical or huge length, superfluous '
            'witness, index flag bits) in an otherwise valid encoding'),
    Sub('truncate', check_trunc, strat_trunc, quick=240, thorough=6000,
        doc='all truncations and some extensions of valid encodings'),
    Sub('corpus', check_corpus, cases=corpus_cases, doc='mutations of recorded transactions'),
], rule='byte strings; non-trivial: longer than 5 bytes (raw), differing from the valid encoding '
        '(mutate), the fault was really placed (fault)',
   assumptions=['acceptance is judged by the independent parser in vf/ref/codec.py',
                'lengths above 32 MiB count as not allowed'])
_ = fail
