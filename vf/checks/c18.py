from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq
from .. import blindgen as bg, gen, zkp
from .c17 import is_result


def info_of(w):
    i = w.get_rangeproof_info()
    return None if i is None else (i.exp, i.mantissa, i.value_min, i.value_max)


def check_proofs(r, before, after, tx):
    gens = r.target_gens()
    for n, o in enumerate(after['vout']):
        w = tx.wit.vtxoutwit[n]
        if r.secs[n] is None:
            same(o['wit'], before['vout'][n]['wit'], 'proofs of output %d, which was not blinded' % n)
            if not r.outs[n].get('foreign'):
                check_eq(o['wit'], dict(sp=b'', rp=b''), 'proofs of output %d, which was not blinded' % n)
                check_eq(info_of(w), None, 'range proof info of output %d, which was not blinded' % n)
            continue
        src = r.outs[n]
        g = zkp.parse_gen(o['asset'])
        check(g is not None, 'asset commitment of output %d is no point', n)
        rng = zkp.rp_verify(o['value'], o['wit']['rp'], o['spk'], g)
        check(rng is not None, 'range proof of output %d does not verify', n)
        check(rng[0] <= src['amt'] <= rng[1], 'amount %d of output %d is outside the range %s', src['amt'], n, rng)
        check(zkp.rp_verify(o['value'], o['wit']['rp'], o['spk'] + b'\x00', g) is None,
              'range proof of output %d does not commit to the script', n)
        want = r.range_of(src['amt'], src['spk'])
        check_eq(info_of(w), want, 'range proof info of output %d (exponent, mantissa, min, max)' % n)
        check_eq(rng, want[2:], 'range proved for output %d' % n)
        check(zkp.surjection(o['wit']['sp'], gens, g), 'surjection proof of output %d does not verify', n)
        if len(gens) > 1 and gens[0] != gens[-1]:
            check(not zkp.surjection(o['wit']['sp'], gens[::-1], g) or gens[::-1] == gens,
                  'surjection proof of output %d is independent of the order of inputs', n)


def check_blind(case):
    r = bg.Req(case)
    if bg.too_many(r) or not r.provable() or not r.can() or not r.n_out:
        return False, ['nothing to prove']
    with params(case['params']):
        tx = r.make_tx()
        before = r.before()
        res = r.blind(tx, bg.Stream(case['seed']))
        is_result(res, True)
        check_proofs(r, before, rd_tx(tx), tx)
        # also after a trip through the encoding
        if case['tuples']:
            t = ec.CElementsTransaction.deserialize(tx.serialize())
            check_proofs(r, before, rd_tx(t), t)
    exp, bits = case['exp'], case['bits']
    return True, ['%d targets' % len(r.targets), 'exponent %s' % ('default' if exp is None else 'zero' if not exp else 'positive'),
                  'default bits' if bits is None else 'bits %d-%d' % (bits // 16 * 16, bits // 16 * 16 + 15)]


def strat_blind():
    return bg.request(max_in=4, min_out=1, unbal=True)


# ---- bytes that may or may not be a range proof ------------------------------

def ref_header(p):
    """Header of a range proof: (exponent, mantissa, min, max) or None. After the format's description."""
    if len(p) < 65 or p[0] & 128:
        return None
    off = 1
    exp, mant, scale, mx = -1, 0, 1, 0
    if p[0] & 64:
        exp = p[0] & 31
        if exp > 18:
            return None
        mant = p[1] + 1
        if mant > 64:
            return None
        off = 2
        mx = 2 ** mant - 1
    for _ in range(max(exp, 0)):
        if mx > (2 ** 64 - 1) // 10:
            return None
        mx *= 10
        scale *= 10
    mn = 0
    if p[0] & 32:
        if len(p) - off < 8:
            return None
        mn = int.from_bytes(p[off:off + 8], 'big')
    if mx > 2 ** 64 - 1 - mn:
        return None
    return exp, mant, mn, mx + mn


def check_info(case):
    p = case['head'] + b'\x01' * case['pad']
    want = ref_header(p)
    for mutable in (False, True):
        w = cls('TxOutWitness', mutable)(b'', p)
        check_eq(info_of(w), want, 'range proof info of %s...' % p[:12].hex())
        check_eq(bytes(w.rangeproof), p, 'range proof after asking about it')
    return True, ['absent' if want is None else 'present']


def strat_info():
    good = st.builds(lambda e, m, mn: bytes([64 | e | (32 if mn else 0), m]) + (mn.to_bytes(8, 'big') if mn else b''),
                     st.integers(0, 19), st.integers(0, 65), gen.weighted((1, st.just(0)), (1, st.integers(1, 2 ** 63)),
                                                                        (1, st.integers(1, 9))))
    return st.fixed_dictionaries(dict(
        head=gen.weighted((4, good), (2, st.binary(max_size=12)),
                          (1, st.builds(lambda a, b: bytes([a]) + b, st.sampled_from([0, 32, 64, 96, 128, 160, 224]),
                                        st.binary(min_size=11, max_size=11)))),
        pad=gen.weighted((6, st.integers(60, 70)), (1, st.integers(0, 60)))))


PROP = Prop('C18', [
    Sub('proofs', check_blind, strat_blind, quick=700, thorough=30000,
        doc='range and surjection proofs of blinded outputs verified by an own handle of the verification library; '
            'stated range compared with the one computed for the request'),
    Sub('many', check_blind, bg.many, quick=120, thorough=6000, doc='the same with 4-10 inputs and up to 14 outputs'),
    Sub('info', check_info, strat_info, quick=4000, thorough=200000,
        doc='range proof information for arbitrary bytes, against the description of the header'),
], rule='blinding requests with something to blind, or bytes taken as range proof',
   assumptions=['stand-in library for both prover and (on an own handle) verifier'])
