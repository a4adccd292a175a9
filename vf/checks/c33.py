"""C33 Equality and hashing follow the encoded contents."""
import copy

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import edits, gen, sigedit
from ..ref import codec


# ---- (kind, plain value) -> object, reference bytes ----------------------

def mk_op(d, mutable=False):
    return cls('OutPoint', mutable)(d['txid'], d['n'])


MAKE = {
    'tx': lambda d, m: mk_tx(d, m),
    'in': lambda d, m: mk_in(d, m),
    'out': lambda d, m: mk_out(d, m),
    'op': lambda d, m: mk_op(d, m),
    'inwit': lambda d, m: mk_inwit(d['wit'], m),
    'outwit': lambda d, m: mk_outwit(d['wit'], m),
    'iss': lambda d, m: mk_issuance(d['iss']),
    'asset': lambda d, m: ec.CConfidentialAsset(d['asset']),
    'value': lambda d, m: ec.CConfidentialValue(d['value']),
    'nonce': lambda d, m: ec.CConfidentialNonce(d['nonce']),
    'id': lambda d, m: ec.CAsset(d['txid']),
}
NULL_ISS = dict(bn=bytes(32), ent=bytes(32), amt=b'', keys=b'')
BYTES = {
    'tx': codec.ser_tx,
    'in': codec.ser_in,
    'out': codec.ser_out,
    'op': lambda d: codec.ser_outpoint(d['txid'], d['n']),
    'inwit': lambda d: codec.ser_inwit(d['wit']),
    'outwit': lambda d: codec.ser_outwit(d['wit']),
    'iss': lambda d: codec.ser_issuance(d['iss'] or NULL_ISS),
    'asset': lambda d: codec.conf(d['asset']),
    'value': lambda d: codec.conf(d['value']),
    'nonce': lambda d: codec.conf(d['nonce']),
    'id': lambda d: d['txid'],
}
TWO_FORMS = ('tx', 'in', 'out', 'op', 'inwit', 'outwit')


def forms(kind, d):
    """The same contents, as many ways as there are: (name, object)."""
    r = [('made', MAKE[kind](d, False))]
    r.append(('made again', MAKE[kind](d, False)))
    if kind == 'tx':
        # records of empty witnesses may be there or not
        def last(xs, null):
            return max([k + 1 for k, x in enumerate(xs) if not null(x['wit'])], default=0)
        ni, no = last(d['vin'], codec.inwit_null), last(d['vout'], codec.outwit_null)
        r.append(('fewest witness records', mk_tx(d, False, (ni, no))))
        r.append(('fewest witness records, mutable', mk_tx(d, True, (ni, no))))
    if kind in TWO_FORMS:
        m = MAKE[kind](d, True)
        r += [('mutable', m), ('snapshot of mutable', m.to_immutable()), ('thawed', r[0][1].to_mutable()),
              ('clone', r[0][1].clone()), ('clone of mutable', m.clone())]
    if kind != 'inwit':
        b = BYTES[kind](d)
        t = type(r[0][1])
        if kind == 'tx' and not d['vin']:
            return r
        r.append(('decoded', t.deserialize(b)))
    return r


class Nothing:
    pass


NOTHING = Nothing()


def one(x, b, what):
    """What holds of a single object whose reference encoding is b."""
    check_eq(x.serialize(), b, 'encoding of ' + what)
    check((x == x) is True and (x != x) is False, '%s is not equal to itself', what)
    check_eq(hash(x), hash(x), 'hash taken twice, of ' + what)
    check_eq(x.GetHash(), codec.dsha(b), 'GetHash of ' + what)
    for other in (None, 0, b, bytearray(b), b.hex(), str(x), NOTHING, [x], (x,)):
        check((x == other) is False and (x != other) is True, '%s equals %s', what, short(other))
        check((other == x) is False and (other != x) is True, '%s equals %s', short(other), what)


def pair(x, y, want, what):
    check((x == y) is want, '%s: == gives %s, the contents are %s', what, x == y,
          'the same' if want else 'different')
    check((y == x) is want, '%s: == gives %s the other way round', what, y == x)
    check((x != y) is (not want) and (y != x) is (not want), '%s: != does not agree with ==', what)
    if want:
        check_eq(hash(x), hash(y), 'hashes of equal objects, ' + what)
        check(len({x, y}) == 1 and y in {x: 0} and x in [y], '%s: two members of a set', what)
    else:
        check(len({x, y}) == 2 and y not in {x: 0} and x not in [y], '%s: one member of a set', what)


def compare(kind, a, b, lb):
    fa, fb = forms(kind, a), forms(kind, b)
    ba, bb = BYTES[kind](a), BYTES[kind](b)
    want = ba == bb
    lb.add('%s %s' % (kind, 'same' if want else 'different'))
    for n, x in fa:
        one(x, ba, '%s (%s)' % (kind, n))
    for n, x in fb:
        check_eq(x.serialize(), bb, 'encoding of %s' % kind)
    for i, (n, x) in enumerate(fa):
        for n2, y in fa[i + 1:i + 3]:
            pair(x, y, True, '%s (%s) and %s' % (kind, n, n2))
        for n2, y in (fb[i % len(fb)], fb[(i + 2) % len(fb)]):
            pair(x, y, want, '%s (%s) and (%s)' % (kind, n, n2))
    check_eq(len({x for n, x in fa + fb}), 1 if want else 2, 'distinct %s in a set' % kind)


def parts_of(tx):
    yield 'tx', tx
    for i in tx['vin']:
        for k in ('in', 'op', 'inwit', 'iss', 'id'):
            yield k, i
    for o in tx['vout']:
        for k in ('out', 'outwit', 'asset', 'value', 'nonce'):
            yield k, o


def check_pair(case):
    lb = set()
    a = case['tx']
    b = a
    for e in case['edits']:
        r = sigedit.apply(b, [], e)
        if r is not None:
            b = r[0]
    with params(case['params']):
        for (k, x), (k2, y) in zip(parts_of(a), parts_of(b)):
            if k == 'tx' or BYTES[k](x) != BYTES[k](y) or case['all']:
                compare(k, x, y, lb)
        # parts of one transaction against each other
        byk = {}
        for k, x in parts_of(a):
            byk.setdefault(k, []).append(x)
        for k, xs in byk.items():
            for x, y in zip(xs, xs[1:]):
                pair(MAKE[k](x, False), MAKE[k](y, False), BYTES[k](x) == BYTES[k](y), 'neighbouring ' + k)
    return (any('different' in s for s in lb), lb)


def strat_pair():
    return st.fixed_dictionaries(dict(
        tx=gen.weighted((12, gen.tx(min_in=1, min_out=1, max_in=3, max_out=3)), (1, gen.late())),
        edits=gen.weighted((5, st.lists(sigedit.strategy(False), min_size=1, max_size=1)),
                           (1, st.lists(sigedit.strategy(False), max_size=3))),
        all=st.booleans(), params=st.sampled_from(PARAMS)))


# ---- every single byte of a field ------------------------------------------

def flip_int(v, byte, bit):
    return v ^ (1 << (8 * byte + bit))


def check_flips(case):
    """Objects that differ in a single bit differ."""
    tx, lb = case['tx'], set()
    i, o = tx['vin'][0], tx['vout'][0]
    bit = case['bit']

    def flip(b, p):
        return b[:p] + bytes([b[p] ^ (1 << bit)]) + b[p + 1:]

    todo = []
    for kind, d, path in (
            [('in', i, ['txid']), ('op', i, ['txid']), ('in', i, ['ss']), ('out', o, ['spk']), ('id', i, ['txid'])]
            + [('inwit', i, ['wit', f]) for f in ('ar', 'kr')]
            + [('outwit', o, ['wit', f]) for f in ('sp', 'rp')]
            + [(k, i, ['iss', f]) for f in ('bn', 'ent', 'amt', 'keys') if i['iss'] for k in ('iss', 'in')]
            + [(k, o, [k]) for k in ('asset', 'value', 'nonce')]
            + [('out', o, [k]) for k in ('asset', 'value', 'nonce')]):
        v = d
        for f in path:
            v = v[f]
        first = 1 if path[-1] in ('amt', 'keys', 'asset', 'value', 'nonce') else 0
        for p in range(first, len(v)):
            d2 = copy.deepcopy(d)
            t = d2
            for f in path[:-1]:
                t = t[f]
            t[path[-1]] = flip(v, p)
            todo.append((kind, d, d2, '.'.join(path)))
    for f, prefixes in (('asset', (10, 11)), ('value', (8, 9)), ('nonce', (2, 3))):
        c = [dict(o, **{f: bytes([x]) + i['txid']}) for x in prefixes]
        todo += [(k, c[0], c[1], 'prefix of ' + f) for k in (f, 'out')]
        todo.append((f, c[bit & 1], dict(o, **{f: b''}), 'nullness of ' + f))
    for f in ('amt', 'keys'):
        c = [dict(iss=dict(i['iss'] or NULL_ISS, **{f: bytes([x]) + i['txid']})) for x in (8, 9)]
        todo.append(('iss', c[0], c[1], 'prefix of ' + f))
    for f in ('bn', 'ent'):
        # an issuance of nothing still has a nonce and an entropy
        base = dict(NULL_ISS, **{g: (i['iss'] or NULL_ISS)[g] for g in ('bn', 'ent')})
        for p in range(32):
            todo.append(('iss', dict(iss=base), dict(iss=dict(base, **{f: flip(base[f], p)})), 'null iss.' + f))
    for byte in range(4):
        todo.append(('in', i, dict(i, seq=flip_int(i['seq'], byte, bit)), 'seq'))
        x = flip_int(i['n'], byte, bit)
        todo += [('op', i, dict(i, n=x), 'n'), ('op', dict(i, n=0xffffffff), dict(i, n=flip_int(0xffffffff, byte, bit)), 'n')]
        if i['n'] < 2 ** 30:
            if x < 2 ** 30:
                todo.append(('in', i, dict(i, n=x), 'n'))
    if i['n'] < 2 ** 30:
        todo.append(('in', i, dict(i, pegin=not i['pegin']), 'pegin'))
    with params(case['params']):
        for kind, a, b, what in todo:
            ba, bb = BYTES[kind](a), BYTES[kind](b)
            if kind == 'in' and what.startswith('iss') and (codec.iss_is_null(a['iss']) or codec.iss_is_null(b['iss'])):
                continue
            check(ba != bb, 'reference encoding')
            x, y = MAKE[kind](a, False), MAKE[kind](b, False)
            what = '%s that differ in %s' % (kind, what)
            pair(x, y, False, what)
            if kind in TWO_FORMS:
                pair(MAKE[kind](a, True), y, False, what)
                pair(x, MAKE[kind](b, True), False, what)
        lb.add('bit %d' % bit)
    return (len(todo) > 60, lb)


def strat_flips():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=1, min_out=1, max_out=1, coinbase=False), bit=st.integers(0, 7),
        params=st.sampled_from(PARAMS)))


# ---- sets and dictionaries of many objects ----------------------------------

def check_sets(case):
    """A dictionary keyed by objects is a dictionary keyed by their encodings."""
    lb = set()
    with params(case['params']):
        table, ref = {}, {}
        n = 0
        for tx in case['txs'] + [case['txs'][k % len(case['txs'])] for k in case['again']]:
            for j, (k, d) in enumerate(parts_of(tx)):
                mutable = k in TWO_FORMS and case['how'][(n + j) % len(case['how'])]
                x = MAKE[k](d, mutable)
                if (k, BYTES[k](d)) in ref:
                    lb.add('met again')
                check_eq(table.get(x), ref.get((k, BYTES[k](d))), 'value stored under a %s' % k)
                check_eq(x in table, (k, BYTES[k](d)) in ref, 'presence of a %s' % k)
                table[x] = ref[k, BYTES[k](d)] = n
                n += 1
        check_eq(len(table), len(ref), 'number of distinct objects')
        for k in sorted(BYTES):
            want = sorted(v for (kk, b), v in ref.items() if kk == k)
            t = {'tx': ec.CElementsTransaction, 'in': ec.CElementsTxIn, 'out': ec.CElementsTxOut,
                 'op': ec.CElementsOutPoint, 'inwit': ec.CElementsTxInWitness, 'outwit': ec.CElementsTxOutWitness,
                 'iss': ec.CAssetIssuance, 'asset': ec.CConfidentialAsset, 'value': ec.CConfidentialValue,
                 'nonce': ec.CConfidentialNonce, 'id': ec.CAsset}[k]
            check_eq(sorted(v for x, v in table.items() if isinstance(x, t)), want, 'members of kind %s' % k)
    return ('met again' in lb, lb)


def strat_sets():
    return st.fixed_dictionaries(dict(
        txs=st.lists(gen.tx(max_in=2, max_out=2), min_size=1, max_size=4),
        again=st.lists(st.integers(0, 3), min_size=1, max_size=3),
        how=st.lists(st.booleans(), min_size=1, max_size=7), params=st.sampled_from(PARAMS)))


# ---- histories of a mutable transaction ------------------------------------

def check_history(case):
    """After each edit a mutable transaction equals exactly those of its
    earlier states whose contents are the same."""
    lb = set()
    m = case['tx']
    with params(case['params']):
        t = mk_tx(m, True)
        states = [(codec.ser_tx(m), t.to_immutable(), t.clone())]
        for im in states:
            hash(im[1])
        n = 0
        for op in case['ops']:
            if 'back' in op:
                b, im, mu = states[op['back'] % len(states)]
                t = im.to_mutable() if op['from'] else mu.clone()
                cur = b
                m = rd_tx(im)
                lb.add('back')
            else:
                m2 = edits.apply(m, t, op)
                if m2 is None:
                    continue
                m = m2
                cur = codec.ser_tx(m)
                n += 1
            for j, (b, im, mu) in enumerate(states):
                want = b == cur
                pair(t, im, want, 'edited transaction and snapshot %d' % j)
                pair(t, mu, want, 'edited transaction and clone %d' % j)
                if want:
                    lb.add('same again')
            now = t.to_immutable()
            pair(t, now, True, 'transaction and its snapshot')
            states.append((cur, now, t.clone()))
            if len(states) > 6:
                del states[1]
        check_eq(len({im for b, im, mu in states}), len({b for b, im, mu in states}), 'distinct snapshots')
    return (n >= 2, lb)


def strat_history():
    ops = gen.weighted((6, edits.strategy()),
                       (1, st.fixed_dictionaries({'back': st.integers(0, 7), 'from': st.booleans()})))
    return st.fixed_dictionaries(dict(
        tx=gen.tx(max_in=3, max_out=3), ops=st.lists(ops, min_size=2, max_size=8),
        params=st.sampled_from(PARAMS)))


# ---- different kinds, different chains ----------------------------------------

def check_kinds(case):
    """Objects of different kinds or chains are not equal, whatever they hold."""
    tx, lb = case['tx'], set()
    i, o = tx['vin'][0], tx['vout'][0]
    c33 = bytes([2 + (case['c'][0] & 1)]) + case['c']
    with params(case['params']):
        objs = [(k, MAKE[k](d, False)) for k, d in (
            ('tx', tx), ('in', i), ('out', o), ('op', i), ('inwit', i), ('outwit', o), ('iss', i), ('id', i))]
        null = [('asset', ec.CConfidentialAsset()), ('value', ec.CConfidentialValue()),
                ('nonce', ec.CConfidentialNonce())]
        same_ = [(k, c(b'\x01' + case['c'])) for k, c in (
            ('asset', ec.CConfidentialAsset), ('nonce', ec.CConfidentialNonce))]
        odd = [('nonce', ec.CConfidentialNonce(c33))]
        for group in (objs + null, objs + same_, objs + odd):
            for a, (k, x) in enumerate(group):
                for k2, y in group[a + 1:]:
                    if {k, k2} <= {'asset', 'value', 'nonce'} or k != k2:
                        check((x == y) is False and (y == x) is False and (x != y) is True and (y != x) is True,
                              'a %s equals a %s', k, k2)
        bi = bc.CBitcoinTxIn(bc.CBitcoinOutPoint(i['txid'], i['n']), bs.CBitcoinScript(i['ss']), i['seq'])
        bo = bc.CBitcoinTxOut(case['amount'], bs.CBitcoinScript(o['spk']))
        for mutable in (False, True):
            chains = [
                (cls('OutPoint', mutable)(i['txid'], i['n']), bc.CBitcoinOutPoint(i['txid'], i['n'])),
                (mk_in(dict(i, iss=None, pegin=False), mutable), bi),
                (mk_out(o, mutable), bo),
                (cls('TxIn', mutable)(), bc.CBitcoinTxIn()),
                (cls('TxOut', mutable)(), bc.CBitcoinTxOut()),
                (cls('TxInWitness', mutable)(), bc.CBitcoinTxInWitness()),
                (cls('TxWitness', mutable)(), bc.CBitcoinTxWitness()),
                (cls('Transaction', mutable)(), bc.CBitcoinTransaction()),
                (mk_tx(dict(tx, vout=[], vin=[dict(i, iss=None, pegin=False, wit=dict(codec.NULL_INWIT))]), mutable),
                 bc.CBitcoinTransaction([bi], [], tx['lt'], tx['v']))]
            for x, y in chains:
                for z in (y, y.to_mutable()):
                    check((x == z) is False and (z == x) is False and (x != z) is True and (z != x) is True,
                          '%s equals %s', type(x).__name__, type(z).__name__)
        lb.add('same bytes' if i['n'] < 2 ** 30 else 'other')
    return (True, lb)


def strat_kinds():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=1, min_out=1, max_out=1), c=gen.b32(), amount=st.integers(0, 10 ** 15),
        params=st.sampled_from(PARAMS)))


PROP = Prop('C33', [
    Sub('pair', check_pair, strat_pair, quick=200, thorough=30000,
        doc='a transaction and one that differs in a field: every part of one against every part of the other, '
            'in every form (made, mutable, snapshot, clone, decoded)'),
    Sub('flips', check_flips, strat_flips, quick=60, thorough=8000,
        doc='a single bit of each byte of each field'),
    Sub('sets', check_sets, strat_sets, quick=400, thorough=20000,
        doc='a dictionary keyed by objects against one keyed by reference encodings'),
    Sub('history', check_history, strat_history, quick=500, thorough=30000,
        doc='an edited transaction against its earlier states'),
    Sub('kinds', check_kinds, strat_kinds, quick=300, thorough=10000,
        doc='objects of different kinds and chains with the same contents'),
], rule='non-trivial: a pair that differs (pair), over 60 bits flipped (flips), an object met again (sets), at '
        'least two edits took effect (history), all (kinds)', zkp=False)
