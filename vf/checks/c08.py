import copy

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen, sigedit, sighist
from ..ref import codec, sighash as ref
from bitcointx.core.script import SIGHASH_Type, SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT
from .c06 import VALID

HT = (None,) + VALID


def fit(case):
    """Spent outputs, one per input."""
    n = len(case['tx']['vin'])
    sp = case['spent']
    return [copy.deepcopy(o) for o in (sp * (n // len(sp) + 1))[:n]]


def call(t, idx, spent, ht, genesis, annex=None, leaf=None, codesep=None, raw=None):
    """leaf: leaf hash given to the module function; raw: leaf script given to
    the script method"""
    kw = dict(genesis_block_hash=genesis, annex_hash=annex)
    if ht is not None:
        kw['hashtype'] = SIGHASH_Type(ht)
    if codesep is not None:
        kw['codeseparator_pos'] = codesep
    if raw is not None:
        return es.CElementsScript(raw).sighash_schnorr(t, idx, spent, **kw)
    if leaf is not None:
        kw.update(tapleaf_hash=leaf, sigversion=SIGVERSION_TAPSCRIPT)
    return es.ElementsSignatureHashSchnorr(t, idx, spent, **kw)


def outs(spent):
    return [mk_out(o) for o in spent]


def norm_tx(tx, wit):
    from .c01 import cut_witness
    if wit == 'full':
        return tx, wit
    if wit == 'none':
        return cut_witness(tx, 0, 0), wit
    wit = (min(wit[0], len(tx['vin'])), min(wit[1], len(tx['vout'])))
    return cut_witness(tx, *wit), wit


def check_digest(case):
    tx, wit = norm_tx(case['tx'], case['wit'])
    spent = fit(case)
    ht, genesis = case['ht'], case['genesis']
    idx = case['idx'] % len(tx['vin'])
    annex, codesep = case['annex'], case['codesep']
    script = case['leaf']
    cs = -1 if codesep is None else codesep
    leaf = None if script is None else ref.leaf_hash(script)
    try:
        want = ref.taproot(tx, idx, spent, ht, genesis, annex, leaf, cs)
    except ref.RefError:
        want = None
    with params(case['params']):
        for mutable in (False, True):
            t = mk_tx(case['tx'], mutable, wit)
            sp = outs(spent)
            if mutable:
                sp = [o.to_mutable() for o in sp]
            before = (t.serialize(), [o.serialize() for o in sp])
            how = [dict(leaf=leaf)]
            if script is not None:
                how.append(dict(raw=script))
            for kw in how:
                try:
                    got = call(t, idx, sp, ht, genesis, annex, codesep=codesep, **kw)
                except ValueError:
                    check(want is None, 'valid request refused')
                else:
                    check(want is not None, 'SINGLE without matching output accepted')
                    check_eq(got, want, 'taproot digest (%s, mutable=%s)' % (sorted(kw), mutable))
                check_eq((t.serialize(), [o.serialize() for o in sp]), before, 'arguments after the call')
    lb = ['ht %s' % ht, 'script path' if script is not None else 'key path',
          'annex' if annex is not None else 'no annex', 'wit %s' % (wit if isinstance(wit, str) else 'partial')]
    if want is None:
        lb.append('refused')
    if any(i['iss'] for i in tx['vin']):
        lb.append('issuance')
    if tx['vin'][idx]['iss'] and ht and ht & 0x80:
        lb.append('issuance|ACP')
    return (True, lb)


def strat():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=4, max_out=4), spent=st.lists(gen.txout(), min_size=1, max_size=4),
        ht=st.sampled_from(HT), genesis=gen.b32(), idx=gen.pos(),
        wit=gen.weighted((4, st.just('full')), (1, st.just('none')),
                         (1, st.tuples(st.integers(0, 3), st.integers(0, 3)))),
        annex=st.one_of(st.none(), gen.b32()),
        leaf=st.one_of(st.none(), gen.maybe_long()),
        codesep=gen.weighted((2, st.none()), (1, st.sampled_from([0, 1, 255, 256, 2 ** 31 - 1])),
                             (1, st.integers(-1, 1000))),
        params=st.sampled_from(PARAMS)))


def check_cover(case):
    tx, spent = case['tx'], fit(case)
    ht, genesis, e = case['ht'], case['genesis'], case['edit']
    idx = case['idx'] % len(tx['vin'])
    kw = dict(annex=case['annex'], leaf=case['leaf'], codesep=-1)
    with params(case['params']):
        def dig(tx, idx, spent, ht, genesis, **kw):
            try:
                return call(mk_tx(tx), idx, outs(spent), ht, genesis, **kw)
            except ValueError:
                return None
        a = dig(tx, idx, spent, ht, genesis, **kw)
        if a is None:
            check(ht is not None and ht & 3 == 3 and idx >= len(tx['vout']), 'valid request refused')
            return (False, ['refused'])
        s = e['seed']
        if e['where'] == 'arg':
            flip = lambda b: b[:s[1] % 32] + bytes([b[s[1] % 32] ^ (1 + s[2] % 255)]) + b[s[1] % 32 + 1:]  # noqa
            f = e['field']
            kw2, ht2, g2, idx2, cov = dict(kw), ht, genesis, idx, True
            if f == 'genesis':
                g2 = flip(genesis)
            elif f == 'annex':
                kw2['annex'] = None if kw['annex'] is not None and s[0] & 1 else flip(kw['annex'] or bytes(32))
            elif f == 'leaf':
                kw2['leaf'] = None if kw['leaf'] is not None and s[0] & 1 else flip(kw['leaf'] or bytes(32))
            elif f == 'codesep':
                kw2['codesep'] = s[0]
                cov = kw['leaf'] is not None
            elif f == 'ht':
                ht2 = HT[s[0] % len(HT)]
                cov = ht2 != ht
            else:
                idx2 = s[0] % len(tx['vin'])
                # two inputs are told apart unless their ACP data is the same
                cov = idx2 != idx
                if ht is not None and ht & 0x80:
                    return (False, ['index under ACP'])
            b = dig(tx, idx2, spent, ht2, g2, **kw2)
            if b is None:
                return (False, ['refused'])
            check_eq(a != b, cov, 'digest changes when %s changes' % f)
            return (True, ['covered' if cov else 'not covered', 'arg.' + f])
        r = sigedit.apply(tx, spent, e)
        if r is None:
            return (False, ['nothing to edit'])
        tx2, spent2, k = r
        b = dig(tx2, idx, spent2, ht, genesis, **kw)
        cov = ref.covers('taproot', tx, idx, ht, e['where'], e['field'], k)
    check(b is not None, 'refused after an edit')
    check_eq(a != b, cov, 'digest changes when %s.%s[%s] changes (hash type %s, input %d)'
             % (e['where'], e['field'], k, ht, idx))
    return (True, ['covered' if cov else 'not covered', '%s.%s' % (e['where'], e['field'])])


def strat_cover():
    arg = st.fixed_dictionaries(dict(
        where=st.just('arg'), field=st.sampled_from(['genesis', 'annex', 'leaf', 'codesep', 'ht', 'idx']),
        seed=st.binary(min_size=4, max_size=4)))
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=3, max_out=3), spent=st.lists(gen.txout(), min_size=1, max_size=3),
        ht=st.sampled_from(HT), genesis=gen.b32(), idx=gen.pos(),
        annex=st.one_of(st.none(), gen.b32()), leaf=st.one_of(st.none(), gen.b32()),
        edit=gen.weighted((5, sigedit.strategy()), (1, arg)), params=st.sampled_from(PARAMS)))


def move(parts, by):
    """The same bytes, cut elsewhere."""
    a, b = parts
    whole = a + b
    p = by % (len(whole) + 1)
    return whole[:p], whole[p:]


def check_cuts(case):
    """Two different messages never serialize alike: bytes moved from one
    variable-length item to its neighbour."""
    tx, spent = case['tx'], fit(case)
    ht, genesis = case['ht'], case['genesis']
    idx = case['idx'] % len(tx['vin'])
    tx2, spent2 = copy.deepcopy(tx), copy.deepcopy(spent)
    w = case['what']
    if w == 'issuance proofs':
        i, j = tx['vin'][idx], tx2['vin'][idx]
        if not i['iss']:
            return (False, ['no issuance'])
        j['wit']['ar'], j['wit']['kr'] = move((i['wit']['ar'], i['wit']['kr']), case['by'])
        same_ = j['wit'] == i['wit']
    elif w == 'output proofs':
        k = idx if idx < len(tx['vout']) else 0
        if not tx['vout'] or (ht is not None and ht & 3 == 2) or (ht is not None and ht & 3 == 3 and k != idx):
            return (False, ['no output'])
        i, j = tx['vout'][k], tx2['vout'][k]
        j['wit']['sp'], j['wit']['rp'] = move((i['wit']['sp'], i['wit']['rp']), case['by'])
        same_ = j['wit'] == i['wit']
    elif w == 'proofs of neighbouring inputs':
        if len(tx['vin']) < 2 or (ht is not None and ht & 0x80):
            return (False, ['one input'])
        a, b = tx2['vin'][0]['wit'], tx2['vin'][1]['wit']
        a['kr'], b['ar'] = move((a['kr'], b['ar']), case['by'])
        same_ = tx == tx2
    elif w == 'spent scripts':
        if len(spent) < 2 or (ht is not None and ht & 0x80):
            return (False, ['one input'])
        spent2[0]['spk'], spent2[1]['spk'] = move((spent[0]['spk'], spent[1]['spk']), case['by'])
        same_ = spent == spent2
    else:
        # spent script and the sequence number that follows it
        if ht is None or not ht & 0x80:
            return (False, ['not ACP'])
        import struct
        whole = spent[idx]['spk'] + struct.pack('<I', tx['vin'][idx]['seq'])
        n = 1 + case['by'] % 4
        if len(spent[idx]['spk']) < n:
            return (False, ['short script'])
        # drop n bytes from the front: everything after it moves
        spent2[idx]['spk'] = whole[n:-4]
        same_ = False
    if same_:
        return (False, ['same cut'])
    with params('elements'):
        try:
            a = call(mk_tx(tx), idx, outs(spent), ht, genesis)
            b = call(mk_tx(tx2), idx, outs(spent2), ht, genesis)
        except ValueError:
            check(ht is not None and ht & 3 == 3 and idx >= len(tx['vout']), 'valid request refused')
            return (False, ['refused'])
    check(a != b, 'two different messages have the same digest (%s)', w)
    return (True, [w])


def strat_cuts():
    def with_proofs(tx):
        return tx
    iss_in = st.fixed_dictionaries(dict(
        txid=gen.b32(), n=gen.out_index(), ss=st.just(b''), seq=gen.u32(), pegin=st.booleans(),
        iss=gen.issuance(), wit=gen._inwit()))
    out = st.fixed_dictionaries(dict(asset=gen.asset_field(), value=gen.value_field(), nonce=gen.nonce_field(),
                                     spk=st.binary(max_size=30),
                                     wit=st.fixed_dictionaries(dict(sp=st.binary(max_size=20), rp=st.binary(max_size=20)))))
    tx = st.fixed_dictionaries(dict(
        v=gen.i32(), lt=gen.u32(), vin=st.lists(iss_in, min_size=1, max_size=3),
        vout=st.lists(out, max_size=3)))
    return st.fixed_dictionaries(dict(
        tx=tx, spent=st.lists(out, min_size=1, max_size=3), ht=st.sampled_from(HT), genesis=gen.b32(),
        idx=gen.pos(), by=st.integers(0, 60),
        what=st.sampled_from(['issuance proofs', 'output proofs', 'proofs of neighbouring inputs',
                              'spent scripts', 'script and sequence'])))


def check_invalid(case):
    tx, spent = case['tx'], fit(case)
    n = len(tx['vin'])
    idx = case['idx'] % n
    ht = case['ht']
    with params(case['params']):
        t = mk_tx(tx)
        sp = outs(spent)
        g = case['genesis']
        kw = dict(annex=None, leaf=None)
        w = case['what']
        try:
            if w == 'index':
                r = call(t, n + case['m'], sp, ht, g)
            elif w == 'negative index':
                r = call(t, -1 - case['m'], sp, ht, g)
            elif w == 'few spent':
                r = call(t, idx, sp[:-1], ht, g)
            elif w == 'many spent':
                r = call(t, idx, sp + sp[:1], ht, g)
            elif w == 'single':
                t = mk_tx(dict(tx, vout=tx['vout'][:idx]))
                r = call(t, idx, sp, 3 + (0x80 if case['m'] & 1 else 0), g)
            elif w == 'genesis':
                r = call(t, idx, sp, ht, case['wrong'])
            elif w == 'annex':
                r = call(t, idx, sp, ht, g, annex=case['wrong'])
            elif w == 'leaf':
                r = call(t, idx, sp, ht, g, leaf=case['wrong'])
            else:
                r = es.ElementsSignatureHashSchnorr(t, idx, sp, sigversion=SIGVERSION_TAPSCRIPT,
                                                    genesis_block_hash=g)
        except ValueError:
            return (True, [w])
        _ = kw
    fail('invalid request (%s) accepted: %s', w, short(r))


def strat_invalid():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=3, max_out=3), spent=st.lists(gen.txout(), min_size=1, max_size=3),
        ht=st.sampled_from((None, 1, 2, 0x81, 0x82)), genesis=gen.b32(), idx=gen.pos(), m=st.integers(0, 3),
        wrong=st.one_of(st.binary(max_size=31), st.binary(min_size=33, max_size=70)),
        what=st.sampled_from(['index', 'negative index', 'few spent', 'many spent', 'single', 'genesis',
                              'annex', 'leaf', 'no leaf']), params=st.sampled_from(PARAMS)))


def check_huge(case):
    return check_digest(dict(case, tx=gen.build_huge(case['huge'])))


def strat_huge():
    return st.fixed_dictionaries(dict(
        huge=gen.huge(), spent=st.lists(gen.txout(), min_size=1, max_size=4), ht=st.sampled_from(HT), genesis=gen.b32(), wit=st.sampled_from(['full', 'none']), annex=st.one_of(st.none(), gen.b32()), leaf=st.one_of(st.none(), gen.maybe_long()), codesep=st.none(),
        idx=gen.huge_index(), params=st.sampled_from(PARAMS)))


PROP = Prop('C08', [
    Sub('digest', check_digest, strat, quick=2400, thorough=100000,
        doc='both entry points against the independent digest'),
    Sub('cover', check_cover, strat_cover, quick=3200, thorough=100000,
        doc='one field or argument changed: the digest changes exactly if it is covered'),
    Sub('cuts', check_cuts, strat_cuts, quick=1600, thorough=40000,
        doc='bytes moved between neighbouring variable-length items change the digest'),
    Sub('invalid', check_invalid, strat_invalid, quick=1200, thorough=20000,
        doc='invalid requests raise ValueError'),
    Sub('huge', check_huge, strat_huge, quick=24, thorough=1500,
        doc='the same for transactions with hundreds of inputs or outputs, late ones signed'),
    Sub('history', sighist.check_history, lambda: sighist.strategy(('taproot', 'tapscript')), quick=600, thorough=20000,
        doc='transactions and spent outputs edited in place: after every edit the digests are those of the current state'),
], rule='transaction (absent/partial/full witness), spent outputs, input, hash type, annex, leaf, '
        'code separator position, selected parameters; non-trivial: request and edit applicable', zkp=False)
_ = (codec, SIGVERSION_TAPROOT)
