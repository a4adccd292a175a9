"""Signature digests in the course of a transaction's life: two mutable
transactions and their spent outputs are edited in place, and after every
edit the digests of the one and the other are those of their current state."""
import copy

from hypothesis import strategies as st

from .build import *  # noqa
from .core import check, check_eq
from . import edits, gen
from .ref import sighash as ref
from bitcointx.core.script import SIGHASH_Type, SIGVERSION_WITNESS_V0, SIGVERSION_TAPROOT

HT = [1, 2, 3, 0x81, 0x82, 0x83]


def digest(kind, script, t, idx, ht, amount, spent, genesis):
    s = es.CElementsScript(script)
    if kind == 'legacy':
        return s.raw_sighash(t, idx, ht)[0]
    if kind == 'v0':
        return s.raw_sighash(t, idx, ht, amount=ec.CConfidentialValue(amount), sigversion=SIGVERSION_WITNESS_V0)[0]
    kw = dict(genesis_block_hash=genesis, hashtype=SIGHASH_Type(ht))
    try:
        if kind == 'tapscript':
            return s.sighash_schnorr(t, idx, spent, **kw)
        return es.ElementsSignatureHashSchnorr(t, idx, spent, sigversion=SIGVERSION_TAPROOT, **kw)
    except ValueError:
        return None


def wanted(kind, script, m, idx, ht, amount, spent, genesis):
    if kind == 'legacy':
        return ref.legacy(m, idx, script, ht)[0]
    if kind == 'v0':
        return ref.segwit_v0(m, idx, script, ht, amount)
    try:
        return ref.taproot(m, idx, spent, ht, genesis, None, ref.leaf_hash(script) if kind == 'tapscript' else None, -1)
    except ref.RefError:
        return None


def check_history(case):
    models = [copy.deepcopy(t) for t in case['txs']]
    spent = [[copy.deepcopy(o) for o in case['spent']] for _ in models]
    n = 0
    labels = set()
    with params(case['params']):
        txs = [mk_tx(t, True) for t in models]
        souts = [[mk_out(o, True) for o in s] for s in spent]
        snaps = []
        # the caller keeps its list of spent outputs and changes it in place
        lists = [[] for _ in models]

        def kept(w, k):
            lists[w][:] = fit(souts[w], k)
            return lists[w]

        def fit(x, k):
            return [x[i % len(x)] for i in range(k)]

        def judge(what):
            for w, (t, m) in enumerate(zip(txs, models)):
                if not m['vin']:
                    continue
                for d in case['digests']:
                    idx = d['idx'] % len(m['vin'])
                    k = len(m['vin'])
                    for kind in case['kinds']:
                        want = wanted(kind, d['script'], m, idx, d['ht'], d['amount'], fit(spent[w], k), case['genesis'])
                        check_eq(digest(kind, d['script'], t, idx, d['ht'], d['amount'], kept(w, k), case['genesis']), want,
                                 '%s digest of transaction %d %s' % (kind, w, what))
        judge('at first')
        for op in case['ops']:
            w = op['t'] % len(txs)
            if op['spent'] is not None:
                k = op['k'] % len(spent[w])
                o = op['spent']
                for f, a, v in (('value', 'nValue', ec.CConfidentialValue), ('asset', 'nAsset', ec.CConfidentialAsset),
                                ('spk', 'scriptPubKey', es.CElementsScript)):
                    if op['which'] in (f, 'all'):
                        if souts[w][k].is_mutable() and not op.get('new'):
                            setattr(souts[w][k], a, v(o[f]))
                        spent[w][k][f] = o[f]
                if op.get('new') or not souts[w][k].is_mutable():
                    souts[w][k] = mk_out(spent[w][k], op['k'] & 1 == 0)
                labels.add('spent output replaced' if op.get('new') else 'spent output')
            else:
                m = edits.apply(models[w], txs[w], op['edit'])
                if m is None:
                    continue
                models[w] = m
                labels.add(op['edit']['op'])
            n += 1
            judge('after edit of %s' % (op['which'] if op['spent'] is not None else op['edit']['op']))
            if op['snap'] and models[w]['vin']:
                im = txs[w].to_immutable()
                d = case['digests'][0]
                args = (d['idx'] % len(models[w]['vin']), d['ht'], d['amount'],
                        [o.to_immutable() for o in fit(souts[w], len(models[w]['vin']))], case['genesis'])
                snaps.append((im, d['script'], args, [digest(k, d['script'], im, *args) for k in case['kinds']]))
                check_eq(snaps[-1][3], [digest(k, d['script'], txs[w], *args) for k in case['kinds']], 'digest of a snapshot')
        for im, script, args, was in snaps:
            check_eq([digest(k, script, im, *args) for k in case['kinds']], was, 'digest of a snapshot in the end')
    return n > 0, sorted(labels)


def strategy(kinds):
    dig = st.fixed_dictionaries(dict(
        idx=gen.pos(), ht=st.sampled_from(HT), amount=gen.value_field(null=False),
        script=st.sampled_from([b'\x51', b'\x76\xa9\x14' + b'\x11' * 20 + b'\x88\xac', b'\xac', b'\x51\xab\xac'])))
    no = st.none()
    op = st.fixed_dictionaries(dict(t=st.integers(0, 1), k=gen.pos(), edit=edits.strategy(),
                                    spent=gen.weighted((5, no), (1, gen.txout())) if 'taproot' in kinds else no,
                                    new=st.booleans(), which=st.sampled_from(['value', 'asset', 'spk', 'all']),
                                    snap=gen.weighted((3, st.just(False)), (1, st.just(True)))))
    one = gen.tx(min_in=1, max_in=3, max_out=3)
    two = st.one_of(one.map(lambda t: [t]), one.map(lambda t: [t, t]), st.lists(one, min_size=2, max_size=2))
    return st.fixed_dictionaries(dict(
        txs=two, spent=st.lists(gen.txout(), min_size=1, max_size=2), digests=st.lists(dig, min_size=1, max_size=2),
        ops=st.lists(op, min_size=1, max_size=6), genesis=gen.b32(), kinds=st.just(list(kinds)), params=st.sampled_from(PARAMS)))


_ = check
