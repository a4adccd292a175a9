from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq
from .. import addrgen, blindgen as bg, gen, sched, zkp
from ..forked import in_child
from ..ref import curve
from bitcointx.core.key import CKey, CPubKey, XOnlyPubKey
from bitcointx.core.script import SIGHASH_Type, SIGVERSION_WITNESS_V0, SIGVERSION_TAPROOT

VALID = [1, 2, 3, 0x81, 0x82, 0x83]


def confidential(o):
    """An output made with the library directly, and the key that opens it"""
    g = zkp.gen64(o['asset'], o['abf'])
    com = zkp.commit33(o['amt'], o['bf'], g)
    pub = curve.pub(o['esec'])
    proof = zkp.rp_sign(o['amt'], 1, com, o['bf'], zkp.nonce_of(o['sec'], pub) if o['nonce'] else o['sec'], 0, o['bits'],
                        o['asset'] + o['abf'], o['spk'] if o['nonce'] else b'', g)
    return (ec.CElementsTxOut(ec.CConfidentialValue(com), es.CElementsScript(o['spk']),
                              ec.CConfidentialAsset(zkp.gen33(o['asset'], o['abf'])),
                              ec.CConfidentialNonce(pub if o['nonce'] else b'')), proof or b'')


class Shared:
    """Immutable things all threads use"""

    def __init__(self, case):
        self.case = case
        self.txs = [mk_tx(t, False) for t in case['txs']]
        self.reqs = [bg.Req(r) for r in case['reqs']]
        self.conf = [(o, *confidential(o)) for o in case['confs']]
        self.key = CKey(case['sec'])
        self.scripts = [es.CElementsScript(s) for s in case['scripts']]

    def values(self):
        return ([t.serialize() for t in self.txs], [(o.serialize(), p) for _, o, p in self.conf], [bytes(s) for s in self.scripts])


def do_tx(sh, op):
    t = sh.txs[op['i'] % len(sh.txs)]
    w = op['what']
    script = sh.scripts[op['j'] % len(sh.scripts)]
    n = len(t.vin)
    if w == 'ids':
        return t.GetTxid(), t.GetHash(), t.get_virtual_size(), t.num_issuances
    if w == 'bytes':
        b = t.serialize()
        u = (ec.CElementsMutableTransaction if op['j'] % 2 else ec.CElementsTransaction).deserialize(b)
        return b, u.serialize(), u.GetTxid(), type(u).__name__
    if w == 'generic':
        u = bc.CTransaction.deserialize(t.serialize()) if op['elements'] else t
        return type(u).__name__, u.GetHash(), [type(i).__name__ for i in u.vin], [type(o).__name__ for o in u.wit.vtxoutwit]
    if w == 'copy':
        m = t.to_mutable()
        m.nLockTime = op['j']
        if m.vout:
            m.vout[0].nValue = ec.CConfidentialValue(op['j'])
        if m.vin:
            m.vin[-1].is_pegin = not m.vin[-1].is_pegin
        return m.serialize(), m.to_immutable().GetHash(), m.GetTxid(), type(m.to_immutable().vin).__name__
    if w == 'repr':
        return repr(t), str(t)
    if w == 'legacy':
        return script.raw_sighash(t, op['j'] % (n + 1), op['ht'])
    if not n:
        return None
    if w == 'v0':
        return script.raw_sighash(t, op['j'] % n, op['ht'], amount=ec.CConfidentialValue(op['j']), sigversion=SIGVERSION_WITNESS_V0)
    spent = [o for _, o, _ in sh.conf]
    spent = [spent[(k + op['j']) % len(spent)] for k in range(n)]
    ht = SIGHASH_Type(op['ht']) if op['ht'] in VALID else None
    if w == 'taproot':
        return es.ElementsSignatureHashSchnorr(t, op['j'] % n, spent, hashtype=ht, sigversion=SIGVERSION_TAPROOT,
                                               genesis_block_hash=sh.case['sec'])
    return script.sighash_schnorr(t, op['j'] % n, spent, hashtype=ht, codeseparator_pos=op['j'], genesis_block_hash=sh.case['sec'])


def do_blind(sh, op):
    r = sh.reqs[op['i'] % len(sh.reqs)]
    t = r.make_tx()
    res = r.blind(t, bg.Stream(bytes([op['j']])))
    if not isinstance(res, ec.BlindingSuccess):
        return 'failure', str(res.error), t.serialize()
    return (t.serialize(), res.num_successfully_blinded, [b.data for b in res.blinding_factors],
            [b.data for b in res.asset_blinding_factors])


def do_unblind(sh, op):
    o, out, proof = sh.conf[op['i'] % len(sh.conf)]
    if op['j'] % 4 == 0:
        proof = proof[:-1] + bytes([proof[-1] ^ 1]) if proof else proof
    u = out.unblind_confidential_pair(CKey(o['sec'] if op['j'] % 5 else o['esec']), proof)
    if not isinstance(u, ec.UnblindingSuccess):
        return 'failure', str(u.error)
    return u.asset.data, u.amount, u.blinding_factor.data, u.asset_blinding_factor.data


def do_proof(sh, op):
    p = sh.conf[op['i'] % len(sh.conf)][2]
    return tuple(ec.CElementsTxOutWitness(b'', p).get_rangeproof_info() or ()), ec.CAsset(sh.conf[op['j'] % len(sh.conf)][0]['asset']).to_commitment()


def do_commit(sh, op):
    """Commitments to amounts that need all of their 64 bits"""
    o = sh.conf[op['i'] % len(sh.conf)][0]
    a, gen_ = ec.blinded_asset(ec.CAsset(o['asset']), Uint256(o['abf']))
    v, com = ec.create_value_commitment(o['bf'], gen_, (op['j'] + 1) << (37 + op['j'] % 14))
    return a.commitment, gen_, v.commitment, com


def do_addr(sh, op):
    a = sh.case['addrs'][op['i'] % len(sh.case['addrs'])]
    s = addrgen.to_str(a)
    x = bw.CCoinAddress(s) if op['elements'] == 1 else addrgen.leaf(a['net'], a['kind'], bool(a['blind']))(s)
    r = [type(x).__name__, str(x), bytes(x), bytes(x.to_scriptPubKey()), x.get_output_size()]
    if a['blind']:
        u = x.to_unconfidential()
        y = type(x).from_unconfidential(u, x.blinding_pubkey)
        r += [str(u), str(y), type(u).__name__, type(y).__name__, bytes(y.blinding_pubkey)]
    return r


def do_tree(sh, op):
    s = [es.CElementsScript(bytes(x), name='n%d' % k) for k, x in enumerate(sh.scripts)]
    t = es.TaprootElementsScriptTree(s, internal_pubkey=XOnlyPubKey(sh.key.pub) if op['j'] % 2 else None)
    if not op['j'] % 2:
        t.set_internal_pubkey(XOnlyPubKey(sh.key.pub))
    cb = t.get_script_with_control_block('n%d' % (op['j'] % len(s)))
    return bytes(t.merkle_root), bytes(t.output_pubkey), bytes(cb[0]), bytes(cb[1])


def do_derive(sh, op):
    s = sh.scripts[op['i'] % len(sh.scripts)]
    t = sh.txs[op['j'] % len(sh.txs)]
    e = [ec.generate_asset_entropy(i.prevout, i.assetIssuance.assetEntropy) for i in t.vin]
    return (s.derive_blinding_key(sh.key).secret_bytes, s.is_unspendable(), repr(s.get_pegout_data()),
            [(x.data, ec.calculate_asset(x).data, ec.calculate_reissuance_token(x, bool(op['j'] % 2)).data) for x in e])


DO = {'tx': do_tx, 'blind': do_blind, 'unblind': do_unblind, 'proof': do_proof, 'addr': do_addr, 'tree': do_tree,
      'derive': do_derive, 'commit': do_commit}


def once(sh, op):
    def f():
        try:
            return DO[op['k']](sh, op)
        except Exception as e:
            return 'raised', type(e).__name__
    if op['net'] is None:
        return f()
    with params(op['net']):
        return f()


def program(sh, ops, net):
    with params(net):
        return [once(sh, dict(op, elements=(net if op['net'] is None else op['net']).startswith('elements'))) for op in ops]


def sequential(case):
    sh = Shared(case)
    return [program(sh, p['ops'], p['net']) for p in case['programs']]


def concurrent(case):
    sh = Shared(case)
    before = sh.values()
    s = sched.Sched(case['gaps'], case['picks'], case['deep'])
    if case['warm']:
        program(sh, [dict(k='derive', i=0, j=0, net=None), dict(k='proof', i=0, j=0, net=None)], 'elements')
    with params(case['params']):
        out = s.run([lambda p=p: program(sh, p['ops'], p['net']) for p in case['programs']])
    r = []
    for ok, v in out:
        if not ok:
            raise v
        r.append(v)
    check_eq(sh.values(), before, 'immutable objects used by several threads')
    return r, s.switches, s.free


def check_threads(case):
    want = in_child(lambda: sequential(case))
    got, switches, free = in_child(lambda: concurrent(case))
    for k, (p, g, w) in enumerate(zip(case['programs'], got, want)):
        for op, a, b in zip(p['ops'], g, w):
            check_eq(a, b, 'result of %s in thread %d, with %d changes between threads' % (
                op['k'] if op['k'] != 'tx' else op['what'], k, switches))
    lb = {op['k'] if op['k'] != 'tx' else op['what'] for p in case['programs'] for op in p['ops']}
    if free:
        lb.add('order given up')
    return switches > 1, sorted(lb)


# ---- one operation as a whole, at each point of another ---------------------------------

def check_preempt(case):
    progs = case['programs']

    def f(ks):
        sh = Shared(case)
        fs = [lambda p=p: program(sh, p['ops'], p['net']) for p in progs]
        with params(case['params']):
            want = [g() for g in fs]
            if ks is None:
                return want, 0, 0, []
            alone = sched.Sched([1 << 60], [0], case['deep'])
            alone.run(fs[:1])
            total = alone.ticks
            every = range(1, total) if total <= 2 * len(ks) else sorted({1 + k * (total - 1) // 10000 for k in ks})
            bad = []
            for k in every:
                out = sched.Sched([k, 1 << 60], [0], case['deep']).run(fs)
                for t, ((ok, v), w) in enumerate(zip(out, want)):
                    if not ok:
                        raise v
                    if v != w:
                        bad.append((t, k, v, w))
                if bad:
                    break
        return want, total, len(every), bad
    want = in_child(lambda: f(None))[0]
    got, total, n, bad = in_child(lambda: f(case['ks']))
    check_eq(got, want, 'results, one operation after the other')
    for t, k, v, w in bad:
        check_eq(v, w, 'result in thread %d, when a second operation is carried out at executed line %d of the first (of %d)' % (t, k, total))
    op = progs[0]['ops'][0]
    return n > 1, [op['k'] if op['k'] != 'tx' else op['what']]


# ---- the same, at the first use of the library --------------------------------------------

def check_first(case):
    progs = case['programs']

    def at(k, base):
        sh = Shared(case)
        fs = [lambda p=p: program(sh, p['ops'], p['net']) for p in progs]
        with params(case['params']):
            if base:
                return [g() for g in fs]
            s = sched.Sched([k, 1 << 60] if k else [1 << 60], [0], False)
            out = s.run(fs if k else fs[:1])
            for ok, v in out:
                if not ok:
                    raise v
            return [v for _, v in out], s.ticks
    want = in_child(lambda: at(0, True))
    total = in_child(lambda: at(0, False))[1]
    ks = sorted({1 + k * (total - 1) // 10000 if how else 1 + k % min(total, 120) for k, how in case['ks']})
    for k in ks:
        got, _ = in_child(lambda: at(k, False))
        for t, (v, w) in enumerate(zip(got, want)):
            check_eq(v, w, 'result in thread %d, when a second operation is carried out at executed line %d of the first use '
                           'of the library (of %d)' % (t, k, total))
    return len(ks) > 1, [p['ops'][0]['k'] for p in progs]


def strat_first():
    i, j = st.integers(0, 5), st.integers(0, 40)
    op = st.fixed_dictionaries(dict(k=st.sampled_from(['commit', 'commit', 'proof', 'unblind', 'blind', 'derive']), i=i, j=j, net=st.none()))
    return base(st.lists(st.fixed_dictionaries(dict(ops=op.map(lambda o: [o]), net=st.sampled_from(EPARAMS))), min_size=2, max_size=2),
                ks=st.lists(st.tuples(st.integers(0, 9999), gen.weighted((4, st.just(False)), (1, st.just(True)))), min_size=8, max_size=14),
                params=st.sampled_from(EPARAMS))


# ---- the same thread: requests made by the random source of another -------------------

def check_nested(case):
    def f():
        sh = Shared(case)
        out = []
        for p in case['programs']:
            left = list(p['ops'])
            results = []
            # (the method tx.blind runs under a setting of python-bitcointx that makes
            # generic classes mutable, which its random source would see, too)
            r = bg.Req(dict(case['reqs'][0], via=True))
            stream = bg.Stream(b'outer')
            t = r.make_tx()

            def rand(n):
                if nested and left:
                    results.append(once(sh, dict(left.pop(0), elements=p['net'].startswith('elements'), net=None)))
                return stream(n)
            with params(p['net']):
                try:
                    res = r.blind(t, rand)
                    outer = [t.serialize(), isinstance(res, ec.BlindingSuccess)]
                    if outer[1]:
                        outer += [[b.data for b in res.blinding_factors], [b.data for b in res.asset_blinding_factors]]
                except RuntimeError as e:
                    outer = str(e)
                in_rand = len(results)
                while left:
                    results.append(once(sh, dict(left.pop(0), elements=p['net'].startswith('elements'), net=None)))
            out.append((outer, results))
        return out, in_rand
    nested = False
    want, _ = in_child(f)
    nested = True
    got, n = in_child(f)
    check_eq(got, want, 'results of a request and of others made while it asks for random numbers')
    return n > 0, ['%d nested' % min(n, 4)]


# ---- cases ------------------------------------------------------------------------------

def confs():
    return st.fixed_dictionaries(dict(
        asset=gen.b32(False).filter(any), amt=st.integers(1, 60), abf=bg.factor(), bf=bg.factor().filter(any), sec=addrgen.secret(),
        esec=addrgen.secret(), bits=st.integers(6, 8), spk=st.binary(min_size=1, max_size=4), nonce=st.booleans()))


def ops(nets=True, even=False):
    net = gen.weighted((3, st.none()), (1, st.sampled_from(EPARAMS + ['bitcoin']))) if nets else st.none()
    i, j = st.integers(0, 5), st.integers(0, 40)
    tx = st.fixed_dictionaries(dict(
        k=st.just('tx'), what=st.sampled_from(['ids', 'bytes', 'generic', 'copy', 'repr', 'legacy', 'legacy', 'v0', 'v0', 'taproot', 'tapscript']),
        i=i, j=j, ht=st.sampled_from(VALID), net=net))
    other = st.fixed_dictionaries(dict(k=st.sampled_from(['unblind', 'unblind', 'proof', 'addr', 'tree', 'derive', 'commit']), i=i, j=j, net=net))
    blind = st.fixed_dictionaries(dict(k=st.just('blind'), i=i, j=j, net=net))
    return gen.weighted((5, tx), (6, other), (1, blind)) if even else gen.weighted((3, tx), (2, other), (2, blind))


def base(nprog, **kw):
    small = bg.request(max_in=2, max_out=3, min_out=1, bits=st.integers(6, 8), exp=st.sampled_from([None, 0, 0, 1]), foreign=False)
    return st.fixed_dictionaries(dict(
        txs=st.lists(gen.tx(max_in=2, max_out=2), min_size=1, max_size=2), reqs=st.lists(small, min_size=1, max_size=2),
        confs=st.lists(confs(), min_size=1, max_size=2), addrs=st.lists(addrgen.address(nets=addrgen.ENETS), min_size=1, max_size=2),
        scripts=st.lists(st.one_of(st.binary(max_size=6), st.just(b'\x6a\x20' + bytes(32) + b'\x01\x51')), min_size=1, max_size=3),
        sec=addrgen.secret(), programs=nprog, **kw))


def strat_threads():
    prog = st.fixed_dictionaries(dict(ops=st.lists(ops(), min_size=1, max_size=3), net=st.sampled_from(EPARAMS + ['bitcoin'])))
    # often the same kind of work in all threads
    same_ = st.builds(lambda o, js, n: [dict(ops=[dict(o, j=j)], net=n) for j in js], ops(),
                      st.lists(st.integers(0, 40), min_size=2, max_size=3), st.sampled_from(EPARAMS + ['bitcoin']))
    gap = gen.weighted((3, st.integers(1, 6)), (3, st.integers(1, 60)), (1, st.integers(1, 600)))
    return base(st.one_of(st.lists(prog, min_size=2, max_size=3), same_),
                gaps=st.lists(gap, min_size=1, max_size=12), picks=st.lists(st.integers(0, 5), min_size=1, max_size=5),
                deep=gen.weighted((3, st.just(False)), (1, st.just(True))), warm=gen.weighted((3, st.just(True)), (1, st.just(False))),
                params=st.sampled_from(EPARAMS + ['bitcoin']))


def strat_preempt():
    same_ = st.builds(lambda o, a, n: [dict(ops=[dict(o, i=i, j=j)], net=n) for i, j in a], ops(even=True),
                      st.lists(st.tuples(st.integers(0, 5), st.integers(0, 40)), min_size=2, max_size=2), st.sampled_from(EPARAMS + ['bitcoin']))
    two = st.builds(lambda o, p, n: [dict(ops=[x], net=m) for x, m in zip((o, p), n)], ops(even=True), ops(even=True),
                    st.lists(st.sampled_from(EPARAMS + ['bitcoin']), min_size=2, max_size=2))
    return base(gen.weighted((3, same_), (1, two)), ks=st.lists(st.integers(0, 9999), min_size=20, max_size=40),
                deep=gen.weighted((5, st.just(False)), (1, st.just(True))), params=st.sampled_from(EPARAMS + ['bitcoin']))


def strat_nested():
    return base(st.lists(st.fixed_dictionaries(dict(ops=st.lists(ops(False), min_size=1, max_size=4), net=st.sampled_from(EPARAMS))),
                         min_size=1, max_size=2))


PROP = Prop('C31', [
    Sub('threads', check_threads, strat_threads, quick=700, thorough=20000,
        doc='two or three threads working on requests of their own and shared immutable objects, changing turns at executed lines '
            'chosen by the case (of elementstx, sometimes also of python-bitcointx); first use of the library included'),
    Sub('preempt', check_preempt, strat_preempt, quick=400, thorough=12000,
        doc='an operation carried out as a whole in a second thread at each executed line (at 20 to 40 of them, if there are many) of '
            'an operation of the first, mostly of the same kind on other data'),
    Sub('first', check_first, strat_first, quick=80, thorough=3000,
        doc='an operation of a second thread carried out as a whole at executed lines of the first use of the library by another, '
            'each in a process that has not used it'),
    Sub('nested', check_nested, strat_nested, quick=400, thorough=10000,
        doc='operations carried out while another request asks its random source for numbers'),
], rule='programs of one to three operations per thread and a schedule; non-trivial: turns change more than once (or an operation is '
        'really nested)', assumptions=['turns change between lines of Python code, not inside the native library'])
_ = check, CPubKey
