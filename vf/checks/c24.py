import queue
import threading

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail, Violation
from .. import gen, addrgen
from ..ref import curve, addr as raddr, bip32, codec
import bitcointx.core as bc
import bitcointx.core.script as bs
import bitcointx.wallet as bw
from bitcointx.base58 import Base58Error
from bitcointx.core.key import CKey, CPubKey, XOnlyPubKey
import elementstx.wallet as ew

NETS = ['bitcoin', 'elements', 'elements/liquidv1', 'bitcoin/testnet', 'elements/elementsregtest']
CORE = {'bitcoin': 'CBitcoin', 'bitcoin/testnet': 'CBitcoin'}
WALLET = {'bitcoin': 'Bitcoin', 'bitcoin/testnet': 'BitcoinTestnet', 'elements': 'Elements',
          'elements/elementsregtest': 'Elements', 'elements/liquidv1': 'ElementsLiquidV1'}
PCLASS = {'elements': 'ElementsParams', 'elements/elementsregtest': 'ElementsParams',
          'elements/liquidv1': 'ElementsLiquidV1Params'}
NAME = {'elements/elementsregtest': 'elements'}
SECRET = bytes(range(1, 33))
PUB = curve.pub(SECRET)
RPC = {'elements': 7041, 'elements/elementsregtest': 7041, 'elements/liquidv1': 7042,
       'bitcoin': 8332, 'bitcoin/testnet': 18332}
DATADIR = {'elements': 'elementsregtest', 'elements/elementsregtest': 'elementsregtest', 'elements/liquidv1': 'liquidv1'}


def is_e(net):
    return net.startswith('elements')


def tname(module_e, module_b, net, kind, generic):
    """The class a generic one stands for."""
    if kind == 'core':
        return getattr(module_e, 'CElements' + generic[1:]) if is_e(net) else getattr(module_b, 'CBitcoin' + generic[1:])
    if kind == 'addr':
        return getattr(module_e if is_e(net) else module_b, generic.replace('Coin', WALLET[net]))
    raise AssertionError


CORES = ['CTransaction', 'CMutableTransaction', 'CTxIn', 'CMutableTxIn', 'CTxOut', 'CMutableTxOut', 'COutPoint',
         'CMutableOutPoint', 'CTxWitness', 'CMutableTxWitness', 'CTxInWitness', 'CMutableTxInWitness']
ECORES = ['CTxOutWitness', 'CMutableTxOutWitness']
WALLETS = ['P2PKHCoinAddress', 'P2SHCoinAddress', 'P2WPKHCoinAddress', 'P2WSHCoinAddress', 'P2TRCoinAddress',
           'CCoinKey', 'CCoinExtKey', 'CCoinExtPubKey']
CONFS = ['P2PKHCoinConfidentialAddress', 'P2SHCoinConfidentialAddress', 'P2WPKHCoinConfidentialAddress',
         'P2WSHCoinConfidentialAddress', 'P2TRCoinConfidentialAddress']
PROBES = CORES + WALLETS + ['CScript', 'TaprootScriptTree', 'parse'] + ECORES + CONFS


def make_addr(cls_name):
    c = getattr(bw, cls_name)
    return c.from_bytes(bytes(20 if 'PKH' in cls_name or 'P2SH' in cls_name else 32))


def probe(net, which):
    """Makes an object with a generic class and checks what it is."""
    if which in ECORES + CONFS and not is_e(net):
        which = 'CTxOut'
    if which in CORES + ECORES:
        o = getattr(bc, which)()
        want = tname(ec, bc, net, 'core', which)
        check(type(o) is want, '%s() under %s is %s', which, net, type(o).__name__)
        d = getattr(bc, which).deserialize(o.serialize()) if which not in (
            'CTransaction', 'CMutableTransaction', 'CTxWitness', 'CMutableTxWitness', 'CTxOut', 'CMutableTxOut') else o
        check(type(d) is want, '%s.deserialize() under %s is %s', which, net, type(d).__name__)
        if 'Transaction' in which:
            m = 'Mutable' if 'Mutable' in which else ''
            check(type(o.wit) is tname(ec, bc, net, 'core', 'C%sTxWitness' % m), 'type of the witness: %s', type(o.wit).__name__)
        if which in ('CTxIn', 'CMutableTxIn'):
            check(type(o.prevout) is tname(ec, bc, net, 'core', 'C%sOutPoint' % which[1:-4]), 'type of prevout')
        if which in ('CTxOut', 'CMutableTxOut'):
            s = getattr(bc, which)(
                *([ec.CConfidentialValue(5)] if is_e(net) else [5]), bs.CScript(b'\x51')).scriptPubKey
            check(type(s) is (es.CElementsScript if is_e(net) else bs.CBitcoinScript), 'type of script: %s', type(s).__name__)
        return o
    if which == 'CScript':
        o = bs.CScript([bs.OP_RETURN, b'xyz'])
        check(type(o) is (es.CElementsScript if is_e(net) else bs.CBitcoinScript), 'CScript() under %s is %s', net, type(o).__name__)
        return o
    if which == 'TaprootScriptTree':
        o = bs.TaprootScriptTree([bs.CScript(b'\x51', name='x')])
        check(type(o) is (es.TaprootElementsScriptTree if is_e(net) else bs.TaprootBitcoinScriptTree), 'tree class')
        check_eq(o.leaf_version, 0xc4 if is_e(net) else 0xc0, 'leaf version under %s' % net)
        return o
    if which == 'CCoinKey':
        o = bw.CCoinKey.from_secret_bytes(SECRET)
        return typed(o, net, which)
    if which == 'CCoinExtKey':
        return typed(bw.CCoinExtKey.from_seed(SECRET), net, which)
    if which == 'CCoinExtPubKey':
        o = typed(bw.CCoinExtKey.from_seed(SECRET).neuter(), net, which)
        return typed(bw.CCoinExtPubKey(str(o)), net, which)
    if which in CONFS:
        u = make_addr(which.replace('Confidential', ''))
        o = getattr(ew, which).from_unconfidential(u, PUB)
        check(type(o) is getattr(ew, which.replace('Coin', WALLET[net])), '%s under %s is %s', which, net, type(o).__name__)
        return o
    if which == 'parse':
        n = NAME.get(net, net)
        s = raddr.encode(n, 'p2wpkh', bytes(20))
        return typed(bw.CCoinAddress(s), net, 'P2WPKHCoinAddress')
    o = make_addr(which)
    return typed(o, net, which)


def typed(o, net, which):
    check(type(o) is getattr(ew if is_e(net) else bw, which.replace('Coin', WALLET[net])),
          '%s under %s is %s', which, net, type(o).__name__)
    return o


def snapshot(o):
    """What must not change, as plain values."""
    if hasattr(o, 'serialize'):
        r = [o.serialize(), str(type(o))]
        if hasattr(o, 'GetTxid'):
            r.append(bytes(o.GetTxid()))
        return r
    if isinstance(o, bytes):
        return [bytes(o), str(o), type(o)]
    return [o.merkle_root, o.leaf_version]


def old_check(o, snap, kind):
    """An Elements object made earlier keeps working, whatever is selected."""
    check_eq(snapshot(o), snap, 'state of an earlier %s' % type(o).__name__)
    t = type(o)
    if hasattr(o, 'serialize') and kind in CORES + ECORES + ['tx']:
        if not kind.endswith('TxWitness'):
            d = t.deserialize(o.serialize())
            check(type(d) is t, 'class after decoding: %s', type(d).__name__)
            check_eq(d.serialize(), o.serialize(), 'encoding after decoding')
        m, i = o.to_mutable(), o.to_immutable()
        check(type(m).__name__.startswith('CElementsMutable') and not type(i).__name__.startswith('CElementsMutable') and
              type(i).__name__.startswith('CElements'), 'classes after conversions: %s, %s', type(m).__name__, type(i).__name__)
        check(type(o.clone()) is t, 'class of the clone')
        check_eq(m.serialize(), o.serialize(), 'encoding after conversion')
        repr(o), str(o)
        if kind == 'tx':
            for x, what in ((m, 'Mutable'), (i, '')):
                for k in x.vin:
                    check(type(k) is getattr(ec, 'CElements%sTxIn' % what), 'class of an input')
                    check(type(k.prevout) is getattr(ec, 'CElements%sOutPoint' % what), 'class of an outpoint')
                    check(type(k.scriptSig) is es.CElementsScript, 'class of scriptSig')
                for k in x.vout:
                    check(type(k) is getattr(ec, 'CElements%sTxOut' % what), 'class of an output')
                    check(type(k.scriptPubKey) is es.CElementsScript, 'class of scriptPubKey')
                check(type(x.wit) is getattr(ec, 'CElements%sTxWitness' % what), 'class of the witness')
    elif hasattr(o, 'to_scriptPubKey'):
        s = o.to_scriptPubKey()
        check(type(s) is es.CElementsScript, 'script of an earlier address is %s', type(s).__name__)
        check(type(t(str(o))) is t and bytes(t(str(o))) == bytes(o), 'earlier address parsed again')
        if hasattr(o, 'to_unconfidential'):
            u = o.to_unconfidential()
            check(type(u).__name__ == t.__name__.replace('Confidential', ''), 'class of unconfidential form: %s', type(u).__name__)
    elif hasattr(o, 'derive'):
        d = o.derive(1)
        check(type(d) is t, 'class of a derived key: %s', type(d).__name__)
        check(type(t(str(o))) is t, 'class of the parsed key')
        if hasattr(o, 'neuter'):
            n = t.__name__.replace('ExtKey', '')
            check(type(o.neuter()).__name__ == n + 'ExtPubKey', 'class of neutered key: %s', type(o.neuter()).__name__)
            check(type(o.priv).__name__ == n + 'Key', 'class of the private key: %s', type(o.priv).__name__)
            check(type(d.priv).__name__ == n + 'Key', 'class of the private key: %s', type(d.priv).__name__)
    elif hasattr(o, 'secret_bytes'):
        check(bytes(o.pub) == PUB and type(t(str(o))) is t, 'earlier key')
    elif hasattr(o, 'derive_blinding_key'):
        check(type(t(bytes(o))) is t, 'class of script')
        o.derive_blinding_key(CKey(SECRET))
        check(o.is_unspendable() and not o.is_pegout(), 'classification of a script')


class Worker:
    """A thread executing one operation at a time, when told."""

    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True)
        self.t.start()

    def loop(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put((True, f()))
            except BaseException as e:
                self.r.put((False, e))

    def do(self, f):
        self.q.put(f)
        ok, v = self.r.get(timeout=120)
        if not ok:
            raise v
        return v


class Boom(Exception):
    pass


class Model:
    def __init__(self):
        self.cur = 'bitcoin'
        self.stack = []
        self.cms = []


def param_arg(net, how):
    if how == 1 and is_e(net):
        return getattr(elementstx, PCLASS[net])
    if how == 2 and is_e(net):
        return getattr(elementstx, PCLASS[net])()
    return net


def check_history(case):
    workers, models = [], []
    pool = []
    labels = set()
    switched = 0
    try:
        for _ in range(case['threads']):
            workers.append(Worker())
            models.append(Model())
            # (python-bitcointx leaves a new thread without any selected classes)
            workers[-1].do(lambda: bitcointx.select_chain_params('bitcoin'))
        for op in case['ops']:
            k = op['thread'] % len(workers)
            w, m = workers[k], models[k]
            what = op['op']

            def select(net):
                check_eq(bitcointx.get_current_chain_params().NAME, NAME.get(net, net), 'current parameters')
            if what == 'enter':
                def f():
                    cm = bitcointx.ChainParams(param_arg(op['net'], op['how']))
                    p = cm.__enter__()
                    check_eq(p.NAME, NAME.get(op['net'], op['net']), 'name of entered parameters')
                    check(p is bitcointx.get_current_chain_params(), 'entered parameters are not the current ones')
                    if is_e(op['net']):
                        check(type(p) is getattr(elementstx, PCLASS[op['net']]), 'class of parameters: %s', type(p).__name__)
                    return cm
                cm = w.do(f)
                m.cms.append((cm, m.cur))
                m.cur = op['net']
                labels.add('nested' if len(m.cms) > 1 else 'entered')
            elif what in ('exit', 'boom') and m.cms:
                cm, prev = m.cms.pop()

                def f():
                    if what == 'exit':
                        cm.__exit__(None, None, None)
                        return
                    e = Boom()
                    try:
                        r = cm.__exit__(Boom, e, None)
                    except Boom:
                        r = False
                    check(not r, 'the exception was swallowed')
                w.do(f)
                m.cur = prev
                labels.add(what)
            elif what == 'select':
                def f():
                    prev, new = bitcointx.select_chain_params(param_arg(op['net'], op['how']))
                    check_eq(prev.NAME, NAME.get(m.cur, m.cur), 'previous parameters')
                    check_eq(new.NAME, NAME.get(op['net'], op['net']), 'new parameters')
                w.do(f)
                m.cur = op['net']
                labels.add('select')
            elif what == 'bad':
                def f():
                    for x in ('elements/nosuch', 'Elements', '', 5, None, 'liquidv1'):
                        try:
                            bitcointx.select_chain_params(x)
                        except (ValueError, TypeError):
                            continue
                        fail('selected %r', x)
                w.do(f)
            elif what == 'probe':
                def f():
                    o = probe(m.cur, op['what'])
                    return (o, snapshot(o))
                o, snap = w.do(f)
                if is_e(m.cur):
                    pool.append((o, snap, op['what'], m.cur))
            elif what == 'tx':
                def f():
                    o = bc.CTransaction.deserialize(codec.ser_tx(op['tx'])) if is_e(m.cur) else mk_tx(op['tx'], False)
                    check(type(o) is ec.CElementsTransaction, 'class of a decoded transaction: %s', type(o).__name__)
                    check_eq(o.serialize(), codec.ser_tx(op['tx']), 'encoding')
                    if op['how']:
                        o = o.to_mutable()
                    return (o, snapshot(o))
                o, snap = w.do(f)
                pool.append((o, snap, 'tx', m.cur))
            elif what == 'old' and pool:
                o, snap, kind, net = pool[op['how'] % len(pool)]
                w.do(lambda: old_check(o, snap, kind))
                if net != m.cur:
                    switched += 1
                    labels.add('object used under another network')
            # every thread still is where the model says
            for ww, mm in zip(workers, models):
                ww.do(lambda: select(mm.cur))
        for w, m in zip(workers, models):
            while m.cms:
                cm, prev = m.cms.pop()
                w.do(lambda: cm.__exit__(None, None, None))
                m.cur = prev

            def f():
                select(m.cur)
                for x in ('CTransaction', 'CScript', 'P2WPKHCoinAddress', 'CCoinKey'):
                    probe(m.cur, x)
            w.do(f)
    finally:
        for w in workers:
            w.q.put(None)
        for w in workers:
            w.t.join(60)
    if len(workers) > 1:
        labels.add('several threads')
    return bool(switched) or 'nested' in labels, sorted(labels)


def strat_history():
    thread = st.integers(0, 2)
    net = st.sampled_from(NETS)
    how = st.integers(0, 9)
    small = gen.tx(max_in=2, max_out=2, coinbase=False).filter(
        lambda t: t['vin'] and not any(i['iss'] and not (i['iss']['amt'] or i['iss']['keys']) for i in t['vin']))

    def op(name, **kw):
        return st.fixed_dictionaries(dict(op=st.just(name), thread=thread, **kw))
    return st.fixed_dictionaries(dict(
        threads=gen.weighted((1, st.just(1)), (2, st.just(2)), (1, st.just(3))),
        ops=st.lists(gen.weighted(
            (3, op('enter', net=net, how=st.integers(0, 2))), (2, op('exit')), (1, op('boom')),
            (1, op('select', net=net, how=st.integers(0, 2))), (1, op('bad')),
            (5, op('probe', what=st.sampled_from(PROBES))), (1, op('tx', tx=small, how=st.integers(0, 1))),
            (5, op('old', how=how))), min_size=3, max_size=25)))


# ---- keys ------------------------------------------------------------------

KP = {'elements': dict(key=b'\xef', priv=b'\x04\x35\x83\x94', pub=b'\x04\x35\x87\xcf'),
      'elements/liquidv1': dict(key=b'\xef', priv=b'\x04\x88\xad\xe4', pub=b'\x04\x88\xb2\x1e')}
PREFIXES = {'key': [b'\x80', b'\xef', b'\x04', b'\xff', b'\x00'],
            'ext': [b'\x04\x35\x83\x94', b'\x04\x35\x87\xcf', b'\x04\x88\xad\xe4', b'\x04\x88\xb2\x1e', b'\x04\x88\xad\xe5',
                    b'\x00\x00\x00\x00']}


def refused(f, what):
    try:
        r = f()
    except (bw.CCoinAddressError, ValueError, Base58Error):
        return
    fail('%s not refused: %r', what, r)


def kcls(net, suffix):
    return getattr(ew, 'C' + WALLET[net] + suffix)


def check_keys(case):
    net, net2, secret = case['net'], case['net2'], case['secret']
    comp = case['compressed']
    wif_payload = secret + (b'\x01' if comp else b'')
    want = raddr.b58check(KP[net]['key'] + wif_payload)
    K, X, XP = kcls(net, 'Key'), kcls(net, 'ExtKey'), kcls(net, 'ExtPubKey')
    with params(net2):
        k = K.from_secret_bytes(secret, comp)
        check(type(k) is K, 'class of key')
        check_eq(str(k), want, 'key as string')
        for c in (K, type(k)):
            k2 = c(want)
            check(type(k2) is K, 'class of parsed key')
            check_eq(bytes(k2.secret_bytes), secret, 'secret of parsed key')
            check_eq(k2.is_compressed(), comp, 'compression flag')
            check_eq(str(k2), want, 'parsed key as string')
        pub = curve.pub(secret) if comp else b'\x04' + b''.join(
            c.to_bytes(32, 'big') for c in curve.mul(int.from_bytes(secret, 'big')))
        check_eq(bytes(k.pub), pub, 'public key')
    with params(net):
        g = bw.CCoinKey(want)
        check(type(g) is K and bytes(g.secret_bytes) == secret, 'key parsed by the generic class: %s', type(g).__name__)
        check_eq(str(bw.CCoinKey.from_secret_bytes(secret, comp)), want, 'generic key as string')
    # extended keys
    node = bip32.master(case['seed'])
    with params(net2):
        x = X.from_seed(case['seed'])
    for i in case['path']:
        n = node.child(i)
        if n is None:
            break
        with params(net2):
            x = x.derive(i)
        check(type(x) is X, 'class of derived key')
        node = n
    ws, wps = bip32.to_str(KP[net]['priv'], node), bip32.to_str(KP[net]['pub'], node.neuter())
    for p in (net, net2):
        with params(p):
            check_eq(str(x), ws, 'extended key as string')
            y = X(ws)
            check(type(y) is X and bytes(y) == bytes(x), 'extended key parsed')
            check(type(y.priv) is K, 'class of priv: %s', type(y.priv).__name__)
            check_eq(str(y.priv), raddr.b58check(KP[net]['key'] + node.k + b'\x01'), 'priv as string')
            xp = x.neuter()
            check(type(xp) is XP, 'class of neutered key: %s', type(xp).__name__)
            check_eq(str(xp), wps, 'extended public key as string')
            yp = XP(wps)
            check(type(yp) is XP and bytes(yp) == bytes(xp), 'extended public key parsed')
            check_eq(bytes(yp.pub), node.pub, 'public key of extended key')
            j = case['child'] & 0x7fffffff
            c = node.child(j)
            if c is not None:
                check_eq(str(x.derive(j).neuter()), bip32.to_str(KP[net]['pub'], c.neuter()), 'child')
                check_eq(str(xp.derive(j)), bip32.to_str(KP[net]['pub'], c.neuter()), 'child of public key')
                check(type(xp.derive(j)) is XP, 'class of child of public key')
    with params(net):
        check(type(bw.CCoinExtKey(ws)) is X, 'generic extended key')
        check(type(bw.CCoinExtPubKey(wps)) is XP, 'generic extended public key')
        check_eq(str(bw.CCoinExtKey.from_seed(case['seed'])), bip32.to_str(KP[net]['priv'], bip32.master(case['seed'])),
                 'generic extended key from seed')
        # addresses of keys belong to the network
        for kind, gc in (('p2pkh', bw.P2PKHCoinAddress), ('p2wpkh', bw.P2WPKHCoinAddress)):
            if kind == 'p2wpkh' and not comp:
                continue
            a = gc.from_pubkey(k.pub, **({'accept_uncompressed': True} if kind == 'p2pkh' else {}))
            check_eq(str(a), raddr.encode(net, kind, bip32.h160(pub)), 'address of the key')
            check_eq(type(bw.CCoinAddress(str(a))), type(a), 'address parsed')
        a = bw.P2TRCoinAddress.from_xonly_output_pubkey(XOnlyPubKey(CPubKey(curve.pub(secret))))
        check_eq(str(a), raddr.encode(net, 'p2tr', curve.pub(secret)[1:]), 'taproot address')
    # other prefixes
    lb = []
    for pfx in PREFIXES['key'] + [case['prefix'][:1]]:
        if pfx == KP[net]['key']:
            continue
        s = raddr.b58check(pfx + wif_payload)
        with params(net2):
            refused(lambda: K(s), 'key with prefix %s' % pfx.hex())
        with params(net):
            refused(lambda: bw.CCoinKey(s), 'key with prefix %s' % pfx.hex())
    for pfx in PREFIXES['ext'] + [case['prefix']]:
        for nd, c, gc, own in ((node, X, bw.CCoinExtKey, 'priv'), (node.neuter(), XP, bw.CCoinExtPubKey, 'pub')):
            if pfx == KP[net][own]:
                continue
            s = bip32.to_str(pfx, nd)
            with params(net2):
                refused(lambda: c(s), 'extended key with prefix %s' % pfx.hex())
            with params(net):
                refused(lambda: gc(s), 'extended key with prefix %s' % pfx.hex())
                if pfx in KP[net].values():
                    refused(lambda: {'priv': X, 'pub': XP}[own](s), 'the other kind of extended key')
    with params(net2):
        refused(lambda: X(wps), 'public key as private key')
        refused(lambda: XP(ws), 'private key as public key')
        bad = corrupt58(want, case['pos'])
        refused(lambda: K(bad), 'corrupted key')
        refused(lambda: X(corrupt58(ws, case['pos'])), 'corrupted extended key')
    return True, lb + [net, 'path of %d' % len(case['path'])]


def corrupt58(s, pos):
    i = pos % len(s)
    c = raddr.B58[(raddr.B58.index(s[i]) + 1 + pos % 57) % 58]
    return s[:i] + c + s[i + 1:]


def strat_keys():
    return st.fixed_dictionaries(dict(
        net=st.sampled_from(['elements', 'elements/liquidv1']), net2=st.sampled_from(PARAMS),
        secret=addrgen.secret(), compressed=gen.weighted((3, st.just(True)), (1, st.just(False))),
        seed=st.sampled_from([16, 32, 64]).flatmap(lambda n: st.binary(min_size=n, max_size=n)),
        path=st.lists(st.one_of(st.integers(0, 0xffffffff), st.sampled_from([0, 1, 0x7fffffff, 0x80000000, 0xffffffff])), max_size=2),
        child=gen.u32(), prefix=st.binary(min_size=4, max_size=4), pos=st.integers(0, 10 ** 6)))


# ---- everything once on every network --------------------------------------

def cases_table(tier):
    return [dict(net=n, net2=n2, how=h) for n in NETS for n2 in NETS for h in (0, 1, 2)]


def check_table(case):
    net, net2 = case['net'], case['net2']
    with params(net2):
        with bitcointx.ChainParams(param_arg(net, case['how'])) as p:
            check_eq(p.NAME, NAME.get(net, net), 'name')
            check_eq(p.RPC_PORT, RPC[net], 'RPC port')
            if is_e(net):
                check_eq(p.get_datadir_extra_name(), DATADIR[net], 'data directory')
                check_eq(p.get_network_id(), DATADIR[net], 'network id')
                check(p.get_config_path().endswith('/.elements/elements.conf') or 'lements' in p.get_config_path(), 'config path')
            made = [(w, probe(net, w)) for w in PROBES]
            snaps = [snapshot(o) for _, o in made]
        for w in PROBES:
            probe(net2, w)
        if is_e(net):
            for (w, o), s in zip(made, snaps):
                old_check(o, s, w)
    return net != net2, [net]


# ---- no call changes the selection -----------------------------------------

def _spk(c):
    return es.CElementsScript([bs.OP_0, c['h20']])


CALLS = {
    'tree': lambda c: es.TaprootElementsScriptTree([es.CElementsScript(b'\x51', name='x')], internal_pubkey=c['x']),
    'internal key': lambda c: es.TaprootElementsScriptTree([es.CElementsScript(b'\x51', name='x')]).set_internal_pubkey(c['x']),
    'wrong internal key': lambda c: es.TaprootElementsScriptTree([es.CElementsScript(b'\x51', name='x')]).set_internal_pubkey(c['h20']),
    'wrong tree': lambda c: es.TaprootElementsScriptTree([c['h20']]),
    'control block': lambda c: CALLS['tree'](c).get_script_with_control_block('x'),
    'no such leaf': lambda c: CALLS['tree'](c).get_script_with_control_block('y'),
    'address of a tree': lambda c: ew.P2TRElementsAddress.from_script_tree(CALLS['tree'](c)),
    'generic address of a tree': lambda c: bw.P2TRCoinAddress.from_script_tree(CALLS['tree'](c)),
    'generic tree': lambda c: bs.TaprootScriptTree([bs.CScript(b'\x51', name='x')], internal_pubkey=c['x']),
    'address': lambda c: ew.CElementsAddress(c['s']),
    'other address': lambda c: ew.CElementsLiquidV1Address(c['s']),
    'generic address': lambda c: bw.CCoinAddress(c['s']),
    'confidential address': lambda c: ew.CCoinConfidentialAddress(c['s']),
    'address from bytes': lambda c: ew.P2WPKHElementsAddress.from_bytes(c['h20']),
    'wrong address from bytes': lambda c: ew.P2WSHElementsLiquidV1Address.from_bytes(c['h20']),
    'made confidential': lambda c: ew.P2WPKHElementsConfidentialAddress.from_unconfidential(
        ew.P2WPKHElementsAddress.from_bytes(c['h20']), PUB),
    'made confidential, other network': lambda c: ew.P2WPKHElementsLiquidV1ConfidentialAddress.from_unconfidential(
        ew.P2WPKHElementsAddress.from_bytes(c['h20']), PUB),
    'address from script': lambda c: ew.CElementsLiquidV1Address.from_scriptPubKey(_spk(c)),
    'address from a wrong script': lambda c: ew.CElementsAddress.from_scriptPubKey(es.CElementsScript(c['h20'])),
    'generic address from script': lambda c: bw.CCoinAddress.from_scriptPubKey(_spk(c)),
    'address from a foreign script': lambda c: ew.CElementsAddress.from_scriptPubKey(bs.CBitcoinScript(b'\x51')),
    'output size': lambda c: ew.P2WPKHElementsAddress.from_bytes(c['h20']).get_output_size(),
    'class output size': lambda c: ew.P2SHElementsLiquidV1ConfidentialAddress.get_output_size(),
    'key': lambda c: ew.CElementsKey(c['s']),
    'extended key': lambda c: str(ew.CElementsLiquidV1ExtKey.from_seed(SECRET).derive(1).neuter()),
    'wrong extended key': lambda c: ew.CElementsExtPubKey(c['s']),
    'wrong path': lambda c: ew.CElementsExtKey.from_seed(SECRET).derive_path('x'),
    'transaction': lambda c: ec.CElementsTransaction.deserialize(codec.ser_tx(c['tx'])),
    'generic transaction': lambda c: bc.CTransaction.deserialize(codec.ser_tx(c['tx'])),
    'truncated transaction': lambda c: ec.CElementsMutableTransaction.deserialize(codec.ser_tx(c['tx'])[:-1]),
    'conversions': lambda c: mk_tx(c['tx']).to_mutable().to_immutable().clone(),
    'text': lambda c: (repr(mk_tx(c['tx'])), str(mk_tx(c['tx'], True))),
    'id': lambda c: (mk_tx(c['tx']).GetTxid(), mk_tx(c['tx'], True).get_virtual_size()),
    'foreign parts': lambda c: ec.CElementsTransaction([bc.CBitcoinTxIn()], [bc.CBitcoinTxOut()]),
    'wrong parts': lambda c: ec.CElementsTxOut(5, c['h20']),
    'digest': lambda c: es.CElementsScript(b'\x51').raw_sighash(mk_tx(c['tx']), 0, bs.SIGHASH_ALL),
    'wrong digest': lambda c: es.CElementsScript(b'\x51').sighash(mk_tx(c['tx']), 99, bs.SIGHASH_SINGLE),
    'schnorr digest': lambda c: es.CElementsScript(b'\x51').sighash_schnorr(
        mk_tx(c['tx']), 0, [mk_out(dict(asset=b'', value=b'', nonce=b'', spk=b''))] * len(c['tx']['vin']),
        genesis_block_hash=bytes(32)),
    'wrong schnorr digest': lambda c: es.CElementsScript(b'\x51').sighash_schnorr(mk_tx(c['tx']), 99, [], genesis_block_hash=b''),
    'blinding key': lambda c: es.CElementsScript(c['h20']).derive_blinding_key(CKey(SECRET)),
    'wrong blinding key': lambda c: es.derive_blinding_key(CKey(SECRET), bs.CBitcoinScript(c['h20'])),
    'nothing to blind': lambda c: mk_tx(c['tx'], True).blind(
        input_blinding_factors=[], input_asset_blinding_factors=[], input_assets=[], input_amounts=[], output_pubkeys=[]),
    'nothing to unblind': lambda c: ec.CElementsTxOut().unblind_confidential_pair(CKey(SECRET), b''),
    'peg-out': lambda c: es.CElementsScript(c['h20']).get_pegout_data(),
    'selection of something else': lambda c: bitcointx.select_chain_params('elements/' + c['s'][:5]),
}


def check_calls(case):
    """Whatever is called, the selection stays."""
    x = XOnlyPubKey(CPubKey(PUB))
    worked = 0
    lb = set()
    for call in case['calls']:
        c = dict(call, x=x, s=raddr.encode(call['snet'], 'p2wpkh', call['h20'], PUB if call['conf'] else None))
        with params(case['net']):
            try:
                CALLS[call['call']](c)
                worked += 1
                lb.add('works: ' + call['call'])
            except Violation:
                raise
            except Exception:
                # what the calls do is judged elsewhere
                pass
            expect_selected(case['net'], '"%s"' % call['call'])
    expect_selected('bitcoin', 'the calls made before')
    return bool(case['calls']), sorted(lb | {'call: ' + k['call'] for k in case['calls']}) + ['%d calls worked' % worked]


def strat_calls():
    small = gen.tx(min_in=1, max_in=2, max_out=2, coinbase=False)
    return st.fixed_dictionaries(dict(net=st.sampled_from(NETS), calls=st.lists(st.fixed_dictionaries(dict(
        call=st.sampled_from(sorted(CALLS)), h20=st.binary(min_size=20, max_size=20), tx=small, conf=st.booleans(),
        snet=st.sampled_from(['elements', 'elements/liquidv1']))), min_size=1, max_size=4)))


PROP = Prop('C24', [
    Sub('table', check_table, cases=cases_table, doc='every generic class under every pair of networks'),
    Sub('history', check_history, strat_history, quick=1200, thorough=40000,
        doc='selections in up to three threads, in an order given by the case, against a stack model'),
    Sub('calls', check_calls, strat_calls, quick=800, thorough=20000,
        doc='calls that work and calls that fail, on the way of which the library selects classes itself'),
    Sub('keys', check_keys, strat_keys, quick=240, thorough=6000,
        doc='keys and extended keys against base58check and BIP32 in plain Python'),
], rule='a history of nested selections, exits, exceptions, object creations and later uses over threads, or a key and a '
        'derivation path; non-trivial: an object is used under another network or selections nest; all keys',
   zkp=False)
_ = Violation
