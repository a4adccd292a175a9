"""The example programs, run in a forked process on generated files."""
import contextlib
import importlib.util
import io
import os
import queue
import runpy
import sys
import tempfile
import threading
from decimal import Decimal
from types import SimpleNamespace

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, Violation, check, check_eq
from .. import addrgen, blindgen as bg, env, gen, zkp
from ..forked import in_child
from ..ref import addr as raddr, bip32, codec, curve
from .c30 import h, node
from bitcointx import select_chain_params
from bitcointx.core.key import CKey

EXAMPLES = os.path.join(env.REPO, 'examples')
COIN = 10 ** 8


def run_example(name, args, net):
    """(exit status, stdout, stderr)"""
    def f():
        out, err = io.StringIO(), io.StringIO()
        sys.argv = [name] + args + ([net] if net is not None else [])
        sys.path.insert(0, EXAMPLES)
        code = 0
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(os.path.join(EXAMPLES, name), run_name='__main__')
            except SystemExit as e:
                code = e.code
            except Exception as e:
                code = '%s: %s' % (type(e).__name__, e)
        return code, out.getvalue(), err.getvalue()
    return in_child(f)


@contextlib.contextmanager
def files(**contents):
    with tempfile.TemporaryDirectory(prefix='vf-c32-') as d:
        paths = {}
        for k, v in contents.items():
            paths[k] = os.path.join(d, k)
            with open(paths[k], 'w') as h:
                h.write(v + '\n')
        yield SimpleNamespace(**paths)


# ---- transactions made with the library directly -----------------------------------

def script_of(o):
    p = o['pay']
    return raddr.script(o['kind'], p) if o['kind'] in addrgen.KINDS else {'burn': b'\x6a', 'data': b'\x6a\x03abc', 'odd': b'\x51'}[o['kind']]


def plain_out(o, spk):
    """Plain form of an output; confidential ones with their proofs"""
    if o['form'] == 'explicit':
        return dict(asset=b'\x01' + o['asset'], value=b'\x01' + o['amt'].to_bytes(8, 'big'), nonce=b'', spk=spk, wit=dict(codec.NULL_OUTWIT))
    g = zkp.gen64(o['asset'], o['abf'])
    com = zkp.commit33(o['amt'], o['bf'], g)
    nonce = zkp.nonce_of(o['esec'], curve.pub(o['bsec']))
    lo = 0 if spk[:1] == b'\x6a' else 1
    proof = zkp.rp_sign(o['amt'], lo, com, o['bf'], nonce, 0, o['bits'], o['asset'] + o['abf'], spk, g)
    return dict(asset=zkp.gen33(o['asset'], o['abf']), value=com, nonce=curve.pub(o['esec']), spk=spk, wit=dict(sp=b'', rp=proof or b''))


def provable(o):
    return o['form'] == 'explicit' or o['amt'] > 0 or o['kind'] in ('burn', 'data')


def as_coins(s):
    return int(Decimal(s.strip()) * COIN)


# ---- unblind.py -----------------------------------------------------------------------

def blocks(text):
    r = []
    for line in text.splitlines():
        if line.startswith('vout '):
            r.append([line.split(':', 1)[1].strip(), {}])
            if not line.startswith('vout %d:' % (len(r) - 1)):
                r.append(['out of order', {}])
        elif line.strip() and r:
            k, _, v = line.strip().partition(':') if ':' in line else line.strip().partition(' ')
            r[-1][1][k.strip()] = v.strip()
    return r


def known_stop(outs, cut, code):
    """(finding, output) where the program is known to stop in that way"""
    if not isinstance(code, str):
        return None
    for n, o in enumerate(outs):
        if o['form'] != 'explicit' and cut:
            return ('unblind-no-witness', n) if code.startswith('IndexError') else None
        if o['kind'] in ('burn', 'data', 'odd'):
            return ('unblind-no-address', n) if code.startswith('CCoinAddressError') else None
    return None


def check_unblind(case):
    net = case['net'] or 'elements'
    outs = [o for o in case['outs'] if provable(o)]
    if not outs:
        return False, ['no outputs']
    key = case['bsec']
    pl = []
    for o in outs:
        if o['mine']:
            o['bsec'] = key
        fee = o['kind'] == 'fee'
        if fee:
            o['form'] = 'explicit'
        pl.append(plain_out(o, b'' if fee else script_of(o)))
    model = dict(v=2, lt=0, vin=[dict(txid=b'\x07' * 32, n=0, ss=b'', seq=0, pegin=False, iss=None, wit=dict(codec.NULL_INWIT))], vout=pl)
    if case['cut']:
        for o in pl:
            o['wit'] = dict(codec.NULL_OUTWIT)
    raw = codec.ser_tx(model)
    with files(tx=raw.hex(), key=key.hex()) as p:
        code, out, err = run_example('unblind.py', [p.tx, p.key], case['net'])
    bad = known_stop(outs, case['cut'], code)
    if bad is not None:
        if case.get('strict'):
            key, n = bad
            e = Violation('stops at output %d: %s' % (n, code))
            e.key = key
            raise e
        # (see the sub 'known') what was printed so far is judged
        outs, pl = outs[:bad[1]], pl[:bad[1]]
        got = blocks(out)[:bad[1]]
    else:
        check_eq(code, 0, 'exit status (stderr: %s)' % err[-300:])
        got = blocks(out)
    check_eq(len(got), len(pl), 'outputs reported')
    lb = set()
    for n, (o, x, (what, f)) in enumerate(zip(outs, pl, got)):
        where = 'output %d' % n
        spk = x['spk']
        a = None if o['kind'] not in addrgen.KINDS else raddr.encode(net, o['kind'], o['pay'])
        if o['form'] == 'explicit':
            want = 'fee' if o['kind'] == 'fee' else 'explicit'
        else:
            opens = not case['cut'] and o['bsec'] == key
            want = 'unblinded' if opens else 'cannot unblind'
        lb.add(want)
        check(what.startswith(want), '%s: %s instead of %s', where, what, want)
        if want in ('explicit', 'unblinded', 'fee'):
            check_eq(as_coins(f['amount']), o['amt'], 'amount of ' + where)
            check(o['asset'][::-1].hex() in f['asset'] or o['asset'].hex() in f['asset'], 'asset of %s: %s', where, f['asset'])
        if want == 'unblinded':
            check(o['bf'][::-1].hex() in f['blinding_factor'] or o['bf'].hex() in f['blinding_factor'], 'blinding factor of %s', where)
            check(o['abf'][::-1].hex() in f['asset_blinding_factor'] or o['abf'].hex() in f['asset_blinding_factor'],
                  'asset blinding factor of %s', where)
            if a is not None:
                check_eq(f['unconfidential'], a, 'address of ' + where)
                check_eq(f['confidential'], raddr.encode(net, o['kind'], o['pay'], curve.pub(key)), 'confidential address of ' + where)
        elif a is not None and want != 'fee':
            check_eq(f['destination address'], a, 'address of ' + where)
        if want == 'cannot unblind' and x['wit']['rp']:
            i = zkp.rp_info(x['wit']['rp'])
            check_eq((int(f['ct-exponent']), int(f['ct-bits']), as_coins(f['value-minimum']), as_coins(f['value-maximum'])), tuple(i)[:4],
                     'range of ' + where)
        _ = spk
    return len(lb) > 1, sorted(lb)


def one_out():
    return st.fixed_dictionaries(dict(
        kind=gen.weighted((6, st.sampled_from(addrgen.KINDS)), (2, st.sampled_from(['burn', 'data', 'odd', 'fee']))),
        pay=st.binary(min_size=32, max_size=32), form=st.sampled_from(['explicit', 'conf', 'conf']), mine=st.booleans(),
        asset=gen.b32(False).filter(any), amt=st.one_of(st.integers(0, 200), st.integers(0, 21 * 10 ** 14)), abf=bg.factor(), bf=bg.factor().filter(any),
        bsec=addrgen.secret(), esec=addrgen.secret(), bits=gen.weighted((4, st.integers(6, 9)), (1, st.just(36)))))


def fit(o):
    n = 20 if o['kind'] in ('p2pkh', 'p2sh', 'p2wpkh') else 32
    return dict(o, pay=o['pay'][:n])


def strat_unblind():
    return st.fixed_dictionaries(dict(outs=st.lists(one_out().map(fit), min_size=1, max_size=4), bsec=addrgen.secret(),
                                      net=st.sampled_from([None, 'elements', 'elements/liquidv1']),
                                      cut=gen.weighted((6, st.just(False)), (1, st.just(True)))))


# ---- spend-to-confidential-address.py ---------------------------------------------------

def check_spend(case):
    net = case['net'] or 'elements'
    sec, bsec, dsec = case['sec'], case['bsec'], case['dsec']
    pub = curve.pub(sec)
    inner = b'\x00\x14' + bip32.h160(pub)
    spk = b'\xa9\x14' + bip32.h160(inner) + b'\x87'
    u = dict(case['utxo'], bsec=bsec, kind='p2sh')
    fee = case['fee']
    plain = [plain_out(o, script_of(o)) for o in case['others'] if provable(o)]
    k = case['at'] % (len(plain) + 1)
    if case['have']:
        plain.insert(k, plain_out(u, spk))
    if fee is not None:
        plain.append(plain_out(dict(form='explicit', asset=u['asset'], amt=fee), b''))
    model = dict(v=2, lt=0, vin=[dict(txid=b'\x07' * 32, n=0, ss=b'', seq=0, pegin=False, iss=None, wit=dict(codec.NULL_INWIT))], vout=plain)
    conf = u['form'] != 'explicit'
    d = case['dst']
    dst = raddr.encode(net, d['kind'], d['pay'], curve.pub(dsec) if case['dconf'] else None)
    key = case['wrong'] or bsec
    if net == 'elements/liquidv1' and not case.get('strict'):
        return False, ['liquidv1: see the sub known']
    with params(net):
        wif = str(bw_key(sec))
    with files(tx=codec.ser_tx(model).hex(), key=wif, bkey=key.hex()) as p:
        code, out, err = run_example('spend-to-confidential-address.py', [p.tx, p.key, p.bkey, dst], case['net'])
    opens = not conf or key == bsec
    if net == 'elements/liquidv1' and isinstance(code, str) and code.startswith('CCoinAddressError'):
        e = Violation('refuses the destination: %s' % code)
        e.key = 'spend-liquidv1'
        raise e
    if not case['have'] or fee is None or not opens or u['amt'] < 2 * fee:
        check(code not in (0, None), 'nothing to spend, but the program goes on')
        check_eq(out, '', 'output of a refusal')
        return False, ['refused']
    if not conf and case['dconf']:
        # one blinded output cannot balance inputs that are not blinded
        check(code not in (0, None), 'a lone output is said to be blinded')
        return False, ['cannot blind']
    left = u['amt'] - fee
    check_eq(code, 0, 'exit status (stderr: %s)' % err[-300:])
    raw = bytes.fromhex(out.strip())
    world = SimpleNamespace(utxo={(codec.txid(model), k): dict(out=plain[k])})
    tx = node(world, raw)
    o = tx['vout'][0]
    check_eq(o['spk'], raddr.script(d['kind'], d['pay']), 'script paid to')
    if case['dconf']:
        check(o['value'][0] != 1 and o['asset'][0] != 1, 'payment to a confidential address is not blinded')
        with params(net):
            t = ec.CElementsTransaction.deserialize(raw)
            r = t.vout[0].unblind_confidential_pair(CKey(dsec), t.wit.vtxoutwit[0].rangeproof)
        check(r.ok, 'receiver cannot unblind the payment')
        check_eq((r.asset.data, r.amount), (u['asset'], left), 'payment')
    else:
        check_eq((o['asset'], o['value']), (b'\x01' + u['asset'], b'\x01' + left.to_bytes(8, 'big')), 'payment')
    f = tx['vout'][1]
    check_eq((f['asset'], f['value'], f['spk']), (b'\x01' + u['asset'], b'\x01' + fee.to_bytes(8, 'big'), b''), 'fee')
    check_eq(len(tx['vout']), 3 if conf and not case['dconf'] else 2, 'number of outputs')
    return True, ['from %s' % u['form'], 'to %s' % ('confidential' if case['dconf'] else 'plain')]


def bw_key(sec):
    import bitcointx.wallet as bw
    return bw.CCoinKey.from_secret_bytes(sec)


def strat_spend():
    utxo = st.fixed_dictionaries(dict(
        form=st.sampled_from(['explicit', 'conf', 'conf']), asset=gen.b32(False).filter(any),
        amt=gen.weighted((1, st.integers(1, 300)), (2, st.integers(1, 21 * 10 ** 14))), abf=bg.factor(), bf=bg.factor().filter(any),
        esec=addrgen.secret(), bits=gen.weighted((4, st.integers(6, 9)), (1, st.just(36)))))
    dst = st.builds(lambda k, p: fit(dict(kind=k, pay=p)), st.sampled_from(addrgen.KINDS), st.binary(min_size=32, max_size=32))
    rare = gen.weighted((9, st.just(True)), (1, st.just(False)))
    return st.fixed_dictionaries(dict(
        utxo=utxo, others=st.lists(one_out().filter(lambda o: o['kind'] != 'fee').map(fit), max_size=2), at=st.integers(0, 2), have=rare,
        fee=gen.weighted((8, st.integers(1, 100)), (1, st.none()), (1, st.integers(0, 10 ** 6))), sec=addrgen.secret(), bsec=addrgen.secret(),
        dsec=addrgen.secret(), dst=dst, dconf=st.booleans(), wrong=gen.weighted((9, st.none()), (1, addrgen.secret())),
        net=st.sampled_from([None, 'elements'])))


# ---- what is known to fail ------------------------------------------------------------------

def known_cases(tier):
    out = dict(kind='p2wpkh', pay=b'\x05' * 20, form='conf', mine=True, asset=b'\x06' * 32, amt=5000, abf=b'\x01' * 32, bf=b'\x02' * 32,
               bsec=b'\x03' * 32, esec=b'\x04' * 32, bits=6)
    for o, cut in ((dict(out, kind='burn', form='explicit'), False), (out, True)):
        yield dict(which='unblind', strict=True, outs=[o], bsec=b'\x03' * 32, net='elements', cut=cut)
    yield dict(which='spend', strict=True, utxo=out, others=[], at=0, have=True, fee=100, sec=b'\x07' * 32, bsec=b'\x03' * 32, dsec=b'\x08' * 32,
               dst=dict(kind='p2wpkh', pay=b'\x09' * 20), dconf=True, wrong=None, net='elements/liquidv1')


def check_known(case):
    (check_unblind if case['which'] == 'unblind' else check_spend)(case)
    return True, [case['which']]


# ---- asset-atomic-swap.py -----------------------------------------------------------------

class Node:
    """The RPC calls of a daemon that the example makes; two share a chain."""

    def __init__(self, name, chain, kinds, error):
        self.name, self.chain, self.kinds, self.error = name, chain, kinds, error
        self.keys = {}      # scriptPubKey -> (secret, blinding secret, kind)
        self.names = {}     # address -> scriptPubKey
        self.n = 0

    def rand(self, *a):
        self.n += 1
        return h('swap', self.name, self.n, self.chain['seed'], *a)

    def getnewaddress(self):
        sec, bsec = self.rand(), self.rand()
        kind = self.kinds[self.n // 2 % len(self.kinds)]
        pub = curve.pub(sec)
        if kind == 'p2sh':
            payload = bip32.h160(b'\x00\x14' + bip32.h160(pub))
        else:
            payload = bip32.h160(pub)
        spk = raddr.script(kind, payload)
        self.keys[spk] = (sec, bsec, kind)
        a = raddr.encode('elements', kind, payload, curve.pub(bsec))
        for x in (a, raddr.encode('elements', kind, payload)):
            self.names[x] = spk
        return a

    def coin(self, asset, amount, conf, bits=6):
        spk = self.names[self.getnewaddress()]
        o = dict(form='conf' if conf else 'explicit', asset=asset, amt=amount, abf=self.rand(), bf=self.rand(), esec=self.rand(),
                 bsec=self.keys[spk][1], bits=bits)
        op = (self.rand(), self.n % 5)
        self.chain['utxo'][op] = dict(out=plain_out(o, spk))
        return op

    def dumpprivkey(self, a):
        return str(bw_key(self.keys[self.names[a]][0]))

    def dumpblindingkey(self, a):
        return self.keys[self.names[a]][1].hex()

    def issueasset(self, amount, tokens):
        asset = self.rand()
        op = self.coin(asset, int(Decimal(str(amount)) * COIN), True, 6)
        self.chain['mempool'].append(op[0])
        return dict(asset=asset[::-1].hex(), txid=op[0][::-1].hex())

    def coins(self):
        for op, d in sorted(self.chain['utxo'].items()):
            o = d['out']
            k = self.keys.get(o['spk'])
            if k is None:
                continue
            if o['value'][0] == 1:
                yield op, o, o['asset'][1:], int.from_bytes(o['value'][1:], 'big'), bg.Z32, bg.Z32
                continue
            nonce = zkp.nonce_of(k[1], o['nonce'])
            r = zkp.rp_rewind(nonce, o['value'], o['wit']['rp'], o['spk'], zkp.parse_gen(o['asset']))
            check(r is not None, 'a coin that its owner cannot see')
            amount, bf, msg = r[:3]
            yield op, o, msg[:32], amount, msg[32:64], bf

    def listunspent(self, lo, hi, addrs, unsafe, what):
        r = []
        for op, o, asset, amount, abf, bf in self.coins():
            confirmed = op[0] not in self.chain['mempool']
            if asset[::-1].hex() != what['asset'] or not lo <= confirmed <= hi:
                continue
            k = self.keys[o['spk']]
            payload = o['spk'][3:23] if k[2] == 'p2pkh' else o['spk'][2:22]
            d = dict(txid=op[0][::-1].hex(), vout=op[1], address=raddr.encode('elements', k[2], payload), amount=Decimal(amount) / COIN,
                     asset=asset[::-1].hex(), amountblinder=bf[::-1].hex(), assetblinder=abf[::-1].hex())
            if o['value'][0] != 1:
                d.update(amountcommitment=o['value'].hex(), assetcommitment=o['asset'].hex())
            r.append(d)
        return r

    def getbalance(self, dummy, minconf, watch, asset):
        return Decimal(self.balance(bytes.fromhex(asset)[::-1], minconf)) / COIN

    def balance(self, asset, minconf=0):
        return sum(a for op, _, x, a, _, _ in self.coins() if x == asset and (not minconf or op[0] not in self.chain['mempool']))

    def generatetoaddress(self, n, a):
        check(a in self.names, 'mining to an address of somebody else')
        self.chain['mempool'].clear()

    def getrawtransaction(self, txid, verbose):
        t = bytes.fromhex(txid)[::-1]
        return dict(confirmations=int(t not in self.chain['mempool']))

    def sendrawtransaction(self, raw):
        raw = bytes.fromhex(raw)
        if raw in self.chain['sent']:
            return codec.txid(codec.parse_tx(raw))[::-1].hex()
        try:
            tx = node(SimpleNamespace(utxo=self.chain['utxo']), raw)
        except Violation as e:
            self.chain['refused'].append((self.name, str(e)))
            raise self.error(dict(code=-26, message=str(e)))
        t = codec.txid(tx)
        for i in tx['vin']:
            del self.chain['utxo'][i['txid'], i['n']]
        for n, o in enumerate(tx['vout']):
            if o['spk']:
                self.chain['utxo'][t, n] = dict(out=o)
        self.chain['sent'].append(raw)
        self.chain['mempool'].append(t)
        return t[::-1].hex()


class Rpc:
    """Calls of a node, one at a time"""

    def __init__(self, target, lock):
        self._target, self._lock = target, lock

    def __getattr__(self, name):
        f = getattr(self._target, name)

        def call(*a):
            with self._lock:
                return f(*a)
        return call


def swap(case):
    spec = importlib.util.spec_from_file_location('swap_example', os.path.join(EXAMPLES, 'asset-atomic-swap.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    chain = dict(seed=case['seed'], utxo={}, mempool=[], sent=[], refused=[])
    fee = h('fee', case['seed'])
    m.fee_asset = ec.CAsset(fee)
    m.FIXED_FEE_SATOSHI = case['fee']
    m.bob_be_sneaky = case['sneaky']
    gave_up = threading.Event()
    m.time = SimpleNamespace(sleep=lambda t: gave_up.wait(20) if t > 1 else None)
    nodes = [Node(n, chain, k, m.JSONRPCError) for n, k in (('alice', case['kinds'][0]), ('bob', case['kinds'][1]))]
    for amount, conf in case['fees']:
        nodes[0].coin(fee, amount, conf, 24)
    funds = sum(a for a, _ in case['fees'])
    queues = [queue.Queue(), queue.Queue()]
    said = []
    died = []
    lock = threading.Lock()

    def run(k, f):
        def die(msg):
            raise RuntimeError(msg)

        def recv(what, timeout=60):
            try:
                if case['sneaky'] and timeout < 60:
                    raise queue.Empty
                got = queues[k].get(timeout=timeout)
            except queue.Empty:
                die('No messages received')
            if got[0] != what:
                die('unexpected message %s for %s' % (got[0], what))
            return got[1]
        try:
            select_chain_params('elements')
            f(said.append, recv, lambda t, d=None: queues[1 - k].put([t, d]), die, Rpc(nodes[k], lock))
            died.append((k, None))
        except SystemExit as e:
            died.append((k, e.code))
        except BaseException as e:
            died.append((k, '%s: %s' % (type(e).__name__, e)))
            queues[1 - k].put(['bye!', None])
        if k == 0:
            gave_up.set()
    ts = [threading.Thread(target=run, args=(k, f)) for k, f in enumerate((m.alice, m.bob))]
    for t in ts:
        t.start()
    for t in ts:
        t.join(100)
        check(not t.is_alive(), 'the programs wait for ever')
    ends = dict(died)
    assets = {}
    for line in said:
        if line.startswith('The asset is '):
            assets[line[13:]] = None
    # Bob may or may not have got so far when Alice gives up at the start
    with params('elements'):
        have = {a: [n.balance(bytes.fromhex(a)[::-1]) for n in nodes] for a in assets}
        left = [n.balance(fee) for n in nodes]
    enough = any(a >= 2 * case['fee'] for a, _ in case['fees'])
    return dict(ends=ends, have=sorted(have.values()), left=left, funds=funds, enough=enough, sent=len(chain['sent']),
                refused=chain['refused'], said=said[-3:])


def check_swap(case):
    r = in_child(lambda: swap(case))
    if not r['enough']:
        check('Cannot find utxo' in str(r['ends'][0]), 'no fee to pay with: %s', r['ends'])
        return False, ['refused']
    if case['sneaky']:
        # Alice takes her coins back, and the swap that Bob sends late is refused
        check_eq(r['ends'][0], 0, 'Alice')
        check('-26' in str(r['ends'][1]), 'Bob: %s', r['ends'][1])
        check_eq(r['have'], sorted([[COIN, 0], [COIN, 0], [0, COIN]]), 'balances')
        check_eq([n for n, _ in r['refused']], ['bob'], 'transactions refused: %s' % r['refused'])
    else:
        check_eq(r['ends'], {0: None, 1: None}, 'ends of the programs')
        check_eq(r['have'], sorted([[0, COIN], [0, COIN], [COIN, 0]]), 'balances')
        check_eq(r['refused'], [], 'transactions refused')
    check_eq(r['sent'], 1, 'transactions')
    check_eq(r['left'], [r['funds'] - case['fee'], 0], 'fee asset')
    return True, ['sneaky' if case['sneaky'] else 'swapped']


def strat_swap():
    kinds = st.lists(st.sampled_from(['p2pkh', 'p2sh', 'p2wpkh']), min_size=1, max_size=4)
    return st.fixed_dictionaries(dict(
        seed=st.integers(0, 2 ** 64), fee=gen.weighted((3, st.just(10000)), (2, st.integers(1, 10 ** 5))),
        sneaky=gen.weighted((2, st.just(False)), (1, st.just(True))), kinds=st.tuples(kinds, kinds),
        fees=st.lists(st.tuples(st.one_of(st.integers(10 ** 5, 10 ** 8), st.integers(1, 10 ** 6)), st.booleans()), min_size=1, max_size=3)))


PROP = Prop('C32', [
    Sub('unblind', check_unblind, strat_unblind, quick=300, thorough=8000,
        doc='unblind.py on transactions with outputs of all kinds: what it prints for each'),
    Sub('spend', check_spend, strat_spend, quick=250, thorough=6000,
        doc='spend-to-confidential-address.py: the transaction it prints is judged by the node of C30'),
    Sub('swap', check_swap, strat_swap, quick=60, thorough=1500,
        doc='asset-atomic-swap.py: both programs against a simulated daemon whose chain is judged by the node of C30'),
    Sub('known', check_known, cases=known_cases, doc='inputs on which the examples are known to fail'),
], rule='input transactions, keys and destinations; non-trivial: several kinds of outputs; a transaction is made')
