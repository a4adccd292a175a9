"""Histories of wallets paying each other confidentially, judged by a node of our own and by a ledger."""
import hashlib

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import addrgen, blindgen as bg, gen, zkp
from ..ref import bip32, codec, curve, sighash as ref
from .c09 import push
from .c17 import is_result
from bitcointx.core.key import CKey, CPubKey
from bitcointx.core.script import SIGHASH_Type, SIGVERSION_BASE, SIGVERSION_WITNESS_V0
import bitcointx.wallet as bw
import elementstx.wallet as ew

Z32 = bg.Z32
GENESIS = b'\x42' * 32
ADDR = ('p2wpkh', 'p2pkh', 'p2sh-p2wpkh', 'p2tr')


def h(*a):
    return hashlib.sha256(b'|'.join(x if isinstance(x, bytes) else str(x).encode() for x in a)).digest()


class Wallet:
    def __init__(self, n, master):
        self.n = n
        self.master = CKey(master)
        self.count = 0
        self.keys = {}      # scriptPubKey -> (secret, kind)
        self.coins = {}     # (txid, n) -> descriptor, as the library gave it

    def address(self, kind, conf):
        """A new address, as the string to hand out."""
        self.count += 1
        sec = h('key', self.n, self.count)
        pub = CKey(sec).pub
        if kind == 'p2wpkh':
            a = bw.P2WPKHCoinAddress.from_pubkey(pub)
        elif kind == 'p2pkh':
            a = bw.P2PKHCoinAddress.from_pubkey(pub)
        elif kind == 'p2sh-p2wpkh':
            a = bw.P2SHCoinAddress.from_redeemScript(bw.P2WPKHCoinAddress.from_pubkey(pub).to_scriptPubKey())
        else:
            a = bw.P2TRCoinAddress.from_pubkey(pub)
        spk = a.to_scriptPubKey()
        self.keys[bytes(spk)] = (sec, kind)
        if conf:
            a = ew.CCoinConfidentialAddress.from_unconfidential(a, spk.derive_blinding_key(self.master).pub)
        return str(a)

    def spend_key(self, spk):
        return self.keys[bytes(spk)]


class World:
    def __init__(self, case):
        self.case = case
        self.net = case['net']
        self.seed = case['seed']
        self.wallets = [Wallet(n, m) for n, m in enumerate(case['masters'])]
        self.utxo = {}      # (txid, n) -> dict(out=plain output, owner, asset, amount): the model
        self.totals = {}    # asset -> amount that must be somewhere
        self.iss = []       # (owner of the token, entropy, asset id, token id)
        self.n = 0
        self.labels = set()
        base = h('asset', self.seed)
        self.assets = [base]
        for k, (w, amount, kind) in enumerate(case['start']):
            w %= len(self.wallets)
            a = bw.CCoinAddress(self.wallets[w].address(ADDR[kind], False))
            out = ec.CElementsTxOut(ec.CConfidentialValue(amount), a.to_scriptPubKey(),
                                    ec.CConfidentialAsset(ec.CAsset(base)))
            op = (h('start', k, self.seed), k)
            self.utxo[op] = dict(out=dict(rd_out(out), wit=dict(sp=b'', rp=b'')), owner=w, asset=base, amount=amount)
            self.wallets[w].coins[op] = ec.BlindingInputDescriptor(
                asset=ec.CAsset(base), amount=amount, blinding_factor=Uint256(), asset_blinding_factor=Uint256())
            self.totals[base] = self.totals.get(base, 0) + amount

    # ---- picking coins

    def holdings(self, w):
        r = {}
        for op, d in self.wallets[w].coins.items():
            r.setdefault(d.asset.data, []).append(op)
        return r

    def pick(self, w, asset, k):
        """Up to k coins of an asset"""
        c = sorted(self.holdings(w).get(asset, []))
        return c[:1 + k]


class Plan:
    """A transaction being put together."""

    def __init__(self, world):
        self.world = world
        self.ins = []       # (outpoint, owner)
        self.outs = []      # dict(to=wallet or None, asset, amount, addr, blinder, spk)
        self.issue = None   # (input number, dict)

    def out(self, to, asset, amount, op, blinder, conf=True, k=0):
        if amount <= 0:
            return
        w = self.world.wallets[to]
        self.outs.append(dict(to=to, asset=asset, amount=amount, blinder=blinder if conf else None,
                              addr=w.address(ADDR[(op['kinds'] + k + len(self.outs)) % 4], conf)))


def split(total, parts):
    """Into as many positive parts as there are (fewer for small totals)."""
    res = []
    for p in range(parts, 1, -1):
        x = max(1, total // (p + 1))
        if total - x < 1:
            break
        res.append(x)
        total -= x
    return res + [total]


def plan_pay(w, op):
    """One wallet pays another, or itself; maybe with a fee, burning something, or a peg-out."""
    actor, to = op['actor'] % len(w.wallets), op['other'] % len(w.wallets)
    hold = w.holdings(actor)
    if not hold:
        return None
    asset = sorted(hold)[op['asset'] % len(hold)]
    p = Plan(w)
    for c in w.pick(actor, asset, op['coins']):
        p.ins.append((c, actor))
    total = sum(w.wallets[actor].coins[c].amount for c, _ in p.ins)
    if total < 8:
        return None
    fee = min(op['fee'], total // 4)
    total -= fee
    if op['burn']:
        b = max(1, total // 5)
        p.outs.append(dict(to=None, asset=asset, amount=b, blinder=None, spk=b'\x6a' + push(op['data'])))
        total -= b
    sent = max(1, total * op['part'] // 16)
    for k, x in enumerate(split(sent, op['nouts'])):
        p.out(to, asset, x, op, actor, op['conf'], k)
    rest = total - sent
    for k, x in enumerate(split(rest, 2)):
        p.out(actor, asset, x, op, actor, True, k)
    if fee:
        p.outs.append(dict(to=None, asset=asset, amount=fee, blinder=None, spk=b''))
    w.labels.add('pay')
    return p


def plan_issue(w, op):
    p = plan_pay(w, op)
    if p is None:
        return None
    actor = p.ins[0][1]
    p.issue = (op['at'] % len(p.ins), dict(bn=Z32, ent=op['contract'], amt=op['amount'], keys=op['tokens'] or None),
               op['keyed'])
    (txid, n), _ = p.ins[p.issue[0]]
    ids = bg.asset_ids(dict(txid=txid, n=n, iss=p.issue[1]))
    entropy = ec.generate_asset_entropy(ec.CElementsOutPoint(txid, n), Uint256(op['contract']))
    asset = ec.calculate_asset(entropy)
    token = ec.calculate_reissuance_token(entropy, op['keyed'])
    check_eq((asset.data, token.data), (ids[0], ids[2] if op['keyed'] else ids[1]), 'ids of the issuance')
    for k, x in enumerate(split(op['amount'], op['nouts'])):
        p.out(actor, asset.data, x, op, actor, True, k)
    if op['tokens']:
        p.out(actor, token.data, op['tokens'], op, actor, True)
    p.created = [(asset.data, op['amount']), (token.data, op['tokens'])]
    p.entropy = entropy.data
    w.iss.append((entropy.data, asset.data, token.data))
    w.labels.add('issue')
    return p


def plan_reissue(w, op):
    """Somebody who holds a token makes more of the asset."""
    found = []
    for n, wal in enumerate(w.wallets):
        for o, d in sorted(wal.coins.items()):
            for e, a, t in w.iss:
                if d.asset.data == t and d.asset_blinding_factor.data != Z32:
                    found.append((n, o, e, a, t))
    if not found:
        return plan_pay(w, op)
    actor, o, entropy, asset, token = found[op['actor'] % len(found)]
    d = w.wallets[actor].coins[o]
    p = Plan(w)
    p.ins.append((o, actor))
    for c in w.pick(actor, w.assets[0], op['coins']):
        if c != o:
            p.ins.append((c, actor))
    if op['at'] % 2:
        p.ins.reverse()
    at = [c for c, _ in p.ins].index(o)
    p.issue = (at, dict(bn=d.asset_blinding_factor.data, ent=entropy, amt=op['amount'], keys=None), op['keyed'])
    p.out(actor, token, d.amount, op, actor, True)
    for k, x in enumerate(split(op['amount'], op['nouts'])):
        p.out(actor, asset, x, op, actor, True, k)
    base = sum(w.wallets[actor].coins[c].amount for c, _ in p.ins if c != o)
    for k, x in enumerate(split(base, 2) if base else []):
        p.out(actor, w.assets[0], x, op, actor, op['conf'], k)
    p.created = [(asset, op['amount'])]
    w.labels.add('reissue')
    return p


def plan_swap(w, op):
    """Two wallets exchange assets in one transaction; each blinds what it gives and its own change."""
    a, b = op['actor'] % len(w.wallets), op['other'] % len(w.wallets)
    if a == b:
        b = (a + 1) % len(w.wallets)
    ha, hb = w.holdings(a), w.holdings(b)
    if not ha or not hb:
        return plan_pay(w, op)
    xa, xb = sorted(ha)[op['asset'] % len(ha)], sorted(hb)[op['part'] % len(hb)]
    p = Plan(w)
    ca, cb = w.pick(a, xa, op['coins']), w.pick(b, xb, 0)
    ta = sum(w.wallets[a].coins[c].amount for c in ca)
    tb = sum(w.wallets[b].coins[c].amount for c in cb)
    if ta < 4 or tb < 4:
        return plan_pay(w, op)
    p.ins = [(c, a) for c in ca] + [(c, b) for c in cb]
    if op['at'] % 2:
        p.ins.reverse()
    sa, sb = max(1, ta * op['part'] // 16), max(1, tb // 2)
    p.out(b, xa, sa, op, a)
    p.out(a, xb, sb, op, b)
    p.out(a, xa, ta - sa, op, a)
    p.out(b, xb, tb - sb, op, b)
    if op['nouts'] % 2:
        p.outs.reverse()
    w.labels.add('swap')
    return p


PLANS = {'pay': plan_pay, 'issue': plan_issue, 'reissue': plan_reissue, 'swap': plan_swap}


# ---- making the transaction with the library -----------------------------------

def assemble(w, p, op):
    tx = ec.CElementsMutableTransaction()
    tx.nVersion = 2
    tx.nLockTime = op['lt']
    for k, ((txid, n), _) in enumerate(p.ins):
        i = ec.CElementsMutableTxIn(ec.CElementsMutableOutPoint(txid, n), nSequence=op['seq'])
        if p.issue is not None and p.issue[0] == k:
            s = p.issue[1]
            i.assetIssuance = ec.CAssetIssuance(
                Uint256(s['bn']), Uint256(s['ent']), ec.CConfidentialValue(s['amt']),
                ec.CConfidentialValue(s['keys']) if s['keys'] else ec.CConfidentialValue())
        tx.vin.append(i)
    pubs = []
    for o in p.outs:
        if 'addr' in o:
            adr = bw.CCoinAddress(o['addr'])
            spk = adr.to_scriptPubKey()
            conf = isinstance(adr, ew.CCoinConfidentialAddress)
            check_eq(conf, o['blinder'] is not None, 'address kind')
            pubs.append(adr.blinding_pubkey if conf else None)
        else:
            spk = es.CElementsScript(o['spk'])
            pubs.append(None)
        o['spk'] = bytes(spk)
        tx.vout.append(ec.CElementsMutableTxOut(
            ec.CConfidentialValue(o['amount']), spk, ec.CConfidentialAsset(ec.CAsset(o['asset']))))
    return tx, pubs


def parties(p):
    r = []
    for _, o in p.ins:
        if o not in r:
            r.append(o)
    return r


def feasible(w, p):
    """Every party that has to blind something can."""
    for n, who in enumerate(parties(p)):
        mine = sum(o['blinder'] == who for o in p.outs)
        b = any(o == who and (w.wallets[who].coins[c].blinding_factor.data != Z32
                              or w.wallets[who].coins[c].asset_blinding_factor.data != Z32) for c, o in p.ins)
        todo = mine + (0 if p.issue is None or not p.issue[2] else 1 + bool(p.issue[1]['keys']))
        if not mine and (b or todo):
            return False
        if todo == 1 and not b:
            return False
    # a surjection proof can fail by chance when there are many targets
    return len(p.ins) + 2 <= 12


def blind(w, p, op, tx, pubs):
    who = parties(p)
    ids = None
    if p.issue is not None:
        (txid, n), _ = p.ins[p.issue[0]]
        ids = bg.asset_ids(dict(txid=txid, n=n, iss=p.issue[1]))
    if len(who) > 1 and op['at'] % 3:
        who.reverse()
    for k, party in enumerate(who):
        desc, aux = [], []
        for c, o in p.ins:
            if o == party:
                desc.append(w.wallets[party].coins[c])
            else:
                desc.append(ec.BlindingInputDescriptor(asset=ec.CAsset(), amount=-1, blinding_factor=Uint256(),
                                                       asset_blinding_factor=Uint256()))
            f = w.utxo[c]['out']['asset']
            aux.append(bytes(ec.CAsset(f[1:]).to_commitment()) if f[0] == 1 else f)
        kw = dict(input_descriptors=desc,
                  output_pubkeys=[pubs[n] if o['blinder'] == party else CPubKey() for n, o in enumerate(p.outs)],
                  custom_ct_bits=op['bits'])
        if len(who) > 1 or op['aux']:
            kw['auxiliary_generators'] = aux
        todo = sum(o['blinder'] == party for o in p.outs)
        if p.issue is not None and p.issue[2] and party == p.ins[p.issue[0]][1]:
            ik, tk = CKey(h('issue', w.n)), CKey(h('token', w.n))
            at = p.issue[0]
            kw['blind_issuance_asset_keys'] = [None] * at + [ik]
            todo += 1
            if p.issue[1]['keys']:
                kw['blind_issuance_token_keys'] = [None] * at + [tk]
                todo += 1
        res = tx.blind(_rand_func=bg.Stream(h('rand', w.n, k, w.seed)), **kw)
        is_result(res, True)
        check_eq(res.num_successfully_blinded, todo, 'number blinded')
        if op['hand_over'] or len(who) > 1:
            # to the next party, or from an online to an offline machine, as hex
            tx = ec.CElementsTransaction.deserialize(bytes.fromhex(tx.serialize().hex())).to_mutable()
    return tx


def p2pkh_code(pub):
    return b'\x76\xa9\x14' + bip32.h160(pub) + b'\x88\xac'


def sign(w, p, op, tx):
    spent = [w.utxo[c]['out'] for c, _ in p.ins]
    spent_objs = [mk_out(o) for o in spent]
    ht = SIGHASH_Type(op['ht'])
    for k, (c, o) in enumerate(p.ins):
        sec, kind = w.wallets[o].spend_key(spent[k]['spk'])
        key = bw.CCoinKey.from_secret_bytes(sec)
        if kind == 'p2tr':
            kw = {} if op['ht'] == 1 else dict(hashtype=ht)
            dg = es.ElementsSignatureHashSchnorr(tx, k, spent_objs, genesis_block_hash=GENESIS,
                                                 sigversion=bw_taproot(), **kw)
            sig = key.sign_schnorr_tweaked(dg)
            stack, ss = [sig + (b'' if op['ht'] == 1 else bytes([op['ht']]))], b''
        else:
            code = es.CElementsScript(p2pkh_code(key.pub))
            segwit = kind != 'p2pkh'
            dg = code.sighash(tx, k, ht, amount=ec.CConfidentialValue(spent[k]['value']),
                              sigversion=SIGVERSION_WITNESS_V0 if segwit else SIGVERSION_BASE)
            sig = key.sign(dg) + bytes([op['ht']])
            stack = [sig, bytes(key.pub)]
            ss = b''
            if kind == 'p2pkh':
                ss, stack = push(sig) + push(bytes(key.pub)), []
            elif kind == 'p2sh-p2wpkh':
                ss = push(b'\x00\x14' + bip32.h160(bytes(key.pub)))
        tx.vin[k].scriptSig = es.CElementsScript(ss)
        while len(tx.wit.vtxinwit) <= k:
            tx.wit.vtxinwit.append(ec.CElementsMutableTxInWitness())
        tx.wit.vtxinwit[k].scriptWitness = CScriptWitness(stack)


def bw_taproot():
    from bitcointx.core.script import SIGVERSION_TAPROOT
    return SIGVERSION_TAPROOT


# ---- the node ----------------------------------------------------------------------

def node(w, raw):
    """Consensus rules on the encoded transaction; returns it in plain form."""
    try:
        tx = codec.parse_tx(raw)
    except codec.RefError as e:
        fail('a node cannot decode the transaction: %s', e)
    spent = []
    for i in tx['vin']:
        u = w.utxo.get((i['txid'], i['n']))
        check(u is not None, 'spends an output that does not exist')
        spent.append(u['out'])
    check_eq(len({(i['txid'], i['n']) for i in tx['vin']}), len(tx['vin']), 'inputs spent once')
    pos, gens = [], []

    def gen_of(field):
        g = zkp.gen64(field[1:]) if field[0] == 1 else zkp.parse_gen(field)
        check(g is not None, 'asset field %s', short(field))
        return g
    for i, o in zip(tx['vin'], spent):
        g = gen_of(o['asset'])
        gens.append(g)
        c = bg.value_commitment(o['value'], o['asset'])
        if c is not None:
            pos.append(c)
        s = i['iss']
        if s is None:
            continue
        ids = bg.asset_ids(i)
        conf = s['amt'][:1] in (b'\x08', b'\x09')
        if s['bn'] != Z32:
            check(not s['keys'], 'reissuance of tokens')
            check(any(zkp.gen33(t, s['bn']) == o['asset'] for t in ids[1:]),
                  'reissuance does not spend a token with the nonce as its blinding factor')
        for f, a, proof in (('amt', ids[0], 'ar'), ('keys', ids[2] if conf else ids[1], 'kr')):
            v = s[f]
            if not v:
                check(not i['wit'][proof], 'proof of nothing')
                continue
            g = zkp.gen64(a)
            if v[0] != 1:
                check(zkp.rp_verify(v, i['wit'][proof], b'', g) is not None, 'range proof of issuance')
            else:
                check(not i['wit'][proof], 'proof of an explicit amount')
            pos.append(bg.value_commitment(v, b'\x01' + a))
            gens.append(g)
    neg = []
    for n, o in enumerate(tx['vout']):
        g = gen_of(o['asset'])
        if o['value'][0] != 1:
            check(zkp.rp_verify(o['value'], o['wit']['rp'], o['spk'], g) is not None, 'range proof of output %d', n)
        else:
            check(not o['wit']['rp'], 'range proof of explicit output %d', n)
        if o['asset'][0] != 1:
            check(zkp.surjection(o['wit']['sp'], gens, g), 'surjection proof of output %d', n)
        else:
            check(not o['wit']['sp'], 'surjection proof of explicit output %d', n)
        c = bg.value_commitment(o['value'], o['asset'])
        if c is not None:
            neg.append(c)
    check(zkp.tally(pos, neg), 'amounts do not balance')
    for k, o in enumerate(spent):
        check(authorized(tx, k, spent), 'input %d is not authorized', k)
    return tx


def authorized(tx, k, spent):
    i, o = tx['vin'][k], spent[k]
    spk, ss, sw = o['spk'], i['ss'], i['wit']['sw']
    if len(spk) == 34 and spk[:2] == b'\x51\x20':
        if ss or len(sw) != 1 or len(sw[0]) not in (64, 65):
            return False
        ht = sw[0][64] if len(sw[0]) == 65 else None
        if ht == 0:
            return False
        return curve.schnorr_ok(spk[2:], ref.taproot(tx, k, spent, ht, GENESIS), sw[0][:64])
    if len(spk) == 23 and spk[:2] == b'\xa9\x14':
        if len(ss) != 23 or bip32.h160(ss[1:]) != spk[2:22]:
            return False
        spk, ss = ss[1:], b''
    if len(spk) == 22 and spk[:2] == b'\x00\x14':
        if ss or len(sw) != 2:
            return False
        sig, pub = sw
        hashed, v0 = spk[2:], True
    else:
        if sw or spk[:3] != b'\x76\xa9\x14':
            return False
        n = ss[0]
        sig, pub = ss[1:1 + n], ss[2 + n:]
        hashed, v0 = spk[3:23], False
    if bip32.h160(pub) != hashed:
        return False
    code = p2pkh_code(pub)
    dg = ref.segwit_v0(tx, k, code, sig[-1], o['value']) if v0 else ref.legacy(tx, k, code, sig[-1])[0]
    return curve.ecdsa_ok(pub, dg, sig[:-1])


# ---- what the wallets see ------------------------------------------------------------

def scan(w, p, raw, plain):
    """Every wallet looks for its outputs in the transaction received as hex."""
    tx = ec.CElementsTransaction.deserialize(raw)
    txid = codec.txid(plain)
    check_eq(bytes(tx.GetTxid()), txid, 'transaction id')
    for (op, owner) in p.ins:
        del w.utxo[op]
        del w.wallets[owner].coins[op]
    for n, out in enumerate(tx.vout):
        o = p.outs[n]
        check_eq(bytes(out.scriptPubKey), o['spk'], 'script of output %d' % n)
        if o['to'] is None:
            check_eq((out.nValue.to_amount(), out.nAsset.to_asset().data), (o['amount'], o['asset']), 'burnt or fee')
            check_eq(out.is_fee(), not o['spk'], 'fee output')
            check(out.scriptPubKey.is_unspendable(), 'burnt output')
            w.totals[o['asset']] -= o['amount']
            continue
        op = (txid, n)
        w.utxo[op] = dict(out=plain['vout'][n], owner=o['to'], asset=o['asset'], amount=o['amount'])
        for wal in w.wallets:
            mine = bytes(out.scriptPubKey) in wal.keys
            check_eq(mine, wal.n == o['to'], 'owner of output %d' % n)
            if out.nValue.is_explicit():
                if mine:
                    wal.coins[op] = ec.BlindingInputDescriptor(
                        asset=out.nAsset.to_asset(), amount=out.nValue.to_amount(),
                        blinding_factor=Uint256(), asset_blinding_factor=Uint256())
                continue
            key = out.scriptPubKey.derive_blinding_key(wal.master)
            res = out.unblind_confidential_pair(key, tx.wit.vtxoutwit[n].rangeproof)
            if not mine:
                check(not res.ok and bool(res.error), 'wallet %d sees output %d of wallet %d', wal.n, n, o['to'])
                continue
            check(res.ok, 'owner cannot unblind output %d: %s', n, res)
            wal.coins[op] = res.get_descriptor()
        d = w.wallets[o['to']].coins[op]
        check_eq((d.asset.data, d.amount), (o['asset'], o['amount']), 'output %d as its owner sees it' % n)


def balances(w):
    seen = {}
    for wal in w.wallets:
        for op, d in wal.coins.items():
            check_eq(w.utxo[op]['owner'], wal.n, 'owner in the ledger')
            seen[d.asset.data] = seen.get(d.asset.data, 0) + d.amount
    check_eq({a: v for a, v in seen.items() if v}, {a: v for a, v in w.totals.items() if v}, 'sum of all balances')


def check_history(case):
    done = 0
    with params(case['net']):
        w = World(case)
        for op in case['ops']:
            w.n += 1
            n_iss = len(w.iss)
            p = PLANS[op['what']](w, op)
            if p is None or not feasible(w, p):
                del w.iss[n_iss:]
                continue
            tx, pubs = assemble(w, p, op)
            tx = blind(w, p, op, tx, pubs)
            sign(w, p, op, tx)
            raw = tx.serialize()
            if op['freeze']:
                raw = tx.to_immutable().serialize()
            plain = node(w, raw)
            for a, v in getattr(p, 'created', []):
                w.totals[a] = w.totals.get(a, 0) + v
                if a not in w.assets:
                    w.assets.append(a)
            scan(w, p, raw, plain)
            balances(w)
            done += 1
    return done >= 2, ['%d transactions' % done] + sorted(w.labels)


def operation():
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(['pay', 'issue', 'reissue', 'swap']), actor=st.integers(0, 5), other=st.integers(0, 5),
        asset=st.integers(0, 5), coins=st.integers(0, 2), part=st.integers(1, 15), nouts=st.integers(1, 3),
        conf=gen.weighted((3, st.just(True)), (1, st.just(False))), fee=st.sampled_from([0, 1, 7, 500]),
        burn=gen.weighted((5, st.just(False)), (1, st.just(True))), data=st.binary(max_size=40),
        at=st.integers(0, 5), kinds=st.integers(0, 3), amount=gen.weighted((8, st.integers(4, 5000)), (1, st.sampled_from([10 ** 8, 21 * 10 ** 14]))),
        tokens=gen.weighted((3, st.integers(1, 9)), (1, st.just(0))), contract=gen.b32(), keyed=st.booleans(),
        lt=gen.u32(), seq=gen.u32(), bits=gen.weighted((20, st.integers(3, 6)), (1, st.sampled_from([12, 20, 52]))),
        aux=st.booleans(), hand_over=st.booleans(), freeze=st.booleans(),
        ht=gen.weighted((3, st.just(1)), (1, st.sampled_from([2, 3, 0x81, 0x82, 0x83])))))


def fix_ht(c):
    for o in c['ops']:
        # SINGLE needs an output at the same position
        if o['ht'] & 0x1f == 3:
            o['ht'] = o['ht'] & 0x80 | 2
    return c


def strat_history():
    return st.fixed_dictionaries(dict(
        net=st.sampled_from(['elements', 'elements/liquidv1']), seed=st.binary(min_size=4, max_size=4),
        masters=st.lists(addrgen.secret(), min_size=2, max_size=3, unique=True),
        start=st.lists(st.tuples(st.integers(0, 2), gen.weighted((9, st.integers(2000, 10 ** 5)), (1, st.just(10 ** 12))), st.integers(0, 3)).map(list),
                       min_size=2, max_size=4),
        ops=st.lists(operation(), min_size=3, max_size=6))).map(fix_ht)


PROP = Prop('C30', [
    Sub('history', check_history, strat_history, quick=160, thorough=8000,
        doc='wallets pay, issue, reissue, swap and burn; every transaction judged by a node, balances by a ledger'),
], rule='at least two transactions were made and accepted',
    assumptions=['the stand-in for secp256k1-zkp agrees with the real library'], zkp=True)
