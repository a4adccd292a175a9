"""Objects of the code under test from plain cases, and back.

Only public constructors and attributes are used.
"""
import contextlib

from . import env
from .core import Violation, check, check_eq, short

env.setup_path()

import bitcointx  # noqa: E402
import elementstx  # noqa: E402,F401
import elementstx.core as ec  # noqa: E402
import elementstx.core.script as es  # noqa: E402
import bitcointx.core as bc  # noqa: E402
import bitcointx.core.script as bs  # noqa: E402
import bitcointx.wallet as bw  # noqa: E402
import elementstx.wallet as ew  # noqa: E402
from bitcointx.core import Uint256  # noqa: E402
from bitcointx.core.script import CScriptWitness  # noqa: E402

PARAMS = ['elements', 'elements/liquidv1', 'bitcoin', 'bitcoin/testnet', 'bitcoin/regtest']
P2WSH = {n: getattr(ew if n.startswith('elements') else bw, 'P2WSH%sAddress' % w) for n, w in (
    ('elements', 'Elements'), ('elements/elementsregtest', 'Elements'), ('elements/liquidv1', 'ElementsLiquidV1'),
    ('bitcoin', 'Bitcoin'), ('bitcoin/mainnet', 'Bitcoin'), ('bitcoin/testnet', 'BitcoinTestnet'),
    ('bitcoin/regtest', 'BitcoinRegtest'), ('bitcoin/signet', 'BitcoinSignet'))}
EPARAMS = ['elements', 'elements/elementsregtest', 'elements/liquidv1']


def expect_selected(name, what='the calls made'):
    """Generic classes stand for those of the selected network, as they did
    when it was selected."""
    e = name.startswith('elements')
    cur = bitcointx.get_current_chain_params().NAME
    check(cur == ('elements' if name == 'elements/elementsregtest' else name),
          '%s have changed the selected parameters from %s to %s', what, name, cur)
    for made, want in ((bc.CTxIn(), ec.CElementsTxIn if e else bc.CBitcoinTxIn),
                       (bs.CScript(b''), es.CElementsScript if e else bs.CBitcoinScript),
                       (bw.P2WSHCoinAddress.from_bytes(bytes(32)), P2WSH[name])):
        check(type(made) is want, '%s have changed what a generic class stands for: under %s it is %s',
              what, name, type(made).__name__)


@contextlib.contextmanager
def params(name):
    with bitcointx.ChainParams(name):
        yield
        expect_selected(name)


def mk_issuance(iss):
    if iss is None:
        return ec.CAssetIssuance()
    return ec.CAssetIssuance(
        Uint256(iss['bn']), Uint256(iss['ent']),
        ec.CConfidentialValue(iss['amt']), ec.CConfidentialValue(iss['keys']))


def cls(name, mutable):
    return getattr(ec, ('CElementsMutable' if mutable else 'CElements') + name)


def mk_in(i, mutable=False):
    return cls('TxIn', mutable)(
        cls('OutPoint', mutable)(i['txid'], i['n']),
        es.CElementsScript(i['ss']), i['seq'],
        assetIssuance=mk_issuance(i['iss']), is_pegin=i['pegin'])


def mk_out(o, mutable=False):
    return cls('TxOut', mutable)(
        ec.CConfidentialValue(o['value']), es.CElementsScript(o['spk']),
        ec.CConfidentialAsset(o['asset']), ec.CConfidentialNonce(o['nonce']))


def mk_inwit(w, mutable=False):
    return cls('TxInWitness', mutable)(
        CScriptWitness(w['sw']), w['ar'], w['kr'], CScriptWitness(w['pw']))


def mk_outwit(w, mutable=False):
    return cls('TxOutWitness', mutable)(w['sp'], w['rp'])


def mk_tx(tx, mutable=False, wit='full'):
    """wit: 'full', 'none' or (number of input records, number of output records)"""
    if wit == 'none':
        witness = None
    else:
        ni, no = (len(tx['vin']), len(tx['vout'])) if wit == 'full' else wit
        witness = cls('TxWitness', mutable)(
            [mk_inwit(i['wit'], mutable) for i in tx['vin'][:ni]],
            [mk_outwit(o['wit'], mutable) for o in tx['vout'][:no]])
    return cls('Transaction', mutable)(
        [mk_in(i, mutable) for i in tx['vin']],
        [mk_out(o, mutable) for o in tx['vout']],
        tx['lt'], tx['v'], witness)


# ---- reading objects back into plain form ---------------------------------

def rd_field(c):
    return bytes(c.commitment)


NOISS = dict(bn=b'\x00' * 32, ent=b'\x00' * 32, amt=b'', keys=b'')


def rd_in(i):
    a = i.assetIssuance
    iss = None
    d = dict(bn=a.assetBlindingNonce.data, ent=a.assetEntropy.data,
             amt=rd_field(a.nAmount), keys=rd_field(a.nInflationKeys))
    if d != NOISS:
        iss = d
    return dict(txid=bytes(i.prevout.hash), n=i.prevout.n, ss=bytes(i.scriptSig),
                seq=i.nSequence, pegin=i.is_pegin, iss=iss)


def rd_out(o):
    return dict(asset=rd_field(o.nAsset), value=rd_field(o.nValue),
                nonce=rd_field(o.nNonce), spk=bytes(o.scriptPubKey))


def rd_inwit(w):
    return dict(ar=bytes(w.issuanceAmountRangeproof), kr=bytes(w.inflationKeysRangeproof),
                sw=[bytes(x) for x in w.scriptWitness], pw=[bytes(x) for x in w.pegin_witness])


def rd_outwit(w):
    return dict(sp=bytes(w.surjectionproof), rp=bytes(w.rangeproof))


def rd_tx(t):
    """Missing witness records read as empty ones."""
    vin = [rd_in(i) for i in t.vin]
    vout = [rd_out(o) for o in t.vout]
    wi = [rd_inwit(w) for w in t.wit.vtxinwit]
    wo = [rd_outwit(w) for w in t.wit.vtxoutwit]
    if len(wi) > len(vin) or len(wo) > len(vout):
        raise Violation('more witness records than inputs/outputs')
    for n, i in enumerate(vin):
        i['wit'] = wi[n] if n < len(wi) else dict(ar=b'', kr=b'', sw=[], pw=[])
    for n, o in enumerate(vout):
        o['wit'] = wo[n] if n < len(wo) else dict(sp=b'', rp=b'')
    return dict(v=t.nVersion, lt=t.nLockTime, vin=vin, vout=vout)


def diff(a, b, path='tx'):
    if path.endswith('.iss'):
        # no issuance, and one in which everything is null
        a, b = None if a == NOISS else a, None if b == NOISS else b
    if type(a) is not type(b) and not (isinstance(a, (int, bool)) and isinstance(b, (int, bool))):
        return '%s: %s != %s' % (path, short(a), short(b))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s missing' % (path, k)
            d = diff(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return '%s: %d items != %d' % (path, len(a), len(b))
        for n, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, n))
            if d:
                return d
        return None
    return None if a == b else '%s: %s != %s' % (path, short(a), short(b))


def same(a, b, what):
    d = diff(a, b)
    if d:
        raise Violation('%s: %s' % (what, d))


__all__ = [n for n in dir() if not n.startswith('__')]
_ = (check, check_eq)
