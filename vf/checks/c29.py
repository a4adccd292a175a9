"""Parts of another kind or another chain are refused when components are made."""
import bitcointx.core as bc
import bitcointx.core.script as bs
from bitcointx.core.key import CKey, CPubKey
from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, fail
from .. import gen

# ---- values of every kind, made from the case's bytes ------------------------

G = bytes.fromhex('0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798')
KINDS = {
    'none': lambda b: None,
    'int': lambda b: int.from_bytes(b[:7], 'big'),
    'negative': lambda b: -1 - int.from_bytes(b[:3], 'big'),
    'huge': lambda b: 2 ** 64 + int.from_bytes(b[:7], 'big'),
    'float': lambda b: float(len(b)),
    'bool': lambda b: bool(len(b) % 2),
    'str': lambda b: b.hex(),
    'bytes': lambda b: b,
    'bytes32': lambda b: (b + b'\x00' * 32)[:32],
    'bytearray': bytearray,
    'list': lambda b: [b],
    'tuple': lambda b: (b,),
    'dict': lambda b: {},
    'object': lambda b: object(),
    'uint256': lambda b: Uint256((b + b'\x00' * 32)[:32]),
    'asset id': lambda b: ec.CAsset((b + b'\x00' * 32)[:32]),
    'value': lambda b: ec.CConfidentialValue(len(b)),
    'asset': lambda b: ec.CConfidentialAsset(ec.CAsset((b + b'\x00' * 32)[:32])),
    'nonce': lambda b: ec.CConfidentialNonce(b'\x02' + (b + b'\x00' * 32)[:32]),
    'null value': lambda b: ec.CConfidentialValue(),
    'null asset': lambda b: ec.CConfidentialAsset(),
    'null nonce': lambda b: ec.CConfidentialNonce(),
    'issuance': lambda b: ec.CAssetIssuance(),
    'script': es.CElementsScript,
    'bitcoin script': bs.CBitcoinScript,
    'script witness': lambda b: CScriptWitness([b]),
    'outpoint': lambda b: ec.CElementsOutPoint(),
    'mutable outpoint': lambda b: ec.CElementsMutableOutPoint(),
    'input': lambda b: ec.CElementsTxIn(),
    'output': lambda b: ec.CElementsTxOut(ec.CConfidentialValue(1)),
    'input witness': lambda b: ec.CElementsTxInWitness(),
    'output witness': lambda b: cls('TxOutWitness', False)(),
    'witness': lambda b: ec.CElementsTxWitness(),
    'transaction': lambda b: tx1(),
    'mutable transaction': lambda b: tx1().to_mutable(),
    'bitcoin input': lambda b: bc.CBitcoinTxIn(bc.CBitcoinOutPoint(b'\x01' * 32, 1)),
    'bitcoin output': lambda b: bc.CBitcoinTxOut(5, bs.CBitcoinScript(b)),
    'bitcoin input witness': lambda b: bc.CBitcoinTxInWitness(CScriptWitness([b])),
    'bitcoin transaction': lambda b: bc.CBitcoinTransaction(
        [bc.CBitcoinTxIn(bc.CBitcoinOutPoint(b'\x01' * 32, 1))], [bc.CBitcoinTxOut(5, bs.CBitcoinScript(b))]),
    'key': lambda b: CKey(b'\x01' * 32),
    'pubkey': lambda b: CPubKey(G),
}
BYTESLIKE = ('bytes', 'bytes32', 'bytearray', 'script', 'bitcoin script', 'pubkey', 'key')
INTS = ('int', 'negative', 'huge', 'bool')


def out(**kw):
    a = dict(nValue=ec.CConfidentialValue(1), scriptPubKey=es.CElementsScript(),
             nAsset=ec.CConfidentialAsset(), nNonce=ec.CConfidentialNonce())
    a.update(kw)
    return a


def tx1():
    return ec.CElementsTransaction(
        [ec.CElementsTxIn(ec.CElementsOutPoint(b'\x01' * 32, 1))], [ec.CElementsTxOut(ec.CConfidentialValue(1))])


def unblind(**kw):
    a = dict(blinding_key=CKey(b'\x01' * 32), rangeproof=b'\x60' + b'\x00' * 60)
    a.update(kw)
    o = ec.CElementsTxOut(ec.CConfidentialValue(b'\x08' + G[1:]), es.CElementsScript(b'\x51'),
                          ec.CConfidentialAsset(b'\x0a' + G[1:]), ec.CConfidentialNonce(G))
    return o.unblind_confidential_pair(**a)


def v0(**kw):
    a = dict(txTo=tx1(), inIdx=0, hashtype=bs.SIGHASH_ALL, amount=ec.CConfidentialValue(1),
             sigversion=bs.SIGVERSION_WITNESS_V0)
    a.update(kw)
    return es.CElementsScript(b'\x51').sighash(**a)


# target: (how, kinds that are not to be refused or about which nothing is said)
T = {
    'input.scriptSig': (lambda m, x: cls('TxIn', m)(cls('OutPoint', m)(), x), ('none', 'bytes', 'bytes32', 'bytearray', 'script', 'pubkey', 'key')),
    'input.prevout': (lambda m, x: cls('TxIn', m)(x), ('none', 'outpoint', 'mutable outpoint')),
    'input.assetIssuance': (lambda m, x: cls('TxIn', m)(cls('OutPoint', m)(), assetIssuance=x), ('issuance',)),
    'input.is_pegin': (lambda m, x: cls('TxIn', m)(cls('OutPoint', m)(), is_pegin=x), ('bool',)),
    'input.nSequence': (lambda m, x: cls('TxIn', m)(cls('OutPoint', m)(), nSequence=x), INTS),
    'output.nValue': (lambda m, x: cls('TxOut', m)(**out(nValue=x)), ('value', 'null value')),
    'output.scriptPubKey': (lambda m, x: cls('TxOut', m)(**out(scriptPubKey=x)), ('none', 'bytes', 'bytes32', 'bytearray', 'script', 'pubkey', 'key')),
    'output.nAsset': (lambda m, x: cls('TxOut', m)(**out(nAsset=x)), ('asset', 'null asset')),
    'output.nNonce': (lambda m, x: cls('TxOut', m)(**out(nNonce=x)), ('nonce', 'null nonce')),
    'inwit.scriptWitness': (lambda m, x: cls('TxInWitness', m)(x), ('script witness',)),
    'inwit.issuanceAmountRangeproof': (lambda m, x: cls('TxInWitness', m)(issuanceAmountRangeproof=x), BYTESLIKE),
    'inwit.inflationKeysRangeproof': (lambda m, x: cls('TxInWitness', m)(inflationKeysRangeproof=x), BYTESLIKE),
    'inwit.pegin_witness': (lambda m, x: cls('TxInWitness', m)(pegin_witness=x), ('script witness',)),
    'outwit.surjectionproof': (lambda m, x: cls('TxOutWitness', m)(surjectionproof=x), BYTESLIKE),
    'outwit.rangeproof': (lambda m, x: cls('TxOutWitness', m)(rangeproof=x), BYTESLIKE),
    'issuance.assetBlindingNonce': (lambda m, x: ec.CAssetIssuance(assetBlindingNonce=x), ('uint256', 'asset id')),
    'issuance.assetEntropy': (lambda m, x: ec.CAssetIssuance(assetEntropy=x), ('uint256', 'asset id')),
    'issuance.nAmount': (lambda m, x: ec.CAssetIssuance(nAmount=x), ('value', 'null value')),
    'issuance.nInflationKeys': (lambda m, x: ec.CAssetIssuance(nInflationKeys=x), ('value', 'null value')),
    'outpoint.hash': (lambda m, x: cls('OutPoint', m)(x, 0), BYTESLIKE),
    'outpoint.n': (lambda m, x: cls('OutPoint', m)(b'\x01' * 32, x), ('int', 'bool')),
    'tx.vin item': (lambda m, x: cls('Transaction', m)([x]), ('input',)),
    'tx.vout item': (lambda m, x: cls('Transaction', m)([], [x]), ('output',)),
    'tx.witness': (lambda m, x: cls('Transaction', m)([], [], 0, 1, x), ('none', 'witness')),
    'witness.vtxinwit item': (lambda m, x: cls('TxWitness', m)([x]), ('input witness',)),
    'witness.vtxoutwit item': (lambda m, x: cls('TxWitness', m)([], [x]), ('output witness',)),
    'from_tx': (lambda m, x: cls('Transaction', m).from_tx(x), ('transaction', 'mutable transaction')),
    'asset field': (lambda m, x: ec.CConfidentialAsset(x), ('asset id', 'bytes', 'bytes32', 'bytearray', 'script', 'bitcoin script', 'pubkey', 'key')),
    'value field': (lambda m, x: ec.CConfidentialValue(x), ('int', 'negative', 'bool', 'bytes', 'bytes32', 'bytearray', 'script', 'bitcoin script', 'pubkey', 'key')),
    'nonce field': (lambda m, x: ec.CConfidentialNonce(x), BYTESLIKE),
    'asset field from': (lambda m, x: ec.CConfidentialAsset.from_asset(x), ('asset id',)),
    'value field from': (lambda m, x: ec.CConfidentialValue.from_amount(x), ('int', 'negative', 'bool')),
    'asset id': (lambda m, x: ec.CAsset(x), BYTESLIKE + ('none', 'asset id', 'uint256')),
    'entropy of': (lambda m, x: ec.generate_asset_entropy(x, Uint256()), ('outpoint', 'mutable outpoint')),
    'entropy contract': (lambda m, x: ec.generate_asset_entropy(cls('OutPoint', m)(), x), BYTESLIKE + ('uint256', 'asset id')),
    'entropy of asset': (lambda m, x: ec.calculate_asset(x), BYTESLIKE + ('uint256', 'asset id')),
    'entropy of token': (lambda m, x: ec.calculate_reissuance_token(x, m), BYTESLIKE + ('uint256', 'asset id')),
    'confidentiality of token': (lambda m, x: ec.calculate_reissuance_token(Uint256(), x), ('bool',)),
    'unblind key': (lambda m, x: unblind(blinding_key=x), ('key',)),
    'unblind rangeproof': (lambda m, x: unblind(rangeproof=x), BYTESLIKE),
    'sighash amount': (lambda m, x: v0(amount=x), ('value', 'null value')),
    'sighash transaction': (lambda m, x: v0(txTo=x), ('transaction', 'mutable transaction')),
}


def check_refuse(case):
    how, fine = T[case['target']]
    b = case['bytes']
    v = KINDS[case['kind']](b)
    with params(case['sel']):
        if case['kind'] in fine:
            # told apart from refusals: a fitting value is taken, unless its content is wrong
            try:
                r = how(case['mutable'], v)
            except Exception:
                return False, ['fitting, refused for its content']
            del r
            return False, ['fitting']
        try:
            r = how(case['mutable'], v)
        except Exception:
            return True, [case['target']]
    fail('%s made from %s %s: accepted, gives %s', case['target'], case['kind'], short(v), short(r))


def strat_refuse():
    return st.fixed_dictionaries(dict(
        target=st.sampled_from(sorted(T)), kind=st.sampled_from(sorted(KINDS)), bytes=gen.sized_bytes(40),
        mutable=st.booleans(), sel=st.sampled_from(PARAMS)))


def all_pairs(tier):
    res = []
    n = 0
    for t in sorted(T):
        for k in sorted(KINDS):
            for m in ((False, True) if tier == 'quick' else (False, True) * 4):
                for b in (b'', b'\x51'):
                    n += 1
                    res.append(dict(target=t, kind=k, bytes=b, mutable=m, sel=PARAMS[n % len(PARAMS)]))
    return res


PROP = Prop('C29', [
    Sub('pairs', check_refuse, cases=all_pairs, doc='every parameter with a value of every kind'),
    Sub('refuse', check_refuse, strat_refuse, quick=8000, thorough=100000,
        doc='a parameter, a value of some kind with generated content, mutable or not, any chain parameters'),
], rule='the value is of a kind the parameter does not take', zkp=True)
