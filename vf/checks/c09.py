import hashlib

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq
from .. import gen, sigedit, addrgen
from ..ref import codec, curve, bip32, sighash as ref
from bitcointx.core import ValidationError
from bitcointx.core.key import CKey
from bitcointx.core.script import (
    SignatureHash, SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGHASH_Type, CScriptWitness)
from bitcointx.core.scripteval import VerifyScript
import bitcointx.wallet as bw

VALID = (1, 2, 3, 0x81, 0x82, 0x83)


def push(b):
    if not b:
        return b'\x00'
    if len(b) < 0x4c:
        return bytes([len(b)]) + b
    if len(b) < 256:
        return b'\x4c' + bytes([len(b)]) + b
    return b'\x4d' + len(b).to_bytes(2, 'little') + b


def sha(b):
    return hashlib.sha256(b).digest()


def template(kind, pubs):
    """(script code parts, key indices) of the script that checks signatures."""
    if kind == 'pkh':
        s = b'\x76\xa9\x14' + bip32.h160(pubs[0]) + b'\x88\xac'
        return s, [(0, s)]
    if kind == 'pk':
        s = push(pubs[0]) + b'\xac'
        return s, [(0, s)]
    if kind == 'multi':
        s = b'\x52' + b''.join(push(p) for p in pubs) + b'\x53\xae'
        return s, [(0, s), (2, s)]
    if kind == 'csep':
        a, b = push(pubs[0]) + b'\xad\xab', push(pubs[1]) + b'\xac'
        return a + b, [(1, b), (0, a + b)]
    raise AssertionError


# no OP_CODESEPARATOR in witness scripts: python-bitcointx's interpreter keeps the
# opcode itself in the script code there
# name -> (what checks the signature, outer form)
KINDS = {
    'p2pkh': ('pkh', 'bare'), 'p2pk': ('pk', 'bare'), 'bare multisig': ('multi', 'bare'), 'bare csep': ('csep', 'bare'),
    'p2sh multisig': ('multi', 'sh'), 'p2sh pkh': ('pkh', 'sh'), 'p2sh csep': ('csep', 'sh'),
    'p2wpkh': ('pkh', 'wpkh'), 'p2sh-p2wpkh': ('pkh', 'sh-wpkh'),
    'p2wsh multisig': ('multi', 'wsh'), 'p2wsh pk': ('pk', 'wsh'), 'p2wsh pkh': ('pkh', 'wsh'),
    'p2sh-p2wsh multisig': ('multi', 'sh-wsh'), 'p2sh-p2wsh pkh': ('pkh', 'sh-wsh'),
}


def shape(script):
    """The opcodes of a script, without pushed data."""
    r, i = [], 0
    while i < len(script):
        r.append(script[i])
        i += 1 + (script[i] if script[i] < 0x4c else 0)
    return r, i


def spend(case, pubs):
    """(scriptPubKey, segwit?, script, [(key, script code)], builder of scriptSig and witness)."""
    inner, outer = KINDS[case['kind']]
    script, parts = template(inner, pubs)

    def items(sigs):
        if inner == 'pkh':
            return [sigs[0], pubs[0]]
        if inner == 'multi':
            return [b''] + sigs
        return sigs
    if outer == 'bare':
        return script, False, parts, lambda sigs: (b''.join(push(x) for x in items(sigs)), [])
    if outer == 'sh':
        return (b'\xa9\x14' + bip32.h160(script) + b'\x87', False, parts,
                lambda sigs: (b''.join(push(x) for x in items(sigs)) + push(script), []))
    if outer.endswith('wpkh'):
        prog = b'\x00\x14' + bip32.h160(pubs[0])
        wit = items
    else:
        prog = b'\x00\x20' + sha(script)

        def wit(sigs):
            return items(sigs) + [script]
    if outer.startswith('sh'):
        return b'\xa9\x14' + bip32.h160(prog) + b'\x87', True, parts, lambda sigs: (push(prog), wit(sigs))
    return prog, True, parts, lambda sigs: (b'', wit(sigs))


def digest(segwit, tx, idx, code, ht, amount):
    if segwit:
        return ref.segwit_v0(tx, idx, code, ht, amount)
    return ref.legacy(tx, idx, code, ht)[0]


def verify(tx, idx, spk, amount):
    t = mk_tx(tx, False)
    w = t.wit.vtxinwit[idx].scriptWitness
    VerifyScript(t.vin[idx].scriptSig, es.CElementsScript(spk), t, idx, amount=ec.CConfidentialValue(amount), witness=w)


def accepted(*a):
    try:
        verify(*a)
    except ValidationError:
        return False
    return True


def lib_sign(t, idx, code, ht, amount, segwit, key, how):
    sv = SIGVERSION_WITNESS_V0 if segwit else SIGVERSION_BASE
    kw = dict(amount=amount, sigversion=sv)
    s = es.CElementsScript(code)
    if how == 0:
        h = s.sighash(t, idx, SIGHASH_Type(ht), **kw)
    elif how == 1:
        h, err = s.raw_sighash(t, idx, SIGHASH_Type(ht), **kw)
    elif how == 2:
        h = SignatureHash(s, t, idx, SIGHASH_Type(ht), **kw)
    else:
        h, err = es.RawElementsSignatureHash(s, t, idx, SIGHASH_Type(ht), **kw)
    return h, key.sign(h) + bytes([ht])


def check_spend(case):
    tx, ht = case['tx'], case['ht']
    idx = case['idx'] % len(tx['vin'])
    amount = case['amount']
    keys = [CKey(s) for s in case['secrets']]
    pubs = [curve.pub(s) for s in case['secrets']]
    spk, segwit, parts, finish = spend(case, pubs)
    lb = [case['kind'], 'ht %d' % ht]
    single_bug = not segwit and ht & 0x1f == 3 and idx >= len(tx['vout'])
    how = case['how'] if not single_bug else (1, 3)[case['how'] % 2]
    if len(set(pubs)) < 3:
        return False, ['equal keys']
    with params(case['params']):
        if case['keycls']:
            keys = [bw.CCoinKey.from_secret_bytes(s) for s in case['secrets']]
        t = mk_tx(tx, case['mutable'])
        sigs = []
        for n, code in parts:
            h, sig = lib_sign(t, idx, code, ht, ec.CConfidentialValue(amount), segwit, keys[n], how)
            check_eq(h, digest(segwit, tx, idx, code, ht, amount), 'digest being signed')
            sigs.append(sig)
        ss, wit = finish(sigs)
        signed = dict(tx, vin=[dict(i) for i in tx['vin']])
        signed['vin'][idx] = dict(signed['vin'][idx], ss=ss, wit=dict(signed['vin'][idx]['wit'], sw=wit))
        # the library's own way of putting it together gives the same
        m = mk_tx(tx, True)
        m.vin[idx].scriptSig = es.CElementsScript(ss)
        m.wit.vtxinwit[idx].scriptWitness = CScriptWitness(wit)
        check_eq(m.serialize(), codec.ser_tx(signed), 'signed transaction')
        VerifyScript(m.vin[idx].scriptSig, es.CElementsScript(spk), m, idx, amount=ec.CConfidentialValue(amount),
                     witness=m.wit.vtxinwit[idx].scriptWitness)
        verify(signed, idx, spk, amount)
        # alterations
        for e in case['edits']:
            w, f, seed = e['where'], e['field'], e['seed']
            spent = [dict(asset=b'\x01' + bytes(32), value=amount, nonce=b'', spk=spk)] * len(tx['vin'])
            r = sigedit.apply(signed, spent, e)
            if r is None:
                continue
            tx2, spent2, k = r
            if k == idx and ((w == 'in' and f == 'ss') or (w == 'inwit' and f == 'sw')):
                continue
            amount2 = spent2[idx]['value']
            spk2 = spent2[idx]['spk']
            if not amount2 or (w == 'spent' and f in ('asset', 'nonce')):
                continue
            if spk2 != spk:
                # (only pushed data: with other opcodes it can be a script that anyone can spend;
                # the constant digest does not cover the keys that are not used)
                if single_bug or shape(spk2) != shape(spk):
                    continue
                check(not accepted(tx2, idx, spk2, amount2), 'accepted with another scriptPubKey')
                lb.append('other script')
                continue
            same = all(digest(segwit, tx2, idx, c, ht, amount2) == digest(segwit, signed, idx, c, ht, amount)
                       for _, c in parts)
            got = accepted(tx2, idx, spk, amount2)
            check_eq(got, same, 'verification after a change of %s.%s[%s] (hash type %d, input %d)' % (w, f, k, ht, idx))
            lb.append('still valid' if same else 'invalid')
        # altered signatures
        s = case['sigedit']
        j = s['which'] % len(sigs)
        if s['how'] == 0:
            ht2 = VALID[s['n'] % len(VALID)]
            new = sigs[j][:-1] + bytes([ht2])
            same = digest(segwit, signed, idx, parts[j][1], ht2, amount) == digest(segwit, signed, idx, parts[j][1], ht, amount)
        elif s['how'] == 1:
            p = 6 + s['n'] % (len(sigs[j]) - 7 - 6)
            new = sigs[j][:p] + bytes([sigs[j][p] ^ (1 << s['n'] % 8)]) + sigs[j][p + 1:]
            same = new == sigs[j]
        else:
            other = CKey(sha(b'another key' + case['secrets'][0]))
            _, new = lib_sign(t, idx, parts[j][1], ht, ec.CConfidentialValue(amount), segwit, other, how)
            same = False
        s2 = list(sigs)
        s2[j] = new
        ss2, wit2 = finish(s2)
        tx2 = dict(signed, vin=[dict(i) for i in signed['vin']])
        tx2['vin'][idx] = dict(tx2['vin'][idx], ss=ss2, wit=dict(tx2['vin'][idx]['wit'], sw=wit2))
        got = accepted(tx2, idx, spk, amount)
        check_eq(got, same, 'verification with an altered signature (%s)' % s)
        # a signature for one input is none for another
        if not single_bug and len(tx['vin']) > 1:
            o = (idx + 1) % len(tx['vin'])
            tx2 = dict(signed, vin=[dict(i) for i in signed['vin']])
            tx2['vin'][o] = dict(tx2['vin'][o], ss=ss, wit=dict(tx2['vin'][o]['wit'], sw=wit))
            same = all(digest(segwit, tx2, o, c, ht, amount) == digest(segwit, signed, idx, c, ht, amount)
                       for _, c in parts)
            check_eq(accepted(tx2, o, spk, amount), same, 'signature used for another input')
    return True, lb


def strat_spend():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=3, max_out=3), idx=gen.pos(), kind=st.sampled_from(sorted(KINDS)),
        secrets=st.lists(addrgen.secret(), min_size=3, max_size=3, unique=True), ht=st.sampled_from(VALID),
        amount=gen.value_field(null=False), how=st.integers(0, 3), keycls=st.booleans(), mutable=st.booleans(),
        edits=st.lists(gen.weighted((6, sigedit.strategy(True)), (2, st.fixed_dictionaries(dict(
            where=st.just('spent'), field=st.sampled_from(['value', 'spk']), k=gen.pos(),
            seed=st.binary(min_size=4, max_size=4))))), min_size=2, max_size=5),
        sigedit=st.fixed_dictionaries(dict(how=st.integers(0, 2), which=st.integers(0, 1), n=st.integers(0, 500))),
        params=st.sampled_from(['elements', 'elements/liquidv1'])))


PROP = Prop('C09', [
    Sub('spend', check_spend, strat_spend, quick=2000, thorough=40000,
        doc='sign with the library, verify with its script interpreter, alter, verify again: accepted exactly '
            'if the reference digest is the same'),
], rule='a transaction, one of 14 kinds of spends, hash type, spent amount (explicit or committed) and alterations; '
        'every case with distinct keys is non-trivial',
   assumptions=['the script interpreter is that of python-bitcointx'], zkp=False)
