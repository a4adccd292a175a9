import atexit
import os
import shutil
import subprocess
import tempfile
import threading

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import addrgen, blindgen as bg, env, gen, zkp
from ..forked import in_child
from ..ref import addr, codec, curve, sighash
from bitcointx.core.key import CKey
from bitcointx.core.script import SIGVERSION_WITNESS_V0
import bitcointx.wallet as bw
import elementstx.core.secp256k1 as esecp

_dir = None
ZKP = ('zkp', 'zkp2', 'zkp link', 'zkp named')
PLAIN = ('plain', 'plain link')
JUNK = ('text', 'empty')
NOFILE = ('missing', 'directory', 'broken link', 'no name', 'below a file', 'link to directory')
KINDS = ZKP + PLAIN + JUNK + NOFILE


def paths():
    """Files of every kind, in a scratch directory; {kind: path}"""
    global _dir
    if _dir is None:
        _dir = tempfile.mkdtemp(prefix='vf-c25-')
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_dir, ignore_errors=True))
        src = os.path.join(_dir, 'empty.c')
        with open(src, 'w') as f:
            f.write('int vf_nothing_else;\n')
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-o', os.path.join(_dir, 'plain.so'), src,
                            '-Wl,--no-as-needed', '-l:libsecp256k1.so'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise env.HarnessError(r.stdout.decode(errors='replace'))
        os.mkdir(os.path.join(_dir, 'a directory'))
        shutil.copy(env.zkp_path(), os.path.join(_dir, 'zkp2.so'))
        shutil.copy(env.zkp_path(), os.path.join(_dir, 'a directory', 'name with blanks \u00e9'))
        for name, to in (('zkp-link.so', env.zkp_path()), ('plain-link.so', 'plain.so'), ('broken', 'nowhere'), ('dirlink', 'a directory')):
            os.symlink(to, os.path.join(_dir, name))
        with open(os.path.join(_dir, 'text.so'), 'w') as f:
            f.write('this is not a library\n')
        open(os.path.join(_dir, 'nothing.so'), 'w').close()

    def p(*x):
        return os.path.join(_dir, *x)
    return {'zkp': env.zkp_path(), 'zkp2': p('zkp2.so'), 'zkp link': p('zkp-link.so'), 'zkp named': p('a directory', 'name with blanks \u00e9'),
            'plain': p('plain.so'), 'plain link': p('plain-link.so'), 'text': p('text.so'), 'empty': p('nothing.so'),
            'missing': p('missing.so'), 'directory': p('a directory'), 'broken link': p('broken'), 'no name': '',
            'below a file': p('plain.so', 'x'), 'link to directory': p('dirlink')}


# ---- what can be done in the process ----------------------------------------------

def capability(handle, kind, path):
    """The handle belongs to a library of this kind."""
    has = kind in ZKP
    check_eq(handle.cap.has_zkp, has, 'capability reported with library %s' % kind)
    check_eq(hasattr(handle.lib, 'secp256k1_rangeproof_info'), has, 'library loaded (%s wanted)' % kind)
    check_eq(handle.ctx.blind is not None, has, 'context for blinding with library %s' % kind)
    check(handle.ctx.sign and handle.ctx.verify, 'contexts are missing')
    for cap, fun in (('has_ecdh', 'secp256k1_ecdh'), ('has_pubkey_recovery', 'secp256k1_ecdsa_recover'),
                     ('has_xonly_pubkeys', 'secp256k1_xonly_pubkey_parse')):
        check_eq(getattr(handle.cap, cap), hasattr(handle.lib, fun), cap)
    if path is not None:
        check(os.path.samefile(handle.lib._name, path), 'library %s was loaded instead of %s', handle.lib._name, path)


def do_info(case, has):
    """Range proof information."""
    w = (ec.CElementsMutableTxOutWitness if case['mutable'] else ec.CElementsTxOutWitness)(b'', case['proof'])
    want = zkp.rp_info(case['proof'])
    try:
        got = w.get_rangeproof_info()
    except RuntimeError:
        check(not has, 'get_rangeproof_info raises RuntimeError though the library can')
        return 'RuntimeError'
    check(has, 'get_rangeproof_info returns %s without the library', got)
    if want is None:
        check_eq(got, None, 'information about something that is no range proof')
    else:
        check_eq((got.exp, got.mantissa, got.value_min, got.value_max), tuple(want), 'range proof information')
    return 'info'


def do_commitment(case, has):
    a = ec.CAsset(case['asset'])
    try:
        got = a.to_commitment()
    except Exception as e:
        check(not has, 'to_commitment: %s: %s', type(e).__name__, e)
        return 'exception'
    check(has, 'to_commitment returns %s without the library', got)
    check_eq(bytes(got), zkp.gen33(case['asset']), 'commitment')
    return 'commitment'


def do_blind(case, has):
    asset = case['asset']
    tx = ec.CElementsMutableTransaction(
        [ec.CElementsMutableTxIn(ec.CElementsMutableOutPoint(b'\x05' * 32, 0))],
        [ec.CElementsMutableTxOut(ec.CConfidentialValue(7 + k), es.CElementsScript(b'\x51'), ec.CConfidentialAsset(ec.CAsset(asset)))
         for k in range(2)])
    before = tx.serialize()
    key = CKey(case['sec'])
    try:
        res = tx.blind(input_descriptors=[ec.BlindingInputDescriptor(
            asset=ec.CAsset(asset), amount=15, blinding_factor=Uint256(bg.Z32), asset_blinding_factor=Uint256(bg.Z32))],
            output_pubkeys=[key.pub, key.pub], custom_ct_bits=4, _rand_func=bg.Stream(case['seed']))
    except Exception as e:
        check(not has, 'blind: %s: %s', type(e).__name__, e)
        check_eq(tx.serialize(), before, 'transaction after blinding without the library')
        return 'exception'
    if not has:
        check(isinstance(res, ec.BlindingFailure), 'blind returns %s without the library', res)
        return 'failure'
    check(isinstance(res, ec.BlindingSuccess), 'blinding failed: %s', res)
    for k in range(2):
        u = tx.vout[k].unblind_confidential_pair(key, tx.wit.vtxoutwit[k].rangeproof)
        check(isinstance(u, ec.UnblindingSuccess), 'unblinding failed: %s', u)
        check_eq((u.amount, u.asset.data), (7 + k, asset), 'unblinded')
    return 'blinded'


def do_unblind(case, has):
    asset, abf, bf, sec = case['asset'], case['bf'], case['bf'], case['sec']
    g = zkp.gen64(asset, abf)
    com = zkp.commit33(9, bf, g)
    proof = zkp.rp_sign(9, 1, com, bf, zkp.nonce_of(case['esec'], curve.pub(sec)), 0, 5, asset + abf, b'\x51', g)
    out = ec.CElementsTxOut(ec.CConfidentialValue(com), es.CElementsScript(b'\x51'), ec.CConfidentialAsset(zkp.gen33(asset, abf)),
                            ec.CConfidentialNonce(curve.pub(case['esec'])))
    try:
        u = out.unblind_confidential_pair(CKey(sec), proof)
    except Exception as e:
        check(not has, 'unblinding: %s: %s', type(e).__name__, e)
        return 'exception'
    check_eq(isinstance(u, ec.UnblindingSuccess), has, 'unblinding succeeds')
    if has:
        check_eq((u.amount, u.asset.data, u.blinding_factor.data), (9, asset, bf), 'unblinded')
        return 'unblinded'
    return 'failure'


def do_work(case):
    """What has to work whatever the library can do."""
    tx = case['tx']
    t = mk_tx(tx, case['mutable'])
    check_eq(t.serialize(), codec.ser_tx(tx), 'serialized transaction')
    same(rd_tx(ec.CElementsTransaction.deserialize(codec.ser_tx(tx))), codec.normalize(tx), 'deserialized transaction')
    check_eq((t.GetTxid(), t.GetHash()), (codec.txid(tx), codec.wtxid(tx)), 'ids')
    key = CKey(case['sec'])
    check_eq(bytes(key.pub), curve.pub(case['sec']), 'public key')
    if tx['vin']:
        d, _ = es.CElementsScript(b'\x51').raw_sighash(
            t, 0, 1, amount=ec.CConfidentialValue(case['amt']), sigversion=SIGVERSION_WITNESS_V0)
        check_eq(d, sighash.segwit_v0(tx, 0, b'\x51', 1, bg.explicit_value(case['amt'])), 'digest')
        sig = key.sign(d)
        check(key.pub.verify(d, sig), 'signature does not verify')
    a = case['addr']
    with params(a['net']):
        x = bw.CCoinAddress(addrgen.to_str(a))
        check_eq(str(x), addrgen.to_str(a), 'address')
        check_eq(bytes(x.to_scriptPubKey()), addr.script(a['kind'], a['payload']), 'script of an address')
        if a['blind']:
            check_eq(bytes(x.blinding_pubkey), a['blind'], 'blinding key of an address')
    bk = ec.derive_blinding_key(key, es.CElementsScript(b'\x51'))
    check_eq(bytes(bk.pub), curve.pub(bk.secret_bytes), 'derived blinding key')


# ---- histories --------------------------------------------------------------------

def play(case, files):
    lib = None      # kind of the library in use
    sel = None      # kind of the library selected
    handle = None
    lb = []
    with params(case['params']):
        for op in case['ops']:
            o = op['op']
            if o == 'set':
                k = op['kind']
                old = elementstx.get_custom_secp256k1_path()
                try:
                    elementstx.set_custom_secp256k1_path(files[k])
                except ValueError:
                    check(k in NOFILE, 'path to an existing file (%s) is refused', k)
                    check_eq(elementstx.get_custom_secp256k1_path(), old, 'path after another was refused')
                    lb.append('refused: ' + k)
                    continue
                check(k not in NOFILE, 'path that is not a file (%s) is accepted', k)
                if lib is None:
                    sel = k
                    check_eq(elementstx.get_custom_secp256k1_path(), files[k], 'path reported')
                    lb.append('set: ' + k)
                else:
                    lb.append('set after first use')
                continue
            if o == 'get':
                if lib is None:
                    check_eq(elementstx.get_custom_secp256k1_path(), None if sel is None else files[sel], 'path reported')
                continue
            if o == 'work':
                do_work(case)
                continue
            # what uses the library
            now = lib or sel or 'plain'
            has = now in ZKP
            if now in JUNK:
                try:
                    r = esecp.get_secp256k1()
                except ImportError:
                    lb.append('not a library')
                    continue
                fail('something that is not a library is loaded: %s', r)
            if o == 'handle':
                r = 'handle'
                if op['threads'] and lib is None:
                    # first use in several threads, one after another
                    for _ in range(2):
                        t = threading.Thread(target=esecp.get_secp256k1)
                        t.start()
                        t.join()
            else:
                r = {'info': do_info, 'commitment': do_commitment, 'blind': do_blind, 'unblind': do_unblind}[o](case, has)
            if lib is None:
                lb.append('first use: %s, %s' % (o, 'with' if has else 'without'))
            lib = now
            lb.append('%s %s' % (r, 'with' if has else 'without'))
            h = esecp.get_secp256k1()
            if handle is None:
                handle = h
            check(h is handle or (h.lib is handle.lib and h.ctx == handle.ctx and h.cap == handle.cap),
                  'the handle changes after first use')
            capability(h, lib, files[lib] if sel is not None else None)
    return lib is not None, lb


def check_history(case):
    files = paths()
    return in_child(lambda: play(case, files))


def strat_history():
    kind = gen.weighted((3, st.sampled_from(ZKP)), (2, st.sampled_from(PLAIN)), (1, st.sampled_from(JUNK)), (3, st.sampled_from(NOFILE)))
    use = st.sampled_from(['handle', 'info', 'commitment', 'blind', 'unblind'])
    setop = st.builds(lambda k: dict(op='set', kind=k), kind)
    op = gen.weighted((2, setop), (1, st.just(dict(op='get'))),
                      (1, st.just(dict(op='work'))), (4, st.builds(lambda u, t: dict(op=u, threads=t), use, st.booleans())))
    proof = st.one_of(
        gen.outwit().map(lambda w: w['rp']),
        st.builds(lambda v, b, bits: zkp.rp_sign(v, 0, zkp.commit33(v, b, zkp.gen64(b'\x01' * 32)), b, b, 0, bits, b'', b'', zkp.gen64(b'\x01' * 32)) or b'',
                  st.integers(0, 99), bg.factor(), st.integers(1, 8)))
    return st.fixed_dictionaries(dict(
        ops=st.builds(lambda a, b: a + b, st.lists(setop, max_size=2), st.lists(op, min_size=1, max_size=7)), tx=gen.tx(max_in=2, max_out=2), sec=addrgen.secret(), esec=addrgen.secret(),
        asset=gen.b32(False).filter(any), bf=bg.factor(), amt=st.integers(0, gen.MAX_MONEY), seed=st.binary(min_size=8, max_size=8),
        proof=proof, mutable=st.booleans(), addr=addrgen.address(nets=addrgen.ENETS), params=st.sampled_from(EPARAMS)))


PROP = Prop('C25', [
    Sub('history', check_history, strat_history, quick=900, thorough=30000,
        doc='selections, refused selections and uses in any order, each history in a process of its own'),
], rule='the library is used', assumptions=['stand-in library', 'the plain library installed here is what is found when no path is set'], zkp=False)
