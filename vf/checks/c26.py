from fractions import Fraction

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen, addrgen
from ..ref import curve, codec, addr as raddr
from bitcointx.core.key import XOnlyPubKey, CPubKey, tap_tweak_pubkey, compute_tap_tweak_hash, check_tap_tweak
from bitcointx.core.script import CScript, TaprootScriptTree
import bitcointx.wallet as bw
import elementstx.wallet as ew

TAPSCRIPT = 0xc4
LEAF_VERSIONS = list(range(0xc0, 0x100, 2)) + [0x66, 0x7e, 0x80, 0x84, 0x96, 0x98, 0xba, 0xbc, 0xbe]


def leaf_hash(lv, script):
    return curve.tagged('TapLeaf/elements', bytes([lv]) + codec.vbytes(script))


def branch(a, b):
    return curve.tagged('TapBranch/elements', min(a, b) + max(a, b))


def tweaked(internal, root):
    t = int.from_bytes(curve.tagged('TapTweak/elements', internal + root), 'big')
    if t >= curve.N:
        return None
    q = curve.add(curve.lift(int.from_bytes(internal, 'big')), curve.mul(t))
    return q[0].to_bytes(32, 'big'), q[1] & 1


def flat(tree):
    for x in tree['leaves']:
        if 'leaves' in x:
            yield from flat(x)
        else:
            yield x['script'], x['name'], TAPSCRIPT if tree['lv'] is None else tree['lv']


def unique(tree, n=None):
    """Distinct names, whatever the generator did."""
    n = [0] if n is None else n
    leaves = []
    for x in tree['leaves']:
        if 'leaves' in x:
            leaves.append(unique(x, n))
        else:
            n[0] += 1
            leaves.append(dict(script=x['script'], name='L%d' % n[0]))
    return dict(lv=tree['lv'], leaves=leaves)


def build(tree, tcls, scls, key, top=True):
    leaves = [build(x, tcls, scls, None, False) if 'leaves' in x else scls(x['script'], name=x['name'])
              for x in tree['leaves']]
    kw = {} if tree['lv'] is None else {'leaf_version': tree['lv']}
    if key is not None:
        kw['internal_pubkey'] = key
    return tcls(leaves, **kw)


def check_tree(case):
    tree = unique(case['tree'])
    secret = case['secret']
    internal = curve.pub(secret)[1:]
    kinds = [(case['params'], es.TaprootElementsScriptTree, es.CElementsScript)]
    if case['params'].startswith('elements'):
        kinds.append((case['params'], TaprootScriptTree, CScript))
    leaves = list(flat(tree))
    root = None
    for pname, tcls, scls in kinds:
        with params(pname):
            if case['late']:
                t = build(tree, tcls, scls, None)
                try:
                    t.get_script_with_control_block(leaves[0][1])
                except ValueError:
                    pass
                else:
                    fail('control block without internal key')
                if case['late'] == 2:
                    t.set_internal_pubkey(XOnlyPubKey(curve.pub(case['secret2'])[1:]))
                t.set_internal_pubkey(XOnlyPubKey(internal))
            else:
                t = build(tree, tcls, scls, XOnlyPubKey(internal))
        out, parity, mr = bytes(t.output_pubkey), int(t.parity), bytes(t.merkle_root)
        if root is not None:
            check_eq(mr, root, 'merkle root by the other class')
        root = mr
        check_eq((out, parity), tweaked(internal, mr), 'output key and parity')
        with params(case['params2']):
            kraft = Fraction(0)
            for script, name, lv in leaves:
                r = t.get_script_with_control_block(name)
                check(r is not None, 'script %s not found', name)
                check_eq(bytes(r[0]), script, 'script found under its name')
                cb = bytes(r[1])
                check(len(cb) >= 33 and len(cb) % 32 == 1, 'length of control block: %d', len(cb))
                check_eq(cb[0] & 0xfe, lv, 'leaf version in control block')
                check_eq(cb[0] & 1, parity, 'parity in control block')
                check_eq(cb[1:33], internal, 'internal key in control block')
                k = leaf_hash(lv, script)
                depth = 0
                for i in range(33, len(cb), 32):
                    k = branch(k, cb[i:i + 32])
                    depth += 1
                check_eq(k, mr, 'root reached from leaf %s' % name)
                kraft += Fraction(1, 2 ** depth)
                check_eq(t.get_script_path(name), cb[33:], 'path')
                check_eq(t.get_script_leaf_version(name), lv, 'leaf version')
            check(kraft == 1, 'paths do not cover the tree: %s', kraft)
            check(t.get_script_with_control_block('nosuch') is None, 'found a script that is not there')
    if len(leaves) == 1:
        check_eq(root, leaf_hash(leaves[0][2], leaves[0][0]), 'root of a single leaf')
    elif len(leaves) == 2:
        check_eq(root, branch(*[leaf_hash(lv, s) for s, _, lv in leaves]), 'root of two leaves')
    lb = ['%d leaves' % len(leaves) if len(leaves) < 4 else '4 or more leaves',
          'nested' if any('leaves' in x for x in tree['leaves']) else 'flat',
          'own leaf version' if any(lv != TAPSCRIPT for _, _, lv in leaves) else 'tapscript', case['params']]
    return len(leaves) > 1, lb


def strat_tree():
    leaf = st.fixed_dictionaries(dict(script=gen.weighted((8, gen.sized_bytes()), (1, st.just(b''))), name=st.just('')))
    lv = gen.weighted((3, st.none()), (1, st.sampled_from(LEAF_VERSIONS)))

    def fix(t):
        t = dict(t)
        if len(t['leaves']) == 1 and 'leaves' in t['leaves'][0]:
            return t['leaves'][0]
        if not any('script' in x for x in t['leaves']):
            t['lv'] = None
        return t

    def node(children, n):
        return st.fixed_dictionaries(dict(lv=lv, leaves=st.lists(children, min_size=1, max_size=n))).map(fix)
    base = node(leaf, 7)
    tree = node(st.one_of(leaf, leaf, base), 5)
    tree = st.one_of(base, tree, node(st.one_of(leaf, tree), 4))
    return st.fixed_dictionaries(dict(
        tree=tree, secret=addrgen.secret(), secret2=addrgen.secret(), late=st.integers(0, 2),
        params=st.sampled_from(PARAMS[:3]), params2=st.sampled_from(PARAMS)))


def bip340_verify(pub32, msg, sig):
    p = curve.lift(int.from_bytes(pub32, 'big'))
    r, s = int.from_bytes(sig[:32], 'big'), int.from_bytes(sig[32:], 'big')
    if p is None or r >= curve.P or s >= curve.N or len(sig) != 64:
        return False
    e = int.from_bytes(curve.tagged('BIP0340/challenge', sig[:32] + pub32 + msg), 'big') % curve.N
    q = curve.add(curve.mul(s), curve.mul(curve.N - e, p))
    return q is not None and q[1] % 2 == 0 and q[0] == r


KEYS = {'elements': 'CElementsKey', 'elements/liquidv1': 'CElementsLiquidV1Key'}


def check_key(case):
    secret, root, h = case['secret'], case['root'], case['hash']
    full = curve.pub(secret)
    internal = full[1:]
    tw = tweaked(internal, root)
    want, parity = tw
    plain, _ = tweaked(internal, b'')
    pname = case['params']
    with params(pname):
        r = tap_tweak_pubkey(XOnlyPubKey(internal), merkle_root=root)
        check_eq((bytes(r[0]), int(r[1])), tw, 'tweaked key')
        check_eq(compute_tap_tweak_hash(XOnlyPubKey(internal), merkle_root=root),
                 curve.tagged('TapTweak/elements', internal + root), 'tweak hash')
        check(check_tap_tweak(r[0], XOnlyPubKey(internal), merkle_root=root, parity=bool(parity)), 'tweak refused')
        check(not check_tap_tweak(r[0], XOnlyPubKey(internal), merkle_root=root, parity=not parity), 'wrong parity accepted')
        gk = bw.CCoinKey.from_secret_bytes(secret)
    for net in ('elements', 'elements/liquidv1'):
        k = getattr(ew, KEYS[net]).from_secret_bytes(secret)
        a = ew.P2TRElementsAddress if net == 'elements' else ew.P2TRElementsLiquidV1Address
        with params(case['params2']):
            sig = k.sign_schnorr_tweaked(h, merkle_root=root)
            addrs = [(a.from_xonly_pubkey(XOnlyPubKey(internal)), plain), (a.from_pubkey(CPubKey(full)), plain),
                     (a.from_xonly_output_pubkey(XOnlyPubKey(want)), want),
                     (a.from_xonly_output_pubkey(want), want),
                     (a.from_output_pubkey(CPubKey(b'\x02' + want)), want)]
        check(bip340_verify(want, h, sig), 'signature with the tweaked key does not verify (%s key)' % net)
        check_eq(bytes(k.secret_bytes), secret, 'key after signing')
        for x, w in addrs:
            check_eq(bytes(x), w, 'program of the address')
            check_eq(bytes(x.to_scriptPubKey()), b'\x51\x20' + w, 'script of the address')
            check_eq(str(x), raddr.encode(net, 'p2tr', w), 'address string')
    with params(pname):
        sig = gk.sign_schnorr_tweaked(h, merkle_root=root)
        check(bip340_verify(want, h, sig), 'signature with the tweaked key does not verify (generic key)')
        sig = gk.sign_schnorr_no_tweak(h)
        check(bip340_verify(internal, h, sig), 'untweaked signature does not verify')
        x = bw.P2TRCoinAddress.from_xonly_output_pubkey(want)
        check_eq(str(x), raddr.encode(pname, 'p2tr', want), 'address string by the generic class')
        x = bw.P2TRCoinAddress.from_xonly_pubkey(XOnlyPubKey(internal))
        check_eq(bytes(x.to_scriptPubKey()), b'\x51\x20' + plain, 'script by the generic class')
        y = bw.CCoinAddress.from_scriptPubKey(CScript(b'\x51\x20' + want))
        check_eq(bytes(y), want, 'address from the script')
        bad = case['bad']
        if curve.lift(int.from_bytes(bad, 'big')) is None:
            for f in (bw.P2TRCoinAddress.from_xonly_pubkey, bw.P2TRCoinAddress.from_xonly_output_pubkey):
                try:
                    f(bad)
                except (bw.CCoinAddressError, ValueError):
                    continue
                fail('invalid key not refused')
    return True, ['no script path' if not root else 'script path', pname]


def strat_key():
    return st.fixed_dictionaries(dict(
        secret=addrgen.secret(), root=st.one_of(st.just(b''), gen.b32()), hash=gen.b32(), bad=gen.b32(),
        params=st.sampled_from(['elements', 'elements/liquidv1']), params2=st.sampled_from(PARAMS)))


PROP = Prop('C26', [
    Sub('tree', check_tree, strat_tree, quick=1000, thorough=30000,
        doc='every leaf proved against the output key with an independent BIP341 verifier'),
    Sub('key', check_key, strat_key, quick=400, thorough=10000, doc='tweaked keys, signatures and addresses'),
], rule='an internal key and a tree of named scripts, or a key and a root; non-trivial: at least two leaves; all keys',
   zkp=False)
