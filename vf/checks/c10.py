from hypothesis import strategies as st

from ..addrgen import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen
from ..ref import addr, curve
from bitcointx.core.key import CPubKey

FORMS = {'CPubKey': CPubKey, 'bytes': bytes, 'bytearray': bytearray}


def judge(ca, a, what):
    """ca must be the confidential address described by a."""
    net, kind = a['net'], a['kind']
    check(type(ca) is leaf(net, kind, True), '%s has type %s', what, type(ca).__name__)
    check_eq(bytes(ca), a['blind'] + a['payload'], what + ': content')
    check_eq(str(ca), to_str(a), what + ': string')
    check_eq(bytes(ca.blinding_pubkey), a['blind'], what + ': blinding key')
    check(isinstance(ca.blinding_pubkey, CPubKey) and ca.blinding_pubkey.is_fullyvalid(),
          '%s: blinding key is not a valid CPubKey', what)
    un = ca.to_unconfidential()
    check(type(un) is leaf(net, kind, False), '%s: unconfidential form has type %s', what, type(un).__name__)
    check_eq(bytes(un), a['payload'], what + ': unconfidential content')
    check_eq(str(un), to_str(dict(a, blind=None)), what + ': unconfidential string')
    spk = ca.to_scriptPubKey()
    check_eq(bytes(spk), addr.script(kind, a['payload']), what + ': script')
    check(isinstance(spk, es.CElementsScript), '%s: script has type %s', what, type(spk).__name__)
    check(spk == un.to_scriptPubKey(), '%s: forms pay to different scripts', what)
    r = []
    for x in (ca, un):
        try:
            r.append(bytes(x.to_redeemScript()))
        except NotImplementedError:
            r.append(None)
    want = addr.script('p2pkh', a['payload']) if kind in ('p2pkh', 'p2wpkh') else None
    check_eq(r, [want, want], what + ': redeem scripts')


TYPES = {'p2pkh': 'pubkeyhash', 'p2sh': 'scripthash', 'p2wpkh': 'witness_v0_keyhash',
         'p2wsh': 'witness_v0_scripthash', 'p2tr': 'witness_v1_taproot'}


def check_isa(ca, a):
    """Which classes an address counts as an instance of."""
    net, kind = a['net'], a['kind']
    un = ca.to_unconfidential()
    for k in KINDS:
        for n in ENETS:
            mine = (n, k) == (net, kind)
            check_eq(isinstance(ca, leaf(n, k, True)), mine, '%s is a %s' % (type(ca).__name__, leaf(n, k, True).__name__))
            check_eq(isinstance(ca, leaf(n, k, False)), mine, '%s is a %s' % (type(ca).__name__, leaf(n, k, False).__name__))
            check_eq(isinstance(un, leaf(n, k, False)), mine, '%s is a %s' % (type(un).__name__, leaf(n, k, False).__name__))
            check(not isinstance(un, leaf(n, k, True)), '%s is a %s', type(un).__name__, leaf(n, k, True).__name__)
        check_eq(isinstance(ca, generic(k, True)), k == kind, '%s is a %s' % (type(ca).__name__, generic(k, True).__name__))
        for x in (ca, un):
            check_eq(isinstance(x, generic(k, False)), k == kind, '%s is a %s' % (type(x).__name__, generic(k, False).__name__))
        check(not isinstance(un, generic(k, True)), '%s is a %s', type(un).__name__, generic(k, True).__name__)
    for n in ENETS:
        for name, xs in (('C%sAddress', (ca, un)), ('C%sConfidentialAddress', (ca,))):
            for x in xs:
                check_eq(isinstance(x, klass(name % NETNAME[n])), n == net, '%s is a %s' % (type(x).__name__, name % NETNAME[n]))
    for x in (ca, un, type(ca), type(un)):
        try:
            t = x.get_scriptPubKey_type()
        except TypeError:
            check(kind in BASE58 and x in (ca, type(ca)), 'no script type for %s', x)
        else:
            check_eq(t, TYPES[kind], 'script type of %s' % x)
    for c in (klass('C%sConfidentialAddress' % NETNAME[net]), klass('C%sAddress' % NETNAME[net])):
        for k in KINDS:
            m = c.match_scriptPubKey_type(TYPES[k])
            check(m in (leaf(net, k, True), leaf(net, k, False) if 'Conf' not in c.__name__ else None) or
                  (m is None and 'Conf' in c.__name__ and k in BASE58), 'class of %s for %s: %s', c.__name__, TYPES[k], m)


def check_convert(case):
    a = case['a']
    net, kind = a['net'], a['kind']
    with params(net):
        un = {'leaf': lambda: leaf(net, kind, False).from_bytes(a['payload']),
              'generic': lambda: generic(kind, False).from_bytes(a['payload']),
              'str': lambda: bw.CCoinAddress(to_str(dict(a, blind=None))),
              'script': lambda: bw.CCoinAddress.from_scriptPubKey(
                  bitcointx.core.script.CScript(addr.script(kind, a['payload']))),
              }[case['src']]()
        check(type(un) is leaf(net, kind, False), 'unconfidential address has type %s', type(un).__name__)
    key = FORMS[case['form']](a['blind'])
    via = case['via']
    sel = case['sel'] if via in ('leaf', 'net', 'netmid') else net
    with params(sel):
        cls = {'generic': lambda: generic(kind, True),
               'top': lambda: ew.CCoinConfidentialAddress,
               'mid': lambda: ew.CBase58CoinConfidentialAddress if kind in BASE58
               else ew.CBlech32CoinConfidentialAddress,
               'leaf': lambda: leaf(net, kind, True),
               'net': lambda: klass('C%sConfidentialAddress' % NETNAME[net]),
               'netmid': lambda: klass(('CBase58%sConfidentialAddress' if kind in BASE58
                                        else 'CBlech32%sConfidentialAddress') % NETNAME[net]),
               }[via]()
        ca = cls.from_unconfidential(un, key)
        judge(ca, a, 'made through %s' % cls.__name__)
        check_isa(ca, a)
        # the reverse of the reverse
        judge(type(ca).from_unconfidential(ca.to_unconfidential(), ca.blinding_pubkey), a, 'remade')
        judge(leaf(net, kind, True).from_bytes(a['blind'] + a['payload']), a, 'from bytes')
        judge(leaf(net, kind, True)(str(ca)), a, 'parsed by its class')
    with params(net):
        s = str(ca)
        back = ew.CCoinConfidentialAddress(s)
        judge(back, a, 'parsed from its string')
        judge(bw.CCoinAddress(s), a, 'parsed generically')
        check(back == ca, 'differs after a trip through its string')
        judge(generic(kind, True).from_bytes(a['blind'] + a['payload']), a, 'from bytes, generic class')
    if case['form'] == 'bytearray':
        key[5] ^= 0xff
        judge(ca, a, 'after the key buffer was changed')
    return True, [kind, 'via ' + via, 'selected other' if sel != net else 'selected same']


def strat_convert():
    return st.fixed_dictionaries(dict(
        a=address(ENETS, True), src=st.sampled_from(['leaf', 'generic', 'str', 'script']),
        form=st.sampled_from(sorted(FORMS)),
        via=st.sampled_from(['generic', 'top', 'mid', 'leaf', 'net', 'netmid']),
        sel=st.sampled_from(['elements', 'elements/liquidv1', 'bitcoin'])))


def must_refuse(f, what):
    try:
        r = f()
    except Exception:
        return
    fail('%s: not refused, gave %r', what, r)


def check_badkey(case):
    a, key = case['a'], case['key']
    valid = curve.parse(key) is not None and len(key) == 33
    with params(a['net']):
        un = leaf(a['net'], a['kind'], False).from_bytes(a['payload'])
        k = FORMS[case['form']](key)
        for cls in (ew.CCoinConfidentialAddress, generic(a['kind'], True), leaf(a['net'], a['kind'], True)):
            if valid:
                judge(cls.from_unconfidential(un, k), dict(a, blind=key), 'valid key')
            else:
                must_refuse(lambda: cls.from_unconfidential(un, k), 'blinding key %s' % key.hex())
                if len(key) != 33:
                    must_refuse(lambda: leaf(a['net'], a['kind'], True).from_bytes(key + a['payload']),
                                'content of wrong length')
    return not valid, ['valid' if valid else 'invalid, %s bytes' % (
        len(key) if len(key) in (0, 33, 65) else 'other')]


def strat_badkey():
    def mut(k, i, x):
        return k[:i] + bytes([k[i] ^ x]) + k[i + 1:]

    def full(k, pfx):
        p = curve.parse(k)
        return bytes([pfx]) + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big')
    keys = st.one_of(
        st.binary(min_size=33, max_size=33), st.binary(max_size=70),
        st.builds(lambda p, x: bytes([p]) + x, st.integers(0, 255), st.binary(min_size=32, max_size=32)),
        st.builds(mut, blindkey(), st.integers(0, 32), st.integers(1, 255)),
        st.builds(lambda p, n: bytes([p]) + n.to_bytes(32, 'big'), st.sampled_from([2, 3]),
                  st.sampled_from([0, 5, curve.P - 1, curve.P, curve.P + 1, 2 ** 256 - 1])),
        st.builds(full, blindkey(), st.sampled_from([4, 6, 7])),
        blindkey().map(lambda k: k[:-1]), blindkey().map(lambda k: k + b'\x00'),
        blindkey().map(lambda k: b'\x00' * 33))
    return st.fixed_dictionaries(dict(a=address(ENETS, False), key=keys, form=st.sampled_from(sorted(FORMS))))


def check_mismatch(case):
    a, b = case['a'], case['b']
    with params(a['net'] if case['sel'] else b['net']):
        un = leaf(a['net'], a['kind'], False).from_bytes(a['payload'])
        key = b['blind']
        cls = leaf(b['net'], b['kind'], True)
        if (a['net'], a['kind']) != (b['net'], b['kind']):
            must_refuse(lambda: cls.from_unconfidential(un, key),
                        '%s from %s' % (cls.__name__, type(un).__name__))
        if a['net'] != b['net']:
            c = klass('C%sConfidentialAddress' % NETNAME[b['net']])
            must_refuse(lambda: c.from_unconfidential(un, key), '%s from %s' % (c.__name__, type(un).__name__))
        for c in [ew.CBase58CoinConfidentialAddress if a['kind'] not in BASE58
                  else ew.CBlech32CoinConfidentialAddress]:
            must_refuse(lambda: c.from_unconfidential(un, key), '%s from %s' % (c.__name__, type(un).__name__))
    with params(b['net']):
        if a['net'] != b['net']:
            for c in (ew.CCoinConfidentialAddress, generic(a['kind'], True), generic(b['kind'], True)):
                must_refuse(lambda: c.from_unconfidential(un, key),
                            '%s (network %s) from %s' % (c.__name__, b['net'], type(un).__name__))
        # already confidential, or not an address at all
        ca = leaf(b['net'], b['kind'], True).from_bytes(b['blind'] + b['payload'])
        for c in (ew.CCoinConfidentialAddress, generic(b['kind'], True), type(ca)):
            for x in (ca, str(ca), bytes(ca), ca.to_scriptPubKey(), str(ca.to_unconfidential()), None):
                must_refuse(lambda: c.from_unconfidential(x, key),
                            '%s from %s' % (c.__name__, type(x).__name__))
            for k in (key.hex(), None, 2, list(key)):
                must_refuse(lambda: c.from_unconfidential(ca.to_unconfidential(), k),
                            'blinding key of type %s' % type(k).__name__)
    return (a['net'], a['kind']) != (b['net'], b['kind']), [
        'other network' if a['net'] != b['net'] else 'same network',
        'other kind' if a['kind'] != b['kind'] else 'same kind']


def strat_mismatch():
    return st.fixed_dictionaries(dict(a=address(None, False), b=address(ENETS, True), sel=st.booleans()))


PROP = Prop('C10', [
    Sub('convert', check_convert, strat_convert, quick=2400, thorough=60000,
        doc='both conversions, strings and scripts against the reference encoders'),
    Sub('badkey', check_badkey, strat_badkey, quick=1600, thorough=40000,
        doc='blinding keys of every form, validity judged by the curve equation'),
    Sub('mismatch', check_mismatch, strat_mismatch, quick=800, thorough=20000,
        doc='other kinds, other networks, wrong types'),
], rule='an address of one of the networks, kinds and payloads, with a blinding key; non-trivial: '
        'a conversion took place (convert), the key was invalid (badkey), kind or network differed (mismatch)',
   zkp=False)
_ = (gen, check_eq)
