from hypothesis import strategies as st

from ..addrgen import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail, short
from .. import gen
from ..ref import addr
from bitcointx.core import AddressDataEncodingError
from bitcointx.core.script import CScript
from bitcointx.wallet import CCoinAddress, CCoinAddressError

ADDRESS_ERRORS = (CCoinAddressError, AddressDataEncodingError)


def upstream_exempt(net, s):
    """python-bitcointx itself raises TypeError for Bitcoin addresses that are
    correct base58check with a payload of wrong length."""
    return net not in ENETS and addr.b58check_dec(s) is not None


def try_parse(cls, net, s, want, what):
    """want: (kind, payload, blind) if cls has to accept the string, or None."""
    try:
        d = cls(s)
    except ADDRESS_ERRORS:
        check(want is None, '%s: %s refused %s', what, cls.__name__, short(s))
        return
    except TypeError:
        if want is None and upstream_exempt(net, s):
            return
        raise
    check(want is not None, '%s: %s accepted %s as %s', what, cls.__name__, short(s), type(d).__name__)
    kind, payload, blind = want
    check(type(d) is leaf(net, kind, blind is not None), '%s: %s made %s of %s', what, cls.__name__,
          type(d).__name__, short(s))
    check(isinstance(d, cls), '%s: result is not a %s', what, cls.__name__)
    check_eq(bytes(d), (blind or b'') + payload, '%s: content' % what)
    check_eq(str(d), s if kind in BASE58 else s.lower(), '%s: string form' % what)
    check_eq(bytes(d.to_scriptPubKey()), addr.script(kind, payload), '%s: script' % what)


def targets(net):
    """(class, function (kind, confidential) -> accepts) of the selected network."""
    r = [(CCoinAddress, lambda k, c: True)]
    for gname in ('Coin', NETNAME[net]):
        for f in ALL_FAMILY:
            if 'Confidential' in f and net not in ENETS:
                continue
            name = f.replace('NET', gname)
            if name == 'CCoinAddress':
                continue
            r.append((klass(name), (lambda f: lambda k, c: f in family(k, c))(f)))
    for kind in KINDS:
        for conf in (False, True) if net in ENETS else (False,):
            p = (lambda kind, conf: lambda k, c: (k, c) == (kind, conf))(kind, conf)
            r.append((generic(kind, conf), p))
            r.append((leaf(net, kind, conf), p))
    return r


_T = {}
KNOWN = {klass(f.replace('NET', g)) for f in ALL_FAMILY for g in ['Coin'] + [NETNAME[n] for n in ENETS]} | {
    klass(f.replace('NET', NETNAME[n])) for f in ALL_FAMILY[:3] for n in NETS} | {
    generic(k, c) for k in KINDS for c in (False, True)}


def judge(net, s):
    """Parsing s under net with every class. Returns what the reference says."""
    want = addr.classify(net, s)
    if net not in _T:
        _T[net] = targets(net)
    for cls, accepts in _T[net]:
        w = want if want is not None and accepts(want[0], want[2] is not None) else None
        try_parse(cls, net, s, w, 'network %s' % net)
    return want


def judge_foreign(net, s):
    """Classes bound to one Elements network while net is selected."""
    for n in ENETS:
        if n == net:
            continue
        want = addr.classify(n, s)
        try_parse(klass('C%sAddress' % NETNAME[n]), n, s, want, 'selected %s' % net)
        for kind in KINDS:
            for conf in (False, True):
                w = want if want is not None and (want[0], want[2] is not None) == (kind, conf) else None
                try_parse(leaf(n, kind, conf), n, s, w, 'selected %s' % net)


def check_cross(case):
    """A valid address of one network under every network."""
    a = case['a']
    s = to_str(a)
    if case['upper'] and a['kind'] not in BASE58:
        s = s.upper()
    accepted = []
    for net in NETS:
        with params(net):
            if judge(net, s) is not None:
                accepted.append(net)
    check(a['net'] in accepted, 'reference does not recognize %s', s)
    # nothing but the address formats shared between Bitcoin test networks
    if a['net'] in ENETS or a['net'] == 'bitcoin':
        check_eq(accepted, [a['net']], 'networks accepting %s' % s)
    with params(case['sel']):
        judge_foreign(case['sel'], s)
    # base classes of the result
    with params(a['net']):
        d = CCoinAddress(s)
        n = 0
        for b in type(d).__mro__:
            if b in KNOWN:
                check_eq((type(b(s)), bytes(b(s))), (type(d), bytes(d)), 'parsed by base class %s' % b.__name__)
                n += 1
        check(n >= 3, 'only %d base classes', n)
    return True, [a['net'], a['kind'] + (' confidential' if a['blind'] else '')]


def strat_cross():
    return st.fixed_dictionaries(dict(a=address(), upper=st.booleans(), sel=st.sampled_from(NETS)))


def check_corrupt(case):
    a = case['a']
    s0 = to_str(a)
    s = corrupt(s0, case['edits'], addr.CS if a['kind'] not in BASE58 else addr.B58)
    with params(case['net']):
        want = judge(case['net'], s)
        judge_foreign(case['net'], s)
    return s != s0, ['accepted' if want else 'refused'] + sorted({e[0] for e in case['edits']})


def strat_corrupt():
    @st.composite
    def c(draw):
        a = draw(address())
        net = draw(gen.weighted((3, st.just(a['net'])), (1, st.sampled_from(NETS))))
        return dict(a=a, net=net, edits=draw(corruption()))
    return c()


def check_near(case):
    """Correctly checksummed data that is not quite an address."""
    how = case['how']
    if how == 'b58':
        s = addr.b58check(case['pfx'] + case['body'])
    elif how == 'bech':
        s = addr.seg_raw(case['hrp'], [case['ver']] + addr.to5(case['body']), 6, case['variant'])
    elif how == 'blech':
        s = addr.seg_raw(case['hrp'], [case['ver']] + addr.to5(case['body']), 12, case['variant'])
    else:
        s = addr.b58enc(case['body'])
    lb = [how]
    for net in case['nets']:
        with params(net):
            if judge(net, s) is not None:
                lb.append('accepted')
            judge_foreign(net, s)
    return True, lb


def strat_near():
    pfxs = [b'\x00', b'\x05', b'\x6f', b'\xc4', b'\xeb', b'\x4b', b'\x39', b'\x27', b'\x04', b'\x0c',
            b'\x04\xeb', b'\x04\x4b', b'\x0c\x39', b'\x0c\x27', b'\x0c\xeb', b'\x04\x39', b'\x80', b'\xef',
            b'\x04\x35\x87\xcf', b'\x04\x88\xb2\x1e', b'']
    lens = [0, 1, 19, 20, 21, 22, 31, 32, 33, 34, 52, 53, 54, 55, 64, 65, 66]
    body = st.sampled_from(lens).flatmap(lambda n: st.binary(min_size=n, max_size=n))
    nets = st.lists(st.sampled_from(NETS), min_size=1, max_size=2, unique=True)
    hrps = st.sampled_from(['el', 'lq', 'ert', 'ex', 'bc', 'tb', 'bcrt', 'tex', 'tlq'])
    ver = gen.weighted((3, st.integers(0, 2)), (1, st.integers(0, 31)))
    d = st.fixed_dictionaries
    return st.one_of(
        d(dict(how=st.just('b58'), pfx=st.sampled_from(pfxs), body=body, nets=nets)),
        d(dict(how=st.just('bech'), hrp=hrps, ver=ver, variant=st.integers(0, 1), body=body, nets=nets)),
        d(dict(how=st.just('blech'), hrp=hrps, ver=ver, variant=st.integers(0, 1), body=body, nets=nets)),
        d(dict(how=st.just('nochk'), body=body, nets=nets)))


def check_text(case):
    with params(case['net']):
        want = judge(case['net'], case['s'])
        judge_foreign(case['net'], case['s'])
    return bool(case['s']), ['accepted' if want else 'refused']


def strat_text():
    return st.fixed_dictionaries(dict(net=st.sampled_from(NETS), s=st.one_of(
        st.text(max_size=40).map(lambda s: s.encode('utf-8', 'replace').decode()),
        st.text(alphabet=addr.B58, max_size=90), st.text(alphabet=addr.CS + '1', max_size=110),
        st.builds(lambda h, t: h + '1' + t, st.sampled_from(['el', 'lq', 'ert', 'ex', 'bc']),
                  st.text(alphabet=addr.CS, max_size=110)),
        st.integers(0, 200).map(lambda n: '1' * n))))


def check_script(case):
    b = case['script']
    net = case['net']
    want = addr.classify_script(b)
    with params(net):
        spk = CScript(b)
        for cls, accepts in targets(net):
            if 'Confidential' in cls.__name__:
                # such an address says more than a script
                try:
                    r = cls.from_scriptPubKey(spk)
                except CCoinAddressError:
                    continue
                fail('%s made %r from a script', cls.__name__, r)
            w = want if want is not None and accepts(want[0], False) else None
            try:
                d = cls.from_scriptPubKey(spk)
            except CCoinAddressError:
                check(w is None, '%s refused script %s', cls.__name__, b.hex())
                continue
            check(w is not None, '%s accepted script %s', cls.__name__, b.hex())
            check(type(d) is leaf(net, w[0], False), '%s made %s', cls.__name__, type(d).__name__)
            check_eq(bytes(d), w[1], 'content')
            check_eq(bytes(d.to_scriptPubKey()), b, 'script of the address')
            check_eq(str(d), addr.encode(net, w[0], w[1]), 'string of the address')
        if want is not None:
            t = {'p2pkh': 'pubkeyhash', 'p2sh': 'scripthash', 'p2wpkh': 'witness_v0_keyhash',
                 'p2wsh': 'witness_v0_scripthash', 'p2tr': 'witness_v1_taproot'}[want[0]]
            check_eq(leaf(net, want[0], False).get_scriptPubKey_type(), t, 'script type')
            check(klass('C%sAddress' % NETNAME[net]).match_scriptPubKey_type(t) in (
                leaf(net, want[0], False), leaf(net, want[0], True) if net in ENETS else None),
                'class matching script type %s', t)
    return want is not None, [want[0] if want else 'not an address']


def strat_script():
    @st.composite
    def standard(draw):
        k = draw(st.sampled_from(KINDS))
        return addr.script(k, draw(payload(k)))

    def mut(b, i, x, op):
        i %= len(b)
        return {0: b[:i] + bytes([b[i] ^ x]) + b[i + 1:], 1: b[:i] + b[i + 1:],
                2: b[:i] + bytes([x]) + b[i:], 3: b[:i], 4: b + bytes([x])}[op]
    ver = st.builds(lambda v, n, b: bytes([0x50 + v if v else 0, n]) + (b * 2)[:n], st.integers(0, 16),
                    st.sampled_from([1, 2, 19, 20, 21, 31, 32, 33, 40, 41]), st.binary(min_size=32, max_size=32))
    return st.fixed_dictionaries(dict(net=st.sampled_from(NETS), script=st.one_of(
        standard(), standard(), st.builds(mut, standard(), st.integers(0, 99), st.integers(1, 255),
                                          st.integers(0, 4)),
        ver, st.binary(max_size=45))))


def check_bytes(case):
    net, kind, conf, b = case['net'], case['kind'], case['conf'] and case['net'] in ENETS, case['bytes']
    if case['key']:
        b = (bytes.fromhex(addr_key) + b)
    wv = None
    if kind in BASE58:
        kw = {}
    else:
        wv = case['witver']
        kw = {} if wv is None else dict(witver=wv)
    n = addr.KINDS[kind] + (33 if conf else 0)
    if case['cut'] is not None:
        b = (b + bytes(90))[:max(0, n + case['cut'])]
    want = len(b) == n and wv in (None, 1 if kind == 'p2tr' else 0)
    lb = [kind, 'accepted' if want else 'refused']
    for cls, sel in ((leaf(net, kind, conf), case['sel']), (leaf(net, kind, conf), net), (generic(kind, conf), net)):
        with params(sel):
            try:
                a = cls.from_bytes(FORMS[case['form']](b), **kw)
            except Exception:
                check(not want, '%s refuses content of %d bytes (version %s)', cls.__name__, len(b), wv)
                continue
            check(want, '%s made from %d bytes (version %s): %r', cls.__name__, len(b), wv, a)
            check(type(a) is leaf(net, kind, conf), '%s made a %s', cls.__name__, type(a).__name__)
            check_eq(bytes(a), bytes(b), 'content')
            check_eq(str(a), addr.encode(net, kind, bytes(b[-addr.KINDS[kind]:]), bytes(b[:33]) if conf else None), 'string')
    return True, lb


FORMS = [bytes, bytearray]
addr_key = '0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798'


def strat_bytes():
    return st.fixed_dictionaries(dict(
        net=st.sampled_from(NETS), sel=st.sampled_from(NETS), kind=st.sampled_from(KINDS), conf=st.booleans(),
        key=st.booleans(), bytes=st.binary(max_size=70), form=st.integers(0, 1),
        cut=gen.weighted((4, st.just(0)), (3, st.integers(-2, 2)), (1, st.integers(-70, 34)), (1, st.none())),
        witver=gen.weighted((3, st.none()), (3, st.integers(0, 1)), (1, st.integers(2, 16)))))


PROP = Prop('C12', [
    Sub('cross', check_cross, strat_cross, quick=1200, thorough=30000,
        doc='valid addresses under all six networks and all classes'),
    Sub('corrupt', check_corrupt, strat_corrupt, quick=1600, thorough=60000, doc='edited addresses'),
    Sub('near', check_near, strat_near, quick=1600, thorough=60000,
        doc='correct checksums around wrong prefixes, versions and lengths'),
    Sub('text', check_text, strat_text, quick=1200, thorough=40000, doc='arbitrary text'),
    Sub('bytes', check_bytes, strat_bytes, quick=1600, thorough=60000,
        doc='content of every length, with and without witness version, for every class'),
    Sub('script', check_script, strat_script, quick=2400, thorough=60000,
        doc='scripts into addresses and back'),
], rule='a string (or script) parsed under a selected network by every address class; non-trivial: '
        'all but empty, unchanged and unrecognized ones',
   assumptions=['with Bitcoin parameters selected a base58check string of wrong length is left to python-bitcointx'],
   zkp=False)
_ = gen
