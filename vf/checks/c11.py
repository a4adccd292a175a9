from hypothesis import strategies as st

from ..addrgen import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail, short
from .. import gen
from ..ref import addr
from elementstx.blech32 import Blech32Error, CBlech32Data, UnexpectedBlech32LenghOrVersion
from elementstx import liquid_addr as la
from bitcointx.core import AddressDataEncodingError
from bitcointx.wallet import CCoinAddressError


class Plain(CBlech32Data):
    """Data of any witness version, as a user of the class would declare it."""
    blech32_hrp = 'x'


_CLS = {}


def plain(hrp):
    if hrp not in _CLS:
        _CLS[hrp] = type('Plain_' + hrp, (Plain,), {'blech32_hrp': hrp})
    return _CLS[hrp]


def judge_decode(hrp, s):
    """Every decoder against the model. Returns what the model says."""
    want = addr.seg_dec(hrp, s, 12)
    got = la.decode(hrp, s)
    check_eq(tuple(got), want if want is not None else (None, None), 'decode(%r, %s)' % (hrp, short(s)))
    cls = plain(hrp)
    try:
        d = cls(s)
    except Blech32Error:
        check(want is None, 'CBlech32Data refused %s', short(s))
    else:
        check(want is not None, 'CBlech32Data accepted %s', short(s))
        check_eq((d.blech32_witness_version, bytes(d)), want, 'CBlech32Data of %s' % short(s))
        check_eq(str(d), s.lower(), 'string of CBlech32Data')
        check_eq(d.to_bytes(), want[1], 'to_bytes()')
    for net in ENETS:
        if addr.NETS[net]['blech'] != hrp:
            continue
        w = want and addr.seg_kind(want[0], len(want[1]) - 33)
        for kind in ('p2wpkh', 'p2wsh', 'p2tr'):
            cls = leaf(net, kind, True)
            try:
                d = cls(s)
            except (AddressDataEncodingError, CCoinAddressError) as e:
                check(w != kind, '%s refused %s', cls.__name__, short(s))
                check(isinstance(e, Blech32Error), '%s raised %s', cls.__name__, type(e).__name__)
            else:
                check(w == kind, '%s accepted %s', cls.__name__, short(s))
                check(type(d) is cls, '%s made %s', cls.__name__, type(d).__name__)
                check_eq(bytes(d), want[1], 'content of %s' % cls.__name__)
                check_eq(str(d), s.lower(), 'string of %s' % cls.__name__)
    return want


def check_encode(case):
    hrp, ver, prog = case['hrp'], case['ver'], case['prog']
    s = addr.seg_enc(hrp, ver, prog, 12)
    want = addr.seg_dec(hrp, s, 12)
    got = la.encode(hrp, ver, prog)
    check_eq(got, s if want is not None else None, 'encode(%r, %d, %d bytes)' % (hrp, ver, len(prog)))
    if want is not None:
        check_eq(want, (ver, prog), 'model round trip')
        check_eq(str(plain(hrp).from_bytes(prog, witver=ver)), s, 'string of CBlech32Data from bytes')
    judge_decode(hrp, s)
    judge_decode(hrp, s.upper())
    other = {'el': 'lq', 'lq': 'el'}.get(hrp, 'el')
    check(judge_decode(other, s) is None, 'model accepts another prefix')
    return want is not None, ['version %d' % ver if ver < 2 else 'version 2..16' if ver < 17 else 'version 17..31',
                              'length ok' if want is not None else 'length not allowed']


def hrps():
    return gen.weighted((4, st.sampled_from(['el', 'lq'])),
                        (1, st.sampled_from(['ex', 'tlq', 'a', 'el1', '1', 'x!~', 'b' * 83])))


def strat_encode():
    return st.fixed_dictionaries(dict(
        hrp=hrps(), ver=gen.weighted((4, st.integers(0, 1)), (1, st.integers(0, 31))),
        prog=gen.weighted((3, st.sampled_from([53, 65]).flatmap(lambda n: st.binary(min_size=n, max_size=n))),
                          (1, st.binary(max_size=80)),
                          (1, st.sampled_from([1, 2, 32, 33, 35, 40, 52, 54, 64, 66, 72, 73, 74]).flatmap(
                              lambda n: st.binary(min_size=n, max_size=n))))))


def check_raw(case):
    hrp = case['hrp']
    s = addr.seg_raw(case['prefix'] or hrp, case['values'], 12, case['variant'])
    if case['residue']:
        # a checksum of neither kind
        k, x = case['residue']
        t = list(s)
        t[-1 - k] = addr.CS[addr.CS.index(t[-1 - k]) ^ x]
        s = ''.join(t)
    if case['upper']:
        s = s.upper()
    want = judge_decode(hrp, s)
    return want is not None, ['accepted' if want is not None else 'refused',
                              'bech32m' if case['variant'] else 'bech32']


def strat_raw():
    @st.composite
    def values(draw):
        ver = draw(gen.weighted((4, st.integers(0, 1)), (2, st.integers(0, 31))))
        how = draw(st.sampled_from(['good', 'good', 'pad', 'len', 'free']))
        if how == 'free':
            return draw(st.lists(st.integers(0, 31), max_size=130))
        n = draw(st.sampled_from([53, 65] if how != 'len' else
                                 list(range(0, 6)) + [20, 32, 33, 34, 52, 54, 64, 66, 72, 73, 74, 75, 76]))
        v = addr.to5(draw(st.binary(min_size=n, max_size=n)))
        if how == 'pad':
            if draw(st.booleans()):
                v = v + [draw(st.integers(0, 31))]
            elif v:
                v = v[:-1] + [v[-1] | draw(st.integers(0, 15))]
        return [ver] + v
    return st.fixed_dictionaries(dict(
        hrp=st.sampled_from(['el', 'lq', 'x1y']), prefix=gen.weighted(
            (9, st.none()), (1, st.sampled_from(['el', 'lq', 'e', 'el1', 'Le', 'ert', 'ex']))),
        values=values(), variant=st.integers(0, 1), upper=st.booleans(),
        residue=gen.weighted((5, st.none()), (1, st.tuples(st.integers(0, 11), st.integers(1, 31)).map(list)))))


def check_corrupt(case):
    a = case['a']
    s0 = to_str(a)
    hrp = addr.NETS[a['net']]['blech']
    check(judge_decode(hrp, s0) is not None, 'model refuses a valid address')
    s = corrupt(s0, case['edits'], addr.CS)
    want = judge_decode(hrp, s)
    if s != s0 and want is not None:
        # more than the code guarantees to detect would have to have happened
        check(s.lower() == s0 or len(case['edits']) > 1 or case['edits'][0][0] in ('qbefore', 'upper'),
              'model accepts a corrupted string %s', s)
    for h in ('el', 'lq'):
        judge_decode(h, s)
    return s != s0, sorted({e[0] for e in case['edits']}) + (['still valid'] if want is not None else [])


def strat_corrupt():
    @st.composite
    def seg(draw):
        a = draw(address(ENETS, True))
        if a['kind'] in BASE58:
            k = draw(st.sampled_from(['p2wpkh', 'p2wsh', 'p2tr']))
            a = dict(a, kind=k, payload=draw(payload(k)))
        return a
    return st.fixed_dictionaries(dict(a=seg(), edits=corruption()))


def check_variant(case):
    """The string with the checksum of the other variant."""
    a = case['a']
    hrp = addr.NETS[a['net']]['blech']
    ver = addr.WITVER[a['kind']]
    s = addr.seg_raw(hrp, [ver] + addr.to5(a['blind'] + a['payload']), 12, 1 - (1 if ver else 0))
    check(judge_decode(hrp, s) is None, 'model accepts the other checksum variant')
    # and the program under every other witness version, with both checksums
    for v in range(32):
        for variant in (0, 1):
            judge_decode(hrp, addr.seg_raw(hrp, [v] + addr.to5(a['blind'] + a['payload']), 12, variant))
    return True, [a['kind']]


def strat_variant():
    return strat_corrupt().map(lambda c: dict(a=c['a']))


def check_text(case):
    hrp = case['hrp']
    want = judge_decode(hrp, case['s'])
    return '1' in case['s'], ['accepted'] if want else ['refused']


def strat_text():
    cs = st.text(alphabet=addr.CS, max_size=120)
    return st.fixed_dictionaries(dict(
        hrp=st.sampled_from(['el', 'lq']),
        s=st.one_of(st.text(max_size=30).map(lambda s: s.encode('utf-8', 'replace').decode()),
                    st.text(alphabet=addr.CS + '1BIO0!~ ', max_size=120),
                    cs.map(lambda t: 'el1' + t), cs.map(lambda t: 'LQ1' + t.upper()),
                    cs.map(lambda t: 'el1' + t + 'q' * 900), cs.map(lambda t: 'el' + t))))


def long_cases(tier):
    """Around the length limits of a string."""
    for hrp in ('el', 'lq'):
        for total in (14, 15, 16, 17, 18, 89, 90, 91, 92, 120, 999, 1000, 1001, 1500):
            n = total - len(hrp) - 1 - 12
            if n < 0:
                continue
            for fill in (0, 31):
                for variant in (0, 1):
                    s = addr.seg_raw(hrp, ([1] + [fill] * n)[:n], 12, variant)
                    yield dict(hrp=hrp, s=s)


def subst_cases(tier):
    """Every single substitution, and every adjacent swap, of some strings."""
    n = 1 if tier == 'quick' else 12
    for k in range(n):
        for net in ENETS:
            for kind in ('p2wpkh', 'p2wsh', 'p2tr'):
                a = dict(net=net, kind=kind, payload=bytes((k * 37 + i * 11) % 256 for i in range(addr.KINDS[kind])),
                         blind=bytes([2]) + bytes((k * 91 + i * 7 + 1) % 256 for i in range(32)))
                yield dict(s=to_str(a), hrp=addr.NETS[net]['blech'])


def check_subst(case):
    s, hrp = case['s'], case['hrp']
    check(la.decode(hrp, s) != (None, None), 'refused %s', s)
    n = 0
    for i in range(len(s)):
        for c in addr.CS + '1b!':
            if c == s[i]:
                continue
            t = s[:i] + c + s[i + 1:]
            n += 1
            if tuple(la.decode(hrp, t)) != (None, None):
                fail('%s decodes although it differs in one character from %s', t, s)
        if i + 1 < len(s) and s[i] != s[i + 1]:
            t = s[:i] + s[i + 1] + s[i] + s[i + 2:]
            if tuple(la.decode(hrp, t)) != (None, None):
                fail('%s decodes although it is %s with two characters swapped', t, s)
        t = s[:i] + s[i + 1:]
        if tuple(la.decode(hrp, t)) != (None, None):
            fail('%s decodes although it is %s without a character', t, s)
        if i and tuple(la.decode(hrp, s[:i])) != (None, None):
            fail('%s truncated to %d characters decodes', s, i)
    return True, ['%d substitutions' % n]


_DECL = {}


def declared(hrp):
    """Classes the way a user would declare them: one per (version, length),
    one for any version and one that stands for several others."""
    if hrp not in _DECL:
        fixed = {}
        for ver, n in ((0, 53), (0, 65), (1, 65), (1, 35), (2, 35), (16, 73)):
            fixed[ver, n] = type('Fixed_%d_%d' % (ver, n), (CBlech32Data,), {
                'blech32_hrp': hrp, 'blech32_witness_version': ver, '_data_length': n})

        class Any(CBlech32Data):
            blech32_hrp = hrp

        class Inner(CBlech32Data):
            blech32_hrp = hrp

            @classmethod
            def blech32_get_match_candidates(cls):
                return [fixed[1, 35], fixed[2, 35]]

        class Union(CBlech32Data):
            blech32_hrp = hrp

            @classmethod
            def blech32_get_match_candidates(cls):
                return [fixed[0, 53], Inner, fixed[0, 65]]

        class Unset(CBlech32Data):
            blech32_hrp = None
        _DECL[hrp] = (fixed, Any, Inner, Union, Unset)
    return _DECL[hrp]


def check_classes(case):
    hrp, ver, prog = case['hrp'], case['ver'], case['prog']
    fixed, Any, Inner, Union, Unset = declared(hrp)
    lb = set()

    def content(d, cls, s, what):
        check(type(d) is cls, '%s made %s', what, type(d).__name__)
        check_eq((bytes(d), d.to_bytes(), type(d.to_bytes())), (prog, prog, bytes), what)
        check_eq(d.blech32_witness_version, ver, what + ': witness version')
        check_eq(str(d), s, what + ': string')
        check(s in repr(d), '%s: repr %r', what, d)

    s = addr.seg_enc(hrp, ver, prog, 12) if 0 <= ver <= 31 else None
    valid = s is not None and addr.seg_dec(hrp, s, 12) is not None
    # from the content
    for cls, own in [(c, v) for (v, _), c in sorted(fixed.items())] + [(Any, None), (Union, None), (Any, None)]:
        for given in (ver, None):
            wv = own if given is None else given
            ok = wv is not None and 0 <= wv <= 16 and own in (None, wv)
            what = '%s.from_bytes(%d bytes, %s)' % (cls.__name__, len(prog), given)
            try:
                d = cls.from_bytes(prog) if given is None and case['omit'] else cls.from_bytes(prog, witver=given)
            except ValueError as e:
                check(not ok, '%s refused: %s', what, e)
                lb.add('refused')
                continue
            check(ok, '%s gave %s', what, type(d).__name__)
            if wv == ver and valid:
                content(d, cls, s, what)
            elif wv == ver:
                check_eq((bytes(d), d.blech32_witness_version), (prog, ver), what)
        check_eq(cls.blech32_witness_version, -1 if own is None else own, 'version declared by %s' % cls.__name__)
    try:
        Unset(s or 'x')
    except TypeError:
        pass
    else:
        fail('data of a class without prefix')
    if s is None:
        return True, ['no such version'] + sorted(lb)
    # from the string
    key = (ver, len(prog))
    union = {(0, 53), (0, 65), (1, 35), (2, 35)}
    for cls, want in ([(c, c if k == key else None) for k, c in sorted(fixed.items())] + [
            (Any, Any), (Inner, fixed.get(key) if key in union and ver else None),
            (Union, fixed[key] if key in union else None)]):
        what = '%s(%s)' % (cls.__name__, short(s))
        try:
            d = cls(s)
        except Blech32Error as e:
            check(not valid or want is None, '%s refused: %s', what, e)
            if valid:
                check(isinstance(e, UnexpectedBlech32LenghOrVersion), '%s: %r', what, e)
            lb.add('string refused')
            continue
        check(valid and want is not None, '%s gave %s', what, type(d).__name__)
        content(d, want, s, what)
        lb.add('string accepted by ' + ('another class' if want is not cls else 'the class itself'))
    return True, sorted(lb)


def strat_classes():
    vl = st.one_of(st.sampled_from([(0, 53), (0, 65), (1, 65), (1, 35), (2, 35), (16, 73)]),
                   st.tuples(gen.weighted((4, st.integers(0, 2)), (2, st.integers(-3, 20)), (1, st.sampled_from([-1, 15, 16, 17, 31, 32, 255]))),
                             st.sampled_from([2, 34, 35, 36, 52, 53, 54, 64, 65, 66, 72, 73])))
    return vl.flatmap(lambda k: st.fixed_dictionaries(dict(
        hrp=st.sampled_from(['el', 'lq', 'qq']), ver=st.just(k[0]), prog=st.binary(min_size=k[1], max_size=k[1]),
        omit=st.booleans())))


PROP = Prop('C11', [
    Sub('encode', check_encode, strat_encode, quick=2400, thorough=60000,
        doc='encoder and decoder against the model for all versions and lengths'),
    Sub('raw', check_raw, strat_raw, quick=4000, thorough=150000,
        doc='strings with a correct checksum around arbitrary data, one rule of the format bent'),
    Sub('corrupt', check_corrupt, strat_corrupt, quick=4000, thorough=150000,
        doc='up to four edits of a valid string'),
    Sub('variant', check_variant, strat_variant, quick=64, thorough=1500,
        doc='all witness versions with both checksum variants'),
    Sub('text', check_text, strat_text, quick=2400, thorough=80000, doc='arbitrary text'),
    Sub('long', check_text, cases=long_cases, doc='string lengths around the limits'),
    Sub('classes', check_classes, strat_classes, quick=1200, thorough=30000,
        doc='data classes a user declares: with a fixed version and length, for any version, standing for others'),
    Sub('subst', check_subst, cases=subst_cases,
        doc='all single substitutions, swaps, deletions and truncations of fixed strings'),
], rule='a string, valid or made from a valid one; non-trivial: the format allows it (encode, raw), '
        'it differs from the valid string (corrupt), contains a separator (text)',
   zkp=False)
_ = gen
