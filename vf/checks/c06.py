from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen, sigedit, sighist
from ..ref import codec, sighash as ref
from bitcointx.core.script import CScriptInvalidError, SIGHASH_Type
import bitcointx.core.script as bs


def is_witness_program(s):
    return (4 <= len(s) <= 42 and (s[0] == 0 or 0x51 <= s[0] <= 0x60) and s[1] + 2 == len(s))


def scripts():
    op = st.one_of(
        st.just(b'\xab'), st.just(b'\xac'),
        st.sampled_from([bytes([x]) for x in (0x00, 0x51, 0x60, 0x61, 0x6a, 0x76, 0xa9, 0x87, 0x88, 0xae, 0xc0, 0xff)]),
        st.builds(lambda d: bytes([len(d)]) + d, st.binary(max_size=20)),
        # data that looks like a code separator
        st.just(b'\x02\xab\xab'), st.just(b'\x4c\x02\xab\xac'), st.just(b'\x4d\x01\x00\xab'),
        st.just(b'\x4e\x01\x00\x00\x00\xab'))
    good = st.lists(op, max_size=8).map(b''.join)
    tail = st.sampled_from([b'\x4c', b'\x4d\x00', b'\x4e\x00\x00\x00', b'\x05abc', b'\x4c\x05ab', b'\x01'])
    return gen.weighted((6, good), (1, st.builds(lambda a, b: a + b, good, tail)),
                        (1, gen.sized_bytes()),
                        (1, st.builds(lambda v, d: bytes([v, len(d)]) + d,
                                      st.sampled_from([0, 0x51, 0x52, 0x60]), st.binary(min_size=2, max_size=40))))


def hashtypes():
    return gen.weighted((5, st.sampled_from([1, 2, 3, 0x81, 0x82, 0x83])), (2, st.integers(0, 255)),
                        (1, st.integers(-2 ** 31, 2 ** 31 - 1)))


VALID = (1, 2, 3, 0x81, 0x82, 0x83)


def call(script, t, idx, ht, amount):
    return es.CElementsScript(script).raw_sighash(t, idx, ht, amount=amount)


def check_digest(case):
    tx, script, ht = case['tx'], case['script'], case['ht']
    idx = case['idx'] % (len(tx['vin']) + 1) if case['oob'] else case['idx'] % max(1, len(tx['vin']))
    amount = None if case['amount'] is None else ec.CConfidentialValue(case['amount'])
    try:
        ref.script_ops(script)
        want, err = ref.legacy(tx, idx, script, ht)
    except ref.RefError:
        want = None
    with params(case['params']):
        for mutable in (False, True):
            for wit in ('full', 'none'):
                t = mk_tx(tx, mutable, wit)
                before = t.serialize()
                if is_witness_program(script):
                    for fn in (lambda: call(script, t, idx, ht, amount),):
                        try:
                            fn()
                        except ValueError:
                            pass
                        else:
                            fail('legacy digest for a witness program')
                    continue
                if want is None:
                    try:
                        _, e = call(script, t, idx, ht, amount)
                    except (CScriptInvalidError, ValueError):
                        continue
                    if not e:
                        fail('digest for a malformed script')
                    continue
                got, gerr = call(script, t, idx, ht, amount)
                check_eq(got, want, 'legacy digest (mutable=%s, witness %s)' % (mutable, wit))
                check_eq(gerr is not None, err, 'error indication')
                check_eq(t.serialize(), before, 'transaction after the call')
                got2, e2 = es.RawElementsSignatureHash(es.CElementsScript(script), t, idx, ht, amount)
                check_eq((got2, e2), (got, gerr), 'digest by the module function')
                if ht in VALID:
                    try:
                        h = es.CElementsScript(script).sighash(t, idx, SIGHASH_Type(ht), amount=amount)
                    except ValueError:
                        check(err, 'sighash() refuses a valid request')
                    else:
                        check(not err, 'sighash() accepts an impossible request')
                        check_eq(h, want, 'sighash()')
                else:
                    try:
                        es.CElementsScript(script).sighash(t, idx, ht, amount=amount)
                    except ValueError:
                        pass
                    else:
                        fail('sighash() accepts hash type %d', ht)
        for v in case.get('sigversion', ()):
            for fn in (es.CElementsScript(script).raw_sighash, es.CElementsScript(script).sighash):
                try:
                    r = fn(t, idx, SIGHASH_Type(1), amount=amount, sigversion=v)
                except ValueError:
                    continue
                fail('digest %r for signature version %r', r, v)
    lb = ['ht %s' % ({1: 'ALL', 2: 'NONE', 3: 'SINGLE'}.get(ht & 0x1f, 'other') + ('|ACP' if ht & 0x80 else ''))]
    if want is None:
        lb.append('malformed script')
    elif not is_witness_program(script):
        lb.append('error result' if err else 'digest')
        if b'\xab' in script:
            lb.append('codeseparator byte')
        if any(i['iss'] for i in tx['vin']):
            lb.append('issuance')
    return (bool(tx['vin']), lb)


def strat():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=0, max_in=4, max_out=4), script=scripts(), ht=hashtypes(),
        idx=gen.pos(), oob=gen.weighted((6, st.just(False)), (1, st.just(True))),
        amount=st.one_of(st.none(), gen.value_field()),
        # neither legacy nor version 0
        sigversion=st.lists(gen.weighted((3, st.sampled_from([2, 3])), (1, st.sampled_from([-1, 4, 1000, None, 'x']))),
                            max_size=1),
        params=st.sampled_from(PARAMS)))


def check_cover(case):
    tx, ht = case['tx'], case['ht']
    script = b'\x76\xa9\x14' + b'\x11' * 20 + b'\x88\xac'
    idx = case['idx'] % len(tx['vin'])
    spent = case['spent']
    e = case['edit']
    r = sigedit.apply(tx, spent, e)
    if r is None:
        return (False, ['nothing to edit'])
    tx2, _, k = r
    with params(case['params']):
        a, erra = call(script, mk_tx(tx), idx, ht, None)
        b, errb = call(script, mk_tx(tx2), idx, ht, None)
    if erra or errb:
        check(erra and errb, 'error result appears by an edit of %s', e['where'])
        return (False, ['error result'])
    cov = ref.covers('legacy', tx, idx, ht, e['where'], e['field'], k)
    check_eq(a != b, cov, 'digest changes when %s.%s[%s] changes (hash type %d, input %d)'
             % (e['where'], e['field'], k, ht, idx))
    return (True, ['covered' if cov else 'not covered', '%s.%s' % (e['where'], e['field'])])


def strat_cover():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=3, max_out=3), ht=st.sampled_from(VALID), idx=gen.pos(),
        spent=st.just([]), edit=sigedit.strategy(spent=False), params=st.sampled_from(PARAMS)))


def check_huge(case):
    return check_digest(dict(case, tx=gen.build_huge(case['huge'])))


def strat_huge():
    return st.fixed_dictionaries(dict(
        huge=gen.huge(), script=scripts(), ht=hashtypes(), oob=st.just(False), amount=st.just(None),
        idx=gen.huge_index(), params=st.sampled_from(PARAMS)))


PROP = Prop('C06', [
    Sub('digest', check_digest, strat, quick=2400, thorough=100000,
        doc='raw_sighash/sighash against the independent digest, five chain parameters'),
    Sub('cover', check_cover, strat_cover, quick=2400, thorough=80000,
        doc='one field changed: the digest changes exactly if the hash type covers it'),
    Sub('huge', check_huge, strat_huge, quick=24, thorough=1500,
        doc='the same for transactions with hundreds of inputs or outputs, late ones signed'),
    Sub('history', sighist.check_history, lambda: sighist.strategy(('legacy',)), quick=600, thorough=20000,
        doc='transactions and spent outputs edited in place: after every edit the digests are those of the current state'),
], rule='transaction, input, script, hash type (also undefined ones), selected parameters; '
        'non-trivial: at least one input, and for "cover" an applicable edit', zkp=False)
_ = (codec, bs)
