from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import gen, sigedit, sighist
from ..ref import codec, sighash as ref
from bitcointx.core.script import SIGHASH_Type, SIGVERSION_WITNESS_V0
from .c06 import VALID, hashtypes, scripts


def call(script, t, idx, ht, amount):
    return es.CElementsScript(script).raw_sighash(
        t, idx, ht, amount=ec.CConfidentialValue(amount), sigversion=SIGVERSION_WITNESS_V0)


def check_digest(case):
    tx, script, ht = case['tx'], case['script'], case['ht']
    idx = case['idx'] % len(tx['vin'])
    want = ref.segwit_v0(tx, idx, script, ht, case['amount'])
    with params(case['params']):
        for mutable in (False, True):
            for wit in ('full', 'none'):
                t = mk_tx(tx, mutable, wit)
                before = t.serialize()
                got, err = call(script, t, idx, ht, case['amount'])
                check_eq(got, want, 'version 0 digest (mutable=%s, witness %s)' % (mutable, wit))
                check_eq(err, None, 'error indication')
                check_eq(t.serialize(), before, 'transaction after the call')
                amount = ec.CConfidentialValue(case['amount'])
                if ht in VALID:
                    check_eq(es.CElementsScript(script).sighash(
                        t, idx, SIGHASH_Type(ht), amount=amount, sigversion=SIGVERSION_WITNESS_V0),
                        want, 'sighash()')
                else:
                    try:
                        es.CElementsScript(script).sighash(
                            t, idx, ht, amount=amount, sigversion=SIGVERSION_WITNESS_V0)
                    except ValueError:
                        pass
                    else:
                        fail('sighash() accepts hash type %d', ht)
        for bad in (None, 1, case['amount']):
            try:
                es.CElementsScript(script).raw_sighash(t, idx, ht, amount=bad,
                                                       sigversion=SIGVERSION_WITNESS_V0)
            except TypeError:
                pass
            else:
                fail('amount %s accepted', short(bad))
    lb = ['ht %s' % ({1: 'ALL', 2: 'NONE', 3: 'SINGLE'}.get(ht & 0x1f, 'other') + ('|ACP' if ht & 0x80 else ''))]
    if tx['lt'] >= 2 ** 31:
        lb.append('high lock time')
    if any(i['iss'] for i in tx['vin']):
        lb.append('issuance')
    if ht & 0x1f == 3:
        lb.append('SINGLE out of range' if idx >= len(tx['vout']) else 'SINGLE in range')
    lb.append('committed amount' if len(case['amount']) == 33 else 'explicit amount')
    return (True, lb)


def strat():
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=4, max_out=4), script=st.one_of(scripts(), gen.maybe_long()),
        ht=hashtypes(), idx=gen.pos(), amount=gen.value_field(null=False),
        params=st.sampled_from(PARAMS)))


def check_cover(case):
    tx, ht = case['tx'], case['ht']
    idx = case['idx'] % len(tx['vin'])
    e = case['edit']
    script = case['script']
    spent = (case['spent'] * len(tx['vin']))[:len(tx['vin'])]
    amount = spent[idx]['value']
    if not amount:
        return (False, ['null amount'])
    with params(case['params']):
        a, _ = call(script, mk_tx(tx), idx, ht, amount)
        if e['where'] == 'script':
            b, _ = call(sigedit._bytes(script, e['seed']), mk_tx(tx), idx, ht, amount)
            check(a != b, 'digest does not depend on the script code')
            return (True, ['covered', 'script'])
        if e['where'] == 'ht':
            ht2 = (ht ^ (e['seed'][0] or 1)) & 0xff
            b, _ = call(script, mk_tx(tx), idx, ht2, amount)
            check(a != b, 'digest does not depend on the hash type')
            return (True, ['covered', 'hash type'])
        r = sigedit.apply(tx, spent, e)
        if r is None:
            return (False, ['nothing to edit'])
        tx2, spent2, k = r
        amount2 = spent2[idx]['value']
        if not amount2:
            return (False, ['null amount'])
        amount = spent[idx]['value']
        a, _ = call(script, mk_tx(tx), idx, ht, amount)
        b, _ = call(script, mk_tx(tx2), idx, ht, amount2)
    cov = ref.covers('v0', tx, idx, ht, e['where'], e['field'], k)
    if ht & 0x1f == 3 and idx >= len(tx['vout']) and e['where'] == 'out':
        cov = False
    check_eq(a != b, cov, 'digest changes when %s.%s[%s] changes (hash type %d, input %d)'
             % (e['where'], e['field'], k, ht, idx))
    return (True, ['covered' if cov else 'not covered', '%s.%s' % (e['where'], e['field'])])


def strat_cover():
    extra = st.fixed_dictionaries(dict(where=st.sampled_from(['script', 'ht']),
                                       seed=st.binary(min_size=4, max_size=4)))
    return st.fixed_dictionaries(dict(
        tx=gen.tx(min_in=1, max_in=3, max_out=3), ht=st.sampled_from(VALID), idx=gen.pos(),
        script=gen.sized_bytes(), spent=st.lists(gen.txout(), min_size=3, max_size=3),
        edit=gen.weighted((6, sigedit.strategy()), (1, extra)), params=st.sampled_from(PARAMS)))


def check_huge(case):
    return check_digest(dict(case, tx=gen.build_huge(case['huge'])))


def strat_huge():
    return st.fixed_dictionaries(dict(
        huge=gen.huge(), script=scripts(), ht=hashtypes(), amount=gen.value_field(null=False),
        idx=gen.huge_index(), params=st.sampled_from(PARAMS)))


PROP = Prop('C07', [
    Sub('digest', check_digest, strat, quick=2400, thorough=100000,
        doc='raw_sighash/sighash against the independent version-0 digest'),
    Sub('cover', check_cover, strat_cover, quick=3200, thorough=100000,
        doc='one field of the transaction, spent output, script or hash type changed: the digest '
            'changes exactly if it is covered'),
    Sub('huge', check_huge, strat_huge, quick=24, thorough=1500,
        doc='the same for transactions with hundreds of inputs or outputs, late ones signed'),
    Sub('history', sighist.check_history, lambda: sighist.strategy(('v0',)), quick=600, thorough=20000,
        doc='transactions and spent outputs edited in place: after every edit the digests are those of the current state'),
], rule='transaction, input, script code, hash type (also undefined ones), amount, selected '
        'parameters; non-trivial: for "cover" an applicable edit', zkp=False)
_ = codec
