"""Edits applied at the same time to a plain transaction (the model) and to a
mutable transaction object."""
import copy

from hypothesis import strategies as st

from . import gen
from .build import *  # noqa
from .ref import codec


def strategy():
    k = gen.pos()
    f = st.fixed_dictionaries
    return gen.weighted(
        (1, f(dict(op=st.just('v'), x=gen.i32()))),
        (1, f(dict(op=st.just('lt'), x=gen.u32()))),
        (1, f(dict(op=st.just('in.prevout'), k=k, txid=gen.b32(), n=gen.out_index()))),
        (1, f(dict(op=st.just('in.prevout.n'), k=k, n=gen.out_index()))),
        (1, f(dict(op=st.just('in.prevout.hash'), k=k, x=gen.b32()))),
        (1, f(dict(op=st.just('in.ss'), k=k, x=st.binary(max_size=5)))),
        (1, f(dict(op=st.just('in.seq'), k=k, x=gen.u32()))),
        (1, f(dict(op=st.just('in.iss'), k=k, x=st.one_of(st.none(), gen.issuance())))),
        (1, f(dict(op=st.just('in.pegin'), k=k, x=st.booleans()))),
        (1, f(dict(op=st.just('out.asset'), k=k, x=gen.asset_field()))),
        (1, f(dict(op=st.just('out.value'), k=k, x=gen.value_field()))),
        (1, f(dict(op=st.just('out.nonce'), k=k, x=gen.nonce_field()))),
        (1, f(dict(op=st.just('out.spk'), k=k, x=st.binary(max_size=5)))),
        (1, f(dict(op=st.just('wit.in'), k=k, x=gen.inwit()))),
        (2, f(dict(op=st.just('wit.in.field'), k=k, field=st.sampled_from(['ar', 'kr']),
                   x=st.binary(max_size=3)))),
        (2, f(dict(op=st.just('wit.in.stack'), k=k, field=st.sampled_from(['sw', 'pw']),
                   x=gen.stack(2, st.binary(max_size=3))))),
        (2, f(dict(op=st.just('wit.out'), k=k, x=gen.outwit()))),
        (2, f(dict(op=st.just('wit.out.field'), k=k, field=st.sampled_from(['sp', 'rp']),
                   x=st.binary(max_size=3)))),
        (1, f(dict(op=st.just('in.add'), k=k, x=gen.txin(coinbase=False)))),
        (1, f(dict(op=st.just('in.del'), k=k))),
        (1, f(dict(op=st.just('out.add'), k=k, x=gen.txout()))),
        (1, f(dict(op=st.just('out.del'), k=k))),
        (1, f(dict(op=st.just('wit.drop')))),
    )


WITNESS_OPS = ('wit.in', 'wit.in.field', 'wit.in.stack', 'wit.out', 'wit.out.field', 'wit.drop')


def pad(t):
    """Give a mutable transaction a witness record for every input/output."""
    while len(t.wit.vtxinwit) < len(t.vin):
        t.wit.vtxinwit.append(ec.CElementsMutableTxInWitness())
    while len(t.wit.vtxoutwit) < len(t.vout):
        t.wit.vtxoutwit.append(ec.CElementsMutableTxOutWitness())


def apply(model, t, op):
    """Returns the new model; edits t in place. (None if not applicable)"""
    m = copy.deepcopy(model)
    o = op['op']
    vin, vout = m['vin'], m['vout']
    target = vin if '.in' in '.' + o else vout
    if 'k' in op and not o.endswith('.add'):
        if not target:
            return None
        k = op['k'] % len(target)
    if o == 'v':
        m['v'] = t.nVersion = op['x']
    elif o == 'lt':
        m['lt'] = t.nLockTime = op['x']
    elif o == 'in.prevout':
        t.vin[k].prevout = ec.CElementsMutableOutPoint(op['txid'], op['n'])
        vin[k].update(txid=op['txid'], n=op['n'])
    elif o == 'in.prevout.n':
        t.vin[k].prevout.n = op['n']
        vin[k]['n'] = op['n']
    elif o == 'in.prevout.hash':
        t.vin[k].prevout.hash = op['x']
        vin[k]['txid'] = op['x']
    elif o == 'in.ss':
        t.vin[k].scriptSig = es.CElementsScript(op['x'])
        vin[k]['ss'] = op['x']
    elif o == 'in.seq':
        t.vin[k].nSequence = op['x']
        vin[k]['seq'] = op['x']
    elif o == 'in.iss':
        if vin[k]['n'] == 0xffffffff:
            return None
        t.vin[k].assetIssuance = mk_issuance(op['x'])
        vin[k]['iss'] = op['x']
    elif o == 'in.pegin':
        if vin[k]['n'] == 0xffffffff:
            return None
        t.vin[k].is_pegin = op['x']
        vin[k]['pegin'] = op['x']
    elif o == 'out.asset':
        t.vout[k].nAsset = ec.CConfidentialAsset(op['x'])
        vout[k]['asset'] = op['x']
    elif o == 'out.value':
        t.vout[k].nValue = ec.CConfidentialValue(op['x'])
        vout[k]['value'] = op['x']
    elif o == 'out.nonce':
        t.vout[k].nNonce = ec.CConfidentialNonce(op['x'])
        vout[k]['nonce'] = op['x']
    elif o == 'out.spk':
        t.vout[k].scriptPubKey = es.CElementsScript(op['x'])
        vout[k]['spk'] = op['x']
    elif o == 'wit.in':
        pad(t)
        t.wit.vtxinwit[k] = mk_inwit(op['x'], True)
        vin[k]['wit'] = op['x']
    elif o == 'wit.in.field':
        pad(t)
        setattr(t.wit.vtxinwit[k], {'ar': 'issuanceAmountRangeproof',
                                    'kr': 'inflationKeysRangeproof'}[op['field']], op['x'])
        vin[k]['wit'] = dict(vin[k]['wit'], **{op['field']: op['x']})
    elif o == 'wit.in.stack':
        pad(t)
        setattr(t.wit.vtxinwit[k], {'sw': 'scriptWitness', 'pw': 'pegin_witness'}[op['field']],
                CScriptWitness(op['x']))
        vin[k]['wit'] = dict(vin[k]['wit'], **{op['field']: op['x']})
    elif o == 'wit.out':
        pad(t)
        t.wit.vtxoutwit[k] = mk_outwit(op['x'], True)
        vout[k]['wit'] = op['x']
    elif o == 'wit.out.field':
        pad(t)
        setattr(t.wit.vtxoutwit[k], {'sp': 'surjectionproof', 'rp': 'rangeproof'}[op['field']],
                op['x'])
        vout[k]['wit'] = dict(vout[k]['wit'], **{op['field']: op['x']})
    elif o == 'in.add':
        pad(t)
        d = op['x']
        at = op['k'] % (len(vin) + 1)
        t.vin.insert(at, mk_in(d, True))
        t.wit.vtxinwit.insert(at, mk_inwit(d['wit'], True))
        vin.insert(at, copy.deepcopy(d))
    elif o == 'in.del':
        pad(t)
        del t.vin[k]
        del t.wit.vtxinwit[k]
        del vin[k]
    elif o == 'out.add':
        pad(t)
        d = op['x']
        at = op['k'] % (len(vout) + 1)
        t.vout.insert(at, mk_out(d, True))
        t.wit.vtxoutwit.insert(at, mk_outwit(d['wit'], True))
        vout.insert(at, copy.deepcopy(d))
    elif o == 'out.del':
        pad(t)
        del t.vout[k]
        del t.wit.vtxoutwit[k]
        del vout[k]
    elif o == 'wit.drop':
        t.wit = ec.CElementsMutableTxWitness()
        for i in vin:
            i['wit'] = dict(codec.NULL_INWIT)
        for x in vout:
            x['wit'] = dict(codec.NULL_OUTWIT)
    else:
        raise env.HarnessError('unknown edit %r' % o)
    return m
