import copy

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq, fail
from .. import edits, gen
from ..ref import codec

KINDS = {'tx': 'Transaction', 'in': 'TxIn', 'out': 'TxOut', 'op': 'OutPoint', 'wit': 'TxWitness',
         'inwit': 'TxInWitness', 'outwit': 'TxOutWitness'}


# ---- plain form of each kind ------------------------------------------------

def rd_wit(w):
    return dict(i=[rd_inwit(x) for x in w.vtxinwit], o=[rd_outwit(x) for x in w.vtxoutwit])


def rd_op(o):
    return dict(txid=bytes(o.hash), n=o.n)


READ = {'tx': rd_tx, 'in': rd_in, 'out': rd_out, 'op': rd_op, 'wit': rd_wit, 'inwit': rd_inwit,
        'outwit': rd_outwit}


def plain_in(d):
    d = {k: d[k] for k in ('txid', 'n', 'ss', 'seq', 'pegin', 'iss')}
    if d['iss'] == dict(bn=b'\x00' * 32, ent=b'\x00' * 32, amt=b'', keys=b''):
        d['iss'] = None
    return d


def plain_out(d):
    return {k: d[k] for k in ('asset', 'value', 'nonce', 'spk')}


def plain_tx(d):
    return dict(v=d['v'], lt=d['lt'], vin=[dict(plain_in(i), wit=i['wit']) for i in d['vin']],
                vout=[dict(plain_out(o), wit=o['wit']) for o in d['vout']])


# ---- the invariants of one object -----------------------------------------

def parts(kind, o):
    """(kind, sub-object) pairs, recursively; containers checked on the way."""
    yield kind, o
    seq = []
    if kind == 'tx':
        seq = [(o.vin, 'in'), (o.vout, 'out')]
        yield from parts('wit', o.wit)
    elif kind == 'wit':
        seq = [(o.vtxinwit, 'inwit'), (o.vtxoutwit, 'outwit')]
    elif kind == 'in':
        yield from parts('op', o.prevout)
    for items, k in seq:
        if o.is_mutable():
            check(type(items) is list, 'container of mutable %s is %s', kind, type(items))
        else:
            check(type(items) is tuple, 'container of immutable %s is %s', kind, type(items))
        for x in items:
            yield from parts(k, x)


FIELDS = {'tx': ['nVersion', 'vin', 'vout', 'nLockTime', 'wit'],
          'in': ['prevout', 'scriptSig', 'nSequence', 'assetIssuance', 'is_pegin'],
          'out': ['nValue', 'scriptPubKey', 'nAsset', 'nNonce'], 'op': ['hash', 'n'],
          'wit': ['vtxinwit', 'vtxoutwit'],
          'inwit': ['scriptWitness', 'issuanceAmountRangeproof', 'inflationKeysRangeproof', 'pegin_witness'],
          'outwit': ['surjectionproof', 'rangeproof']}


def shape(kind, o, mutable):
    for k, x in parts(kind, o):
        check_eq(x.__class__, cls(KINDS[k], mutable), 'class of %s inside %s' % (k, kind))


def refuse_assignment(kind, o):
    for k, x in parts(kind, o):
        for f in FIELDS[k]:
            for fn in (lambda: setattr(x, f, getattr(x, f)), lambda: setattr(x, f, None),
                       lambda: delattr(x, f)):
                try:
                    fn()
                except (AttributeError, TypeError):
                    pass
                else:
                    fail('attribute %s of immutable %s was assigned', f, k)
        if k == 'in':
            for f in ('assetBlindingNonce', 'assetEntropy', 'nAmount', 'nInflationKeys'):
                try:
                    setattr(x.assetIssuance, f, getattr(x.assetIssuance, f))
                except (AttributeError, TypeError):
                    pass
                else:
                    fail('attribute %s of an issuance was assigned', f)
        if k == 'out':
            for c in (x.nValue, x.nAsset, x.nNonce):
                try:
                    c.commitment = c.commitment
                except (AttributeError, TypeError):
                    pass
                else:
                    fail('content of a confidential field was assigned')


class Entry:
    def __init__(self, kind, obj, model):
        self.kind, self.obj, self.model = kind, obj, model
        self.mutable = bool(obj.is_mutable())
        self.frozen = None if self.mutable else self.snap()

    def snap(self):
        o = self.obj
        if self.kind == 'tx':
            return (o.serialize(), hash(o), o.GetTxid(), o.GetHash(), repr(o))
        return (o.serialize(), hash(o), repr(o))

    def verify(self, what):
        same(READ[self.kind](self.obj), self.model, '%s of %s %s' % (
            what, 'mutable' if self.mutable else 'immutable', self.kind))
        if not self.mutable:
            check_eq(self.snap(), self.frozen, 'value, hash or id of immutable %s %s' % (self.kind, what))
        if self.kind == 'tx':
            check_eq(self.obj.serialize(), codec.ser_tx(self.model), 'encoding ' + what)


class World:
    def __init__(self):
        self.pool = []
        self.buffers = []
        self.lists = []

    def add(self, kind, obj, model, mutable):
        shape(kind, obj, mutable)
        e = Entry(kind, obj, model)
        e.verify('right after creation')
        self.pool.append(e)
        if len(self.pool) > 14:
            del self.pool[0]
        return e

    def buf(self, b, ba):
        if not ba:
            return b
        x = bytearray(b)
        self.buffers.append(x)
        return x

    def lst(self, items, how):
        if how == 1:
            return tuple(items)
        x = list(items)
        self.lists.append(x)
        return x

    def scribble(self):
        for b in self.buffers:
            for i in range(len(b)):
                b[i] ^= 0x55
            b += b'junk'
        for li in self.lists:
            li[:] = li[1:] + li[:1] * 3
            li.append(None)
        self.buffers = []
        self.lists = []

    def mk(self, kind, d, mut, ba, how):
        c = cls(KINDS[kind], mut)
        B = lambda b: self.buf(b, ba)  # noqa
        if kind == 'op':
            return c(B(d['txid']), d['n'])
        if kind == 'in':
            a = ec.CAssetIssuance()
            if d['iss'] is not None:
                a = ec.CAssetIssuance(Uint256(B(d['iss']['bn'])), Uint256(B(d['iss']['ent'])),
                                      ec.CConfidentialValue(B(d['iss']['amt'])),
                                      ec.CConfidentialValue(B(d['iss']['keys'])))
            return c(cls('OutPoint', how & 1)(B(d['txid']), d['n']),
                     es.CElementsScript(B(d['ss'])), d['seq'], a, d['pegin'])
        if kind == 'out':
            return c(ec.CConfidentialValue(B(d['value'])), es.CElementsScript(B(d['spk'])),
                     ec.CConfidentialAsset(B(d['asset'])), ec.CConfidentialNonce(B(d['nonce'])))
        if kind == 'inwit':
            return c(CScriptWitness(self.lst([B(x) for x in d['sw']], how)), B(d['ar']), B(d['kr']),
                     CScriptWitness(self.lst([B(x) for x in d['pw']], how)))
        if kind == 'outwit':
            return c(B(d['sp']), B(d['rp']))
        if kind == 'wit':
            return c(self.lst([self.mk('inwit', x, how & 1, ba, how) for x in d['i']], how),
                     self.lst([self.mk('outwit', x, how & 1, ba, how) for x in d['o']], how))
        if kind == 'tx':
            w = cls('TxWitness', how & 1)(
                self.lst([self.mk('inwit', i['wit'], how & 1, ba, how) for i in d['vin']], how),
                self.lst([self.mk('outwit', o['wit'], how & 1, ba, how) for o in d['vout']], how))
            return c(self.lst([self.mk('in', i, how & 1, ba, how) for i in d['vin']], how),
                     self.lst([self.mk('out', o, how & 1, ba, how) for o in d['vout']], how),
                     d['lt'], d['v'], w)
        raise env.HarnessError(kind)

    def pick(self, i, kind=None, mutable=None):
        c = [e for e in self.pool if (kind is None or e.kind == kind)
             and (mutable is None or e.mutable == mutable)]
        return c[i % len(c)] if c else None


def plain(kind, d):
    d = copy.deepcopy(d)
    return {'tx': plain_tx, 'in': plain_in, 'out': plain_out}.get(kind, lambda x: x)(d)


def edit_part(e, x):
    """Edit a mutable part (not a whole transaction); updates the model."""
    o, m = e.obj, e.model
    d = x['data']
    f = x['f']
    if e.kind == 'op':
        if f % 2:
            o.hash = d['in']['txid']
            m['txid'] = d['in']['txid']
        else:
            o.n = d['in']['n']
            m['n'] = d['in']['n']
    elif e.kind == 'in':
        i = d['in']
        k = ['prevout', 'hash', 'n', 'ss', 'seq', 'iss', 'pegin'][f % 7]
        if k == 'prevout':
            o.prevout = ec.CElementsMutableOutPoint(i['txid'], i['n'])
            m.update(txid=i['txid'], n=i['n'])
        elif k == 'hash':
            o.prevout.hash = i['txid']
            m['txid'] = i['txid']
        elif k == 'n':
            o.prevout.n = i['n']
            m['n'] = i['n']
        elif k == 'ss':
            o.scriptSig = es.CElementsScript(i['ss'])
            m['ss'] = i['ss']
        elif k == 'seq':
            o.nSequence = i['seq']
            m['seq'] = i['seq']
        elif k == 'iss':
            o.assetIssuance = mk_issuance(i['iss'])
            m['iss'] = plain_in(i)['iss']
        else:
            o.is_pegin = i['pegin']
            m['pegin'] = i['pegin']
    elif e.kind == 'out':
        k = ['value', 'asset', 'nonce', 'spk'][f % 4]
        v = d['out'][k]
        m[k] = v
        if k == 'value':
            o.nValue = ec.CConfidentialValue(v)
        elif k == 'asset':
            o.nAsset = ec.CConfidentialAsset(v)
        elif k == 'nonce':
            o.nNonce = ec.CConfidentialNonce(v)
        else:
            o.scriptPubKey = es.CElementsScript(v)
    elif e.kind == 'inwit':
        k = ['sw', 'pw', 'ar', 'kr'][f % 4]
        v = d['in']['wit'][k]
        m[k] = v
        setattr(o, FIELDS['inwit'][[0, 3, 1, 2][f % 4]], CScriptWitness(v) if f % 4 < 2 else v)
    elif e.kind == 'outwit':
        k = ['sp', 'rp'][f % 2]
        m[k] = d['out']['wit'][k]
        setattr(o, FIELDS['outwit'][f % 2], m[k])
    elif e.kind == 'wit':
        side, li, mk = [('i', o.vtxinwit, mk_inwit), ('o', o.vtxoutwit, mk_outwit)][f & 1]
        w = d['in']['wit'] if side == 'i' else d['out']['wit']
        how = (f >> 1) % 4
        if how == 0 or not li:
            li.append(mk(w, True))
            m[side].append(copy.deepcopy(w))
        elif how == 1:
            del li[0]
            del m[side][0]
        elif how == 2:
            li[-1] = mk(w, True)
            m[side][-1] = copy.deepcopy(w)
        elif side == 'i':
            li[0].issuanceAmountRangeproof = w['ar']
            m['i'][0]['ar'] = w['ar']
        else:
            li[0].rangeproof = w['rp']
            m['o'][0]['rp'] = w['rp']


def check_history(case):
    w = World()
    lb = set()
    with params('elements'):
        for op in case['ops']:
            k = op['op']
            done = run_op(w, op)
            if not done:
                continue
            lb.add(k)
            for e in w.pool:
                e.verify('after ' + k)
        w.scribble()
        for e in w.pool:
            e.verify('after all buffers changed')
    return (len(lb & {'conv', 'edit', 'compose', 'part', 'snapshot of buffer'}) >= 2, lb)


def run_op(w, op):
    k = op['op']
    if k == 'new':
        d = op['data'][{'in': 'in', 'op': 'in', 'inwit': 'in', 'out': 'out', 'outwit': 'out'}.get(op['kind'], 'tx')]
        kind = op['kind']
        if kind == 'inwit' or kind == 'outwit':
            d = d['wit']
        elif kind == 'op':
            d = dict(txid=d['txid'], n=d['n'])
        elif kind == 'wit':
            d = dict(i=[i['wit'] for i in d['vin']], o=[o['wit'] for o in d['vout']])
        o = w.mk(kind, d, op['mut'], op['ba'], op['how'])
        w.add(kind, o, plain(kind, d), op['mut'])
        return True
    if k == 'conv':
        e = w.pick(op['i'])
        if e is None:
            return False
        how = op['how']
        if how == 'mutable':
            mut, o = True, e.obj.to_mutable()
        elif how == 'immutable':
            mut, o = False, e.obj.to_immutable()
        elif how == 'clone':
            mut, o = e.mutable, e.obj.clone()
        else:
            mut = how == 'from_m'
            c = cls(KINDS[e.kind], mut)
            named = {'tx': 'from_tx', 'in': 'from_txin', 'out': 'from_txout', 'op': 'from_outpoint',
                     'wit': 'from_witness', 'inwit': 'from_txin_witness', 'outwit': 'from_txout_witness'}
            o = getattr(c, named[e.kind] if op['i'] & 1 else 'from_instance')(e.obj)
        check(not (mut and o is e.obj), 'conversion to mutable returned the object itself')
        w.add(e.kind, o, copy.deepcopy(e.model), mut)
        return True
    if k == 'compose':
        what = op['what']
        mut = op['mut']
        if what == 'in':
            e = w.pick(op['i'], 'op')
            if e is None:
                return False
            d = dict(plain_in(op['data']['in']), txid=e.model['txid'], n=e.model['n'])
            o = cls('TxIn', mut)(e.obj, es.CElementsScript(d['ss']), d['seq'], mk_issuance(d['iss']), d['pegin'])
        elif what == 'wit':
            ins = [e for e in w.pool if e.kind == 'inwit'][:3]
            outs = [e for e in w.pool if e.kind == 'outwit'][:3]
            d = dict(i=[copy.deepcopy(e.model) for e in ins], o=[copy.deepcopy(e.model) for e in outs])
            o = cls('TxWitness', mut)(w.lst([e.obj for e in ins], op['how']),
                                      w.lst([e.obj for e in outs], op['how']))
        else:
            ins = [e for e in w.pool if e.kind == 'in'][:3]
            outs = [e for e in w.pool if e.kind == 'out'][:3]
            wit = [e for e in w.pool if e.kind == 'wit' and len(e.model['i']) <= len(ins)
                   and len(e.model['o']) <= len(outs)]
            wit = wit[op['i'] % len(wit)] if wit and op['i'] % 3 else None
            d = dict(v=op['data']['tx']['v'], lt=op['data']['tx']['lt'],
                     vin=[copy.deepcopy(e.model) for e in ins], vout=[copy.deepcopy(e.model) for e in outs])
            for n, i in enumerate(d['vin']):
                i['wit'] = copy.deepcopy(wit.model['i'][n]) if wit and n < len(wit.model['i']) \
                    else dict(codec.NULL_INWIT)
            for n, x in enumerate(d['vout']):
                x['wit'] = copy.deepcopy(wit.model['o'][n]) if wit and n < len(wit.model['o']) \
                    else dict(codec.NULL_OUTWIT)
            o = cls('Transaction', mut)(w.lst([e.obj for e in ins], op['how']),
                                        w.lst([e.obj for e in outs], op['how']),
                                        d['lt'], d['v'], wit.obj if wit else None)
        w.add(what, o, plain(what, d), mut)
        return True
    if k == 'part':
        e = w.pick(op['i'])
        if e is None:
            return False
        subs = list(parts(e.kind, e.obj))[1:]
        if not subs:
            return False
        kind, o = subs[op['j'] % len(subs)]
        if e.mutable:
            # a reference into a mutable object is that object: snapshot it
            o = o.to_immutable()
        w.add(kind, o, READ[kind](o), False)
        return True
    if k == 'edit':
        e = w.pick(op['i'], mutable=True)
        if e is None:
            return False
        if e.kind == 'tx':
            m = edits.apply(e.model, e.obj, op['edit'])
            if m is None:
                return False
            e.model = plain_tx(m)
        else:
            edit_part(e, op['x'])
        return True
    if k == 'assign':
        e = w.pick(op['i'], mutable=False)
        if e is None:
            return False
        refuse_assignment(e.kind, e.obj)
        return True
    if k == 'snapshot of buffer':
        # a mutable object may hold a caller's buffer; its snapshot may not
        e = w.pick(op['i'], op['kind'], True)
        if e is None:
            return False
        f, key = {'op': ('hash', 'txid'),
                  'inwit': [('issuanceAmountRangeproof', 'ar'), ('inflationKeysRangeproof', 'kr')][op['j'] & 1],
                  'outwit': [('surjectionproof', 'sp'), ('rangeproof', 'rp')][op['j'] & 1]}[op['kind']]
        val = op['b32'] if op['kind'] == 'op' else op['b32'][:op['j'] + 1]
        b = bytearray(val)
        setattr(e.obj, f, b)
        model = dict(e.model, **{key: bytes(val)})
        a = w.add(e.kind, e.obj.to_immutable(), copy.deepcopy(model), False)
        c = w.add(e.kind, e.obj.to_mutable(), copy.deepcopy(model), True)
        for i in range(len(b)):
            b[i] ^= 0xa5
        a.verify('after the buffer of its origin changed')
        c.verify('after the buffer of its origin changed')
        setattr(e.obj, f, bytes(val))
        e.model = model
        return True
    if k == 'scribble':
        w.scribble()
        return True
    raise env.HarnessError(k)


def ops():
    f = st.fixed_dictionaries
    i = st.integers(0, 12)
    data = f(dict(tx=gen.tx(max_in=2, max_out=2), **{'in': gen.txin(coinbase=False), 'out': gen.txout()}))
    kinds = gen.weighted((4, st.just('tx')), (1, st.sampled_from(sorted(KINDS))))
    return gen.weighted(
        (4, f(dict(op=st.just('new'), kind=kinds, mut=st.booleans(), ba=st.booleans(),
                   how=st.integers(0, 3), data=data))),
        (6, f(dict(op=st.just('conv'), i=i,
                   how=st.sampled_from(['mutable', 'immutable', 'clone', 'from_m', 'from_i'])))),
        (2, f(dict(op=st.just('compose'), what=st.sampled_from(['tx', 'in', 'wit']), mut=st.booleans(), i=i,
                   how=st.integers(0, 3), data=data))),
        (3, f(dict(op=st.just('part'), i=i, j=st.integers(0, 20)))),
        (6, f(dict(op=st.just('edit'), i=i, edit=edits.strategy(),
                   x=f(dict(f=st.integers(0, 27), data=data))))),
        (1, f(dict(op=st.just('assign'), i=i))),
        (1, f(dict(op=st.just('snapshot of buffer'), i=i, kind=st.sampled_from(['op', 'inwit', 'outwit']),
                   j=st.integers(0, 9), b32=gen.b32()))),
        (1, f(dict(op=st.just('scribble')))))


def strat():
    return st.fixed_dictionaries(dict(ops=st.lists(ops(), min_size=3, max_size=16)))


def focused(kind):
    """A short directed history: make, convert, edit one side, look at both."""
    f = st.fixed_dictionaries
    i = st.integers(0, 5)
    data = f(dict(tx=gen.tx(max_in=2, max_out=2), **{'in': gen.txin(coinbase=False), 'out': gen.txout()}))
    new = f(dict(op=st.just('new'), kind=st.just(kind), mut=st.booleans(), ba=st.booleans(),
                 how=st.integers(0, 3), data=data))
    conv = f(dict(op=st.just('conv'), i=i,
                  how=st.sampled_from(['mutable', 'immutable', 'clone', 'from_m', 'from_i'])))
    edit = f(dict(op=st.just('edit'), i=i, edit=edits.strategy(), x=f(dict(f=st.integers(0, 27), data=data))))
    snap = f(dict(op=st.just('snapshot of buffer'), i=i, kind=st.just(kind if kind in ('op', 'inwit') else 'outwit'),
                  j=st.integers(0, 9), b32=gen.b32()))
    part = f(dict(op=st.just('part'), i=i, j=st.integers(0, 20)))
    return st.builds(lambda a, b, c, d, e: dict(ops=[a, b] + c + [d] + e),
                     new, conv, st.lists(st.one_of(edit, snap, part, conv), min_size=1, max_size=4), conv,
                     st.lists(edit, max_size=3))


def strat_focused():
    return st.one_of(*[focused(k) for k in sorted(KINDS)])


PROP = Prop('C05', [
    Sub('history', check_history, strat, quick=1600, thorough=80000,
        doc='histories over a pool of transactions and parts; after every step every object in the '
            'pool still has its modelled value and immutable ones their bytes, hash and ids'),
    Sub('focused', check_history, strat_focused, quick=2400, thorough=80000,
        doc='short histories: make one object, convert, edit'),
], rule='sequences of new/convert/clone/compose/take part/edit/assign/change buffers; non-trivial: at '
        'least two kinds of conversion, composition, part or edit steps took effect', zkp=False)
