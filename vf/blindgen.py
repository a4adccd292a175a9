"""Blinding requests: plain cases, the request they stand for, and what it means."""
import copy
import hashlib

from hypothesis import strategies as st

from . import addrgen, gen, zkp
from .build import *  # noqa
from .ref import codec, curve, sha

from bitcointx.core.key import CKey, CPubKey  # noqa: E402

N = curve.N
Z32 = b'\x00' * 32
NOWIT = {'ar': b'', 'kr': b'', 'sw': [], 'pw': []}


def asset_ids(i):
    """(asset id, token id, confidential token id) of an issuance of an input in plain form"""
    iss = i['iss']
    if iss['bn'] == Z32:
        e = sha.midstate(codec.dsha(codec.ser_outpoint(i['txid'], i['n'])) + iss['ent'])
    else:
        e = iss['ent']
    return [sha.midstate(e + bytes([k]) + bytes(31)) for k in (0, 1, 2)]


class Stream:
    """Random source: reproducible, remembers what it gave."""

    def __init__(self, seed):
        self.seed = seed
        self.given = []

    def __call__(self, n):
        out = b''
        k = 0
        while len(out) < n:
            out += hashlib.sha256(self.seed + len(self.given).to_bytes(4, 'big') + bytes([k])).digest()
            k += 1
        self.given.append(out[:n])
        return out[:n]


def explicit_value(v):
    return b'\x01' + v.to_bytes(8, 'big')


class Req:
    """A blinding request made from a case."""

    def __init__(self, case):
        self.case = case
        m = case['seed'][0]
        self.one_recipient, self.shared, self.one_key, self.explicit_none = m & 3 == 3, m & 12 == 12, m & 48 == 48, m & 64
        assets = case['assets']
        self.vin = []
        self.known = []       # (asset, amount, bf, abf) of every spent output
        self.akeys = []
        self.tkeys = []
        pot = {}
        order = []

        def put(a, v):
            if a not in pot:
                pot[a] = 0
                order.append(a)
            pot[a] += v
        self.targets = []     # surjection targets, in transaction order: (asset id, blinding factor)
        for k, c in enumerate(case['ins']):
            a = assets[c['a'] % len(assets)]
            self.known.append((a, c['amt'], c['bf'], c['abf']))
            put(a, c['amt'])
            self.targets.append((a, c['abf']))
            i = dict(txid=hashlib.sha256(bytes([k]) + case['seed']).digest(), n=c['n'], ss=c['ss'], seq=c['seq'],
                     pegin=False, iss=None, wit=copy.deepcopy(c['wit']))
            ak = tk = None
            s = c['iss']
            if s is not None:
                re = s['bn'] != Z32
                amt, keys = s['amt'], None if re else s['keys']
                if amt is None and keys is None:
                    amt = 1000
                i['iss'] = dict(bn=s['bn'], ent=s['ent'], amt=b'' if amt is None else explicit_value(amt),
                                keys=b'' if keys is None else explicit_value(keys))
                ids = asset_ids(i)
                if s['key'] and amt is not None and s.get('only') != 'keys':
                    ak = s['asec']
                if s['key'] and keys is not None and s.get('only', 'amt' if amt is None else None) != 'amt':
                    tk = s['tsec']
                if amt is not None:
                    put(ids[0], amt)
                    self.targets.append((ids[0], Z32))
                if keys is not None:
                    # the token id depends on whether the asset amount is committed
                    t = ids[2] if ak else ids[1]
                    put(t, keys)
                    self.targets.append((t, Z32))
            self.vin.append(i)
            self.akeys.append(ak)
            self.tkeys.append(tk)
        self.outs = []        # dict(asset, amt, spk, sec or None, nonce)
        for o in case['outs']:
            self.outs.append(dict(o, asset=order[o['a'] % len(order)]))
        for a in order:
            mine = [o for o in self.outs if o['asset'] == a and not o['zero']]
            left = pot[a]
            while len(mine) > left:
                # not enough for all of them
                mine.pop()['zero'] = True
            if not mine:
                if left:
                    self.outs.insert(case['at'] % (len(self.outs) + 1), dict(
                        asset=a, amt=left, spk=(b'' if case['fee'] else b'\x51'), blind=False, zero=False, nonce=b'',
                        sec=None))
                continue
            total = sum(o['w'] for o in mine)
            for n, o in enumerate(mine):
                if n == len(mine) - 1:
                    o['amt'] = left
                else:
                    o['amt'] = max(1, min(left - (len(mine) - 1 - n), pot[a] * o['w'] // total))
                left -= o['amt']
        for o in self.outs:
            if o['zero']:
                o['amt'] = 0
                o['spk'] = b'\x6a' + o['spk']
            if o['blind'] and not o['spk']:
                o['spk'] = b'\x51'
        if case['unbal'] and self.outs:
            o = self.outs[case['unbal'] % len(self.outs)]
            o['amt'] += 1
        for f in case['foreign']:
            self.outs.insert(f['at'] % (len(self.outs) + 1), dict(
                asset=bytes(32), amt=0, spk=f['out']['spk'], blind=False, sec=None, foreign=f['out']))
        self.vout = [copy.deepcopy(o['foreign']) if o.get('foreign') else dict(asset=b'\x01' + o['asset'], value=explicit_value(o['amt']), nonce=o['nonce'],
                          spk=o['spk'], wit=dict(sp=b'', rp=b'')) for o in self.outs]
        self.secs = [o['sec'] if o['blind'] else None for o in self.outs]
        some = [s for s in self.secs if s is not None]
        if self.one_recipient and some:
            # all for the same recipient
            self.secs = [None if s is None else some[0] for s in self.secs]
            self.outs = [o if s is None else dict(o, sec=s) for o, s in zip(self.outs, self.secs)]
        some = [k for k in self.akeys + self.tkeys if k is not None]
        if self.one_key and some:
            self.akeys = [k and some[0] for k in self.akeys]
            self.tkeys = [k and some[0] for k in self.tkeys]
        self.pubs = []
        for o, s in zip(self.outs, self.secs):
            if s is None:
                self.pubs.append(b'')
            elif o.get('unc'):
                p = curve.mul(int.from_bytes(s, 'big'))
                self.pubs.append(b'\x04' + p[0].to_bytes(32, 'big') + p[1].to_bytes(32, 'big'))
            else:
                self.pubs.append(curve.pub(s))
        self.tx = dict(v=case['v'], lt=case['lt'], vin=self.vin, vout=self.vout)
        self.tok = [2 if k is not None else 1 for k in self.akeys]   # which id the tokens have, by input
        self.n_iss = sum(k is not None for k in self.akeys + self.tkeys)
        self.n_out = sum(s is not None for s in self.secs)
        self.blinded_in = sum(bf != Z32 or abf != Z32 for _, _, bf, abf in self.known)
        self.todo = self.n_iss + self.n_out

    # ---- what should happen --------------------------------------------------

    def last(self):
        return max(k for k, s in enumerate(self.secs) if s is not None)

    def can(self):
        """Success is due (in strict mode)."""
        if not self.todo:
            return True
        if not self.n_out:
            return False
        if self.todo == 1 and not self.blinded_in:
            return False
        return True

    def ct(self):
        exp, bits = self.case['exp'], self.case['bits']
        return 0 if exp is None else exp, 52 if bits is None else bits

    def range_of(self, amount, spk):
        exp, bits = self.ct()
        unspendable = not spk or spk[0] == 0x6a or len(spk) > 10000
        return zkp.rp_params(amount, 0 if unspendable else 1, exp, bits)

    def vanishes(self):
        """The only thing to blind is a zero, and the spent factors add up to nothing: the only factor that balances it
        is zero, and the documented special case is to leave the output as it is and to count it as done."""
        if self.todo != 1 or not self.n_out or not self.blinded_in:
            return False
        return self.outs[self.last()]['amt'] == 0 and not spent_sum(self.known)

    def provable(self):
        """All range proofs have room for the asset (and there is something to prove)."""
        if self.vanishes():
            return False
        for o, s in zip(self.outs, self.secs):
            if s is not None and self.range_of(o['amt'], o['spk']) is None:
                return False
        for i, ak, tk in zip(self.vin, self.akeys, self.tkeys):
            for k, f in ((ak, 'amt'), (tk, 'keys')):
                if k is not None and self.range_of(int.from_bytes(i['iss'][f][1:], 'big'), b'') is None:
                    return False
        return True

    # ---- the request itself --------------------------------------------------

    def wit(self):
        return self.case['witness']

    def make_tx(self, mutable=True):
        w = self.case['witness']
        if w == 'part':
            return mk_tx(self.tx, mutable, (len(self.vin) // 2, len(self.vout) // 2))
        if w == 'none':
            return mk_tx(self.tx, mutable, 'none')
        return mk_tx(self.tx, mutable)

    def before(self):
        """Plain transaction before blinding, as made by make_tx()."""
        t = copy.deepcopy(self.tx)
        n = {'none': 0, 'part': len(self.vin) // 2}.get(self.case['witness'], len(self.vin))
        for i in t['vin'][n:]:
            i['wit'] = dict(NOWIT)
        n = {'none': 0, 'part': len(self.vout) // 2}.get(self.case['witness'], len(self.vout))
        for o in t['vout'][n:]:
            o['wit'] = dict(sp=b'', rp=b'')
        return t

    def descriptors(self):
        u, asset, pairs = self.once(Uint256), self.once(ec.CAsset), self.once(lambda d: ec.BlindingInputDescriptor(
            asset=asset(d[0]), amount=d[1], blinding_factor=u(d[2]), asset_blinding_factor=u(d[3])))
        return [pairs(d) for d in self.known]

    def once(self, f):
        """f, giving the same object for the same argument where the request is to share its objects"""
        seen = {}

        def g(x):
            return seen.setdefault(x, f(x)) if self.shared else f(x)
        return g

    def kwargs(self):
        c = self.case
        pub, key = self.once(CPubKey), self.once(lambda k: CKey(k, c['compr']))
        kw = dict(input_descriptors=self.descriptors(), output_pubkeys=[pub(p) for p in self.pubs])
        ak = [None if k is None else key(k) for k in self.akeys]
        tk = [None if k is None else key(k) for k in self.tkeys]
        if c['trim']:
            # what is missing at the end counts as nothing
            while ak and ak[-1] is None:
                ak.pop()
            while tk and tk[-1] is None:
                tk.pop()
            while kw['output_pubkeys'] and not len(kw['output_pubkeys'][-1]):
                kw['output_pubkeys'].pop()
        if ak or not c['trim'] or self.explicit_none:
            kw['blind_issuance_asset_keys'] = ak
        if tk or not c['trim'] or self.explicit_none:
            kw['blind_issuance_token_keys'] = tk
        if c['exp'] is not None:
            kw['custom_ct_exponent'] = c['exp']
        if c['bits'] is not None:
            kw['custom_ct_bits'] = c['bits']
        if c['tuples']:
            kw = {k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()}
        return kw

    def blind(self, tx, rand=None, **kw):
        k = self.kwargs()
        k.update(kw)
        if rand is not None:
            k['_rand_func'] = rand
        if self.case['via']:
            return ec.blind_transaction(tx, **k)
        return tx.blind(**k)

    # ---- the other side ------------------------------------------------------

    def input_commitments(self):
        r = []
        for a, v, bf, abf in self.known:
            g = zkp.gen64(a, abf)
            if v or bf != Z32:
                r.append(zkp.commit33(v, bf, g))
        return r

    def target_gens(self):
        return [zkp.gen64(a, abf) for a, abf in self.targets]

    def balance(self, after):
        """The commitments of the transaction in plain form balance, the way a node computes it."""
        pos = self.input_commitments()
        for i in after['vin']:
            if i['iss'] is not None:
                ids = asset_ids(i)
                conf = i['iss']['amt'][:1] in (b'\x08', b'\x09')
                for f, a in (('amt', ids[0]), ('keys', ids[2] if conf else ids[1])):
                    c = value_commitment(i['iss'][f], b'\x01' + a)
                    if c is not None:
                        pos.append(c)
        neg = []
        for o in after['vout']:
            c = value_commitment(o['value'], o['asset'])
            if c is not None:
                neg.append(c)
        return zkp.tally(pos, neg)


def spent_sum(known):
    return sum(v * int.from_bytes(abf, 'big') + int.from_bytes(bf, 'big') for _, v, bf, abf in known) % N


def value_commitment(value, asset):
    """33 bytes; None for nothing (zero or null)"""
    if not value:
        return None
    if value[0] == 1:
        v = int.from_bytes(value[1:], 'big')
        if not v:
            return None
        g = zkp.gen64(asset[1:]) if asset[0] == 1 else zkp.parse_gen(asset)
        return zkp.commit33(v, Z32, g)
    return value


# ---- cases -----------------------------------------------------------------

def factor():
    return st.binary(min_size=32, max_size=32).map(
        lambda b: (int.from_bytes(b, 'big') % (N - 1) + 1).to_bytes(32, 'big'))


def amount():
    return gen.weighted((6, st.integers(20, 400)), (1, st.integers(20, 2 ** 33)),
                        (1, st.sampled_from([10 ** 8, 10 ** 12, 2 ** 40, gen.MAX_MONEY // 8])),
                        (1, st.integers(0, 5)))


def issuance_part():
    opt = gen.weighted((3, amount()), (1, st.none()))
    return st.fixed_dictionaries(dict(
        bn=gen.weighted((2, st.just(Z32)), (1, factor())), ent=gen.b32(), amt=opt, keys=opt,
        key=st.booleans(), only=gen.weighted((3, st.none()), (2, st.sampled_from(['amt', 'keys']))), asec=addrgen.secret(), tsec=addrgen.secret()))


def script():
    return gen.weighted(
        (4, st.builds(lambda b: b'\x00\x14' + b, st.binary(min_size=20, max_size=20))),
        (1, st.sampled_from([b'\x51', b'\x6a', b'\x6a\x04test', b'\x00'])),
        (1, gen.sized_bytes(60)),
        (1, st.just(b'\x61' * 10001)))


def input_part(iss_weight=1):
    both = st.tuples(factor(), factor())
    return st.builds(
        lambda f, d: dict(d, bf=f[0], abf=f[1]),
        gen.weighted((4, both), (3, st.just((Z32, Z32))), (1, st.tuples(factor(), st.just(Z32))),
                     (1, st.tuples(st.just(Z32), factor()))),
        st.fixed_dictionaries(dict(
            a=st.integers(0, 2), amt=amount(), n=st.integers(0, 5), ss=st.binary(max_size=4), seq=gen.u32(),
            iss=gen.weighted((3, st.none()), (iss_weight, issuance_part())),
            wit=gen.weighted((3, st.just(dict(NOWIT))), (1, st.fixed_dictionaries(dict(
                ar=st.just(b''), kr=st.just(b''), sw=gen.stack(), pw=gen.stack())))))))


def output_part(blind=None):
    return st.fixed_dictionaries(dict(
        a=st.integers(0, 5), w=st.integers(1, 9), spk=script(), unc=gen.weighted((6, st.just(False)), (1, st.just(True))),
        blind=st.just(blind) if blind is not None else gen.weighted((3, st.just(True)), (1, st.just(False))),
        zero=gen.weighted((9, st.just(False)), (1, st.just(True))), sec=addrgen.secret(),
        nonce=gen.weighted((3, st.just(b'')), (1, gen.nonce_field()))))


def foreign_out():
    """An output somebody else has blinded already (not a real one)."""
    return st.fixed_dictionaries(dict(
        asset=st.builds(lambda k: zkp.gen33(b'\x77' * 32, k), factor()),
        value=st.builds(lambda k: zkp.commit33(5, k, zkp.gen64(b'\x77' * 32)), factor()),
        nonce=st.builds(lambda n: curve.pub(n.to_bytes(32, 'big')), st.integers(1, 9)),
        spk=st.binary(min_size=1, max_size=8),
        wit=st.fixed_dictionaries(dict(sp=st.binary(min_size=1, max_size=9), rp=st.binary(min_size=1, max_size=9)))))


BITS = gen.weighted((4, st.sampled_from([3, 4, 5, 6, 7, 8])), (2, st.integers(3, 33)), (1, st.sampled_from([36, 52])),
                    (1, st.integers(34, 64)), (1, st.none()), (1, st.integers(0, 2)))
EXP = gen.weighted((4, st.sampled_from([0, None])), (1, st.integers(0, 18)))


def request(max_in=3, max_out=4, iss_weight=1, unbal=True, min_out=0, min_in=1, bits=BITS, exp=EXP, foreign=True):
    return st.fixed_dictionaries(dict(
        assets=st.lists(gen.b32(False).filter(any), min_size=1, max_size=3, unique=True),
        ins=st.lists(input_part(iss_weight), min_size=min_in, max_size=max_in),
        outs=gen.weighted((6, st.lists(output_part(), min_size=min(2, max_out), max_size=max_out)),
                          (2, st.lists(output_part(), min_size=min_out, max_size=max_out))),
        foreign=st.just([]) if not foreign else gen.weighted(
            (5, st.just([])), (1, st.lists(st.fixed_dictionaries(dict(at=st.integers(0, 5), out=foreign_out())),
                                           min_size=1, max_size=2))),
        fee=st.booleans(), at=st.integers(0, 5),
        unbal=gen.weighted((9, st.just(0)), (1, st.integers(1, 5))) if unbal else st.just(0),
        v=gen.i32(), lt=gen.u32(), seed=st.binary(min_size=8, max_size=8),
        witness=st.sampled_from(['full', 'none', 'part']), exp=exp, bits=bits, compr=st.booleans(),
        trim=st.booleans(), tuples=st.booleans(), via=st.booleans(), params=st.sampled_from(PARAMS)))


def many():
    """Requests with more inputs and outputs (number of targets has to stay below too_many())"""
    return request(min_in=4, max_in=10, min_out=4, max_out=14, bits=st.integers(3, 7), exp=st.sampled_from([0, None]))


def too_many(r):
    # the library makes a hundred tries to draw three targets one of which is the right one
    return len(r.targets) > 18
