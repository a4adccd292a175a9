import copy

from hypothesis import strategies as st

from ..build import *  # noqa
from ..core import Prop, Sub, check, check_eq
from .. import blindgen as bg, gen, zkp
from bitcointx.core.key import CKey, CPubKey
from .c17 import is_result, N, num
from .c19 import good
from .c20 import check_refused, strat_refused


class Shared:
    """A transaction several parties make together. Inputs are grouped by party, in party order."""

    def __init__(self, case, last=None):
        case = copy.deepcopy(case)
        self.case = case
        n = len(case['ins'])
        self.np = np = min(case['parties'], n)
        self.owner = [k * np // n for k in range(n)]
        # issuances can be blinded only by who comes last
        self.order = sorted(range(np), key=lambda p: case['order'][p])
        self.issuer = self.order[-1] if last is None else last
        for k, i in enumerate(case['ins']):
            if i['iss'] is not None:
                if self.owner[k] != self.issuer:
                    i['iss']['key'] = False
                elif i['iss']['key'] and i['iss']['amt'] is not None and i['iss'].get('only') != 'keys':
                    # committing to the amount of an issuance changes the id of its token, so that proofs made earlier are about another one
                    i['iss']['keys'] = None
        self.assign(bg.Req(case))
        for p in range(np):
            mine = [i for k, i in enumerate(case['ins']) if self.owner[k] == p]
            if not self.mine(p):
                for i in mine:
                    i['bf'] = i['abf'] = bg.Z32
                    if i['iss'] is not None:
                        i['iss']['key'] = False
            elif len(self.mine(p)) == 1 and not any(num(i['bf']) or num(i['abf']) for i in mine):
                mine[-1]['abf'] = bg.Stream(case['seed'] + bytes([p]))(31).rjust(32, b'\0')
        self.r = bg.Req(case)
        self.assign(self.r)

    def assign(self, r):
        # who knows which asset: through an own input or the issuance in it
        knows = [set() for _ in range(self.np)]
        self.tgt_of_in = []
        t = 0
        for k, i in enumerate(r.vin):
            n = 1
            if i['iss'] is not None:
                n += bool(i['iss']['amt']) + bool(i['iss']['keys'])
            self.tgt_of_in.append(list(range(t, t + n)))
            for x in self.tgt_of_in[-1]:
                knows[self.owner[k]].add(r.targets[x][0])
            t += n
        self.blinder = []
        for n, o in enumerate(r.outs):
            if r.secs[n] is None:
                self.blinder.append(None)
                continue
            c = [p for p in range(self.np) if o['asset'] in knows[p]]
            # whoever has least to blind
            self.blinder.append(min(c, key=lambda p: (self.blinder.count(p), (p + self.case['who']) % self.np)))
        self.blinded_in = [any(self.owner[k] == p and (bf != bg.Z32 or abf != bg.Z32)
                               for k, (_, _, bf, abf) in enumerate(r.known)) for p in range(self.np)]

    def mine(self, p):
        return [n for n, b in enumerate(self.blinder) if b == p]

    def feasible(self, issuer):
        """Every party can blind, and has to if some of its inputs are blinded"""
        for p in range(self.np):
            m = self.mine(p)
            todo = len(m) + (self.r.n_iss if p == issuer else 0)
            if not m and (self.blinded_in[p] or todo):
                return False
            if todo == 1 and not self.blinded_in[p]:
                return False
            if len(m) == todo == 1 and self.r.outs[m[0]]['amt'] == 0 and not bg.spent_sum(
                    [x for k, x in enumerate(self.r.known) if self.owner[k] == p]):
                # (nothing to balance)
                return False
        return True

    def generators(self):
        """Asset commitments of all inputs, then of everything issued, and the same in target order"""
        r = self.r
        comm = []
        for a, _, _, abf in r.known:
            if abf == bg.Z32:
                c = ec.CAsset(a).to_commitment()
                check_eq(bytes(c), zkp.gen33(a), 'commitment of an explicit asset')
                comm.append(bytes(c))
            else:
                comm.append(zkp.gen33(a, abf))
        return comm


def check_step(sh, p, before, after, res, own):
    """Party p has blinded its outputs own, and nothing else has changed."""
    r = sh.r
    want = copy.deepcopy(before)
    for n in own:
        o, src = after['vout'][n], r.outs[n]
        b, a = res.blinding_factors[n].data, res.asset_blinding_factors[n].data
        check_eq(o['asset'], zkp.gen33(src['asset'], a), 'asset commitment of output %d' % n)
        check_eq(o['value'], zkp.commit33(src['amt'], b, zkp.gen64(src['asset'], a)), 'value commitment of output %d' % n)
        check(len(o['nonce']) == 33, 'nonce of output %d', n)
        want['vout'][n] = dict(o)
    for n in range(len(after['vout'])):
        if n not in own:
            check_eq((res.blinding_factors[n].data, res.asset_blinding_factors[n].data), (bg.Z32, bg.Z32),
                     'factors of output %d, which party %d did not blind' % (n, p))
    for n, i in enumerate(want['vin']):
        if p == sh.issuer:
            for keys, f, w in (('akeys', 'amt', 'ar'), ('tkeys', 'keys', 'kr')):
                if getattr(r, keys)[n] is not None:
                    i['iss'] = dict(i['iss'], **{f: after['vin'][n]['iss'][f]})
                    i['wit'] = dict(i['wit'], **{w: after['vin'][n]['wit'][w]})
    same(after, want, 'what party %d did not blind' % p)


def final(sh, tx):
    r = sh.r
    after = rd_tx(tx)
    gens = r.target_gens()
    for n, o in enumerate(after['vout']):
        if sh.blinder[n] is None:
            continue
        g = zkp.parse_gen(o['asset'])
        check(g is not None and zkp.rp_verify(o['value'], o['wit']['rp'], o['spk'], g) is not None,
              'range proof of output %d does not verify in the end', n)
        check(zkp.surjection(o['wit']['sp'], gens, g), 'surjection proof of output %d does not verify in the end', n)
        u = tx.vout[n].unblind_confidential_pair(CKey(r.secs[n]), o['wit']['rp'])
        good(u, r.outs[n]['asset'], r.outs[n]['amt'], u.blinding_factor.data if u.ok else b'',
             u.asset_blinding_factor.data if u.ok else b'', 'output %d' % n)
        check_eq(zkp.commit33(u.amount, u.blinding_factor.data, g), o['value'], 'opening of output %d' % n)
    check(r.balance(after), 'the final transaction does not balance')


def trim(case, tx):
    """Leave out empty witness records at the end (and what has none yet, in a transaction that grows)"""
    if case.get('short', 0) & 1:
        while tx.wit.vtxoutwit and tx.wit.vtxoutwit[-1].is_null():
            tx.wit.vtxoutwit.pop()
    if case.get('short', 0) & 2:
        while tx.wit.vtxinwit and tx.wit.vtxinwit[-1].is_null():
            tx.wit.vtxinwit.pop()


def kwargs_for(sh, p, own, nin, form, comm_extra, comm, issue):
    """Arguments of party p, which knows its inputs only; the transaction has the first nin inputs."""
    r, case = sh.r, sh.case
    desc = []
    for k in range(nin):
        a, v, bf, abf = r.known[k]
        if sh.owner[k] == p:
            desc.append(ec.BlindingInputDescriptor(asset=ec.CAsset(a), amount=v, blinding_factor=Uint256(bf),
                                                   asset_blinding_factor=Uint256(abf)))
        else:
            desc.append(ec.BlindingInputDescriptor(asset=ec.CAsset(), amount=[-1, 0, 5][case['who'] % 3], blinding_factor=Uint256(),
                                                   asset_blinding_factor=Uint256()))
    kw = dict(input_descriptors=desc,
              output_pubkeys=[CPubKey(r.pubs[n]) if n in own else CPubKey(b'') for n in range(max(own) + 1 if own else 0)],
              auxiliary_generators=[form(c) for c in comm[:nin] + comm_extra],
              custom_ct_bits=case['bits'], custom_ct_exponent=case['exp'])
    if issue:
        kw['blind_issuance_asset_keys'] = [None if k is None else CKey(k) for k in r.akeys]
        kw['blind_issuance_token_keys'] = [None if k is None else CKey(k) for k in r.tkeys]
    return kw


def check_shared(case):
    sh = Shared(case)
    r = sh.r
    if not sh.feasible(sh.issuer) or not r.provable():
        return False, ['not feasible']
    with params(case['params']):
        comm = sh.generators()
        tx = r.make_tx()
        form = bytearray if case['tuples'] else bytes
        for p in sh.order:
            own = sh.mine(p)
            todo = len(own) + (r.n_iss if p == sh.issuer else 0)
            if not todo:
                continue
            if case['via']:
                # hand it over in serialized form
                tx = ec.CElementsTransaction.deserialize(tx.serialize()).to_mutable()
            before = rd_tx(tx)
            trim(case, tx)
            kw = kwargs_for(sh, p, own, len(r.vin), form, [], comm, p == sh.issuer)
            res = tx.blind(_rand_func=bg.Stream(bytes([p]) + case['seed']), **kw)
            is_result(res, True)
            check_eq(res.num_successfully_blinded, todo, 'number blinded by party %d' % p)
            check_step(sh, p, before, rd_tx(tx), res, own)
        final(sh, tx)
    return True, ['%d parties' % sh.np, '%d issuances blinded' % r.n_iss, '%d targets' % len(r.targets)]


def strat_shared():
    def fix(c, n, o, who, short):
        return dict(c, parties=n, order=o, who=who, short=short)
    return st.builds(fix, bg.request(max_in=5, max_out=6, min_out=2, min_in=2, unbal=False, foreign=False,
                                     bits=gen.weighted((8, st.integers(3, 9)), (1, st.integers(10, 52))),
                                     exp=st.sampled_from([0, 0, 0, 1])),
                     st.integers(2, 3), st.permutations([0, 1, 2]).map(list), st.integers(0, 5), st.integers(0, 3))


# ---- a transaction that grows ------------------------------------------------------

def check_growing(case):
    """The first party blinds its outputs before the inputs of the others are there, knowing their asset commitments."""
    # parties come in order of their inputs
    sh = Shared(case, last=min(case['parties'], len(case['ins'])) - 1)
    r = sh.r
    if not sh.feasible(sh.issuer) or not r.provable():
        return False, ['not feasible']
    with params(case['params']):
        comm = sh.generators()
        form = bytearray if case['tuples'] else bytes
        outs_here = []
        tx = None
        for p in range(sh.np):
            nin = sum(1 for o in sh.owner if o <= p)
            # the outputs of this party and, in the end, those nobody blinds
            outs_here = [n for n, b in enumerate(sh.blinder) if (b is not None and b <= p) or (b is None and p == sh.np - 1)]
            part = dict(r.tx, vin=r.vin[:nin], vout=[r.vout[n] for n in outs_here])
            new = mk_tx(part, True)
            if tx is not None:
                # what is there already
                for k, n in enumerate(prev_outs):
                    pos = outs_here.index(n)
                    new.vout[pos] = tx.vout[k]
                    new.wit.vtxoutwit[pos] = tx.wit.vtxoutwit[k]
            prev_outs = outs_here
            tx = new
            trim(case, tx)
            own = sh.mine(p)
            todo = len(own) + (r.n_iss if p == sh.issuer else 0)
            if not todo:
                continue
            # commitments of what is still to come, in the order of the final transaction
            extra = []
            for k in range(nin, len(r.vin)):
                extra.append(comm[k])
                for t in sh.tgt_of_in[k][1:]:
                    extra.append(bytes(ec.CAsset(r.targets[t][0]).to_commitment()))
            kw = kwargs_for(sh, p, [], nin, form, extra, comm, p == sh.issuer)
            kw['output_pubkeys'] = [CPubKey(r.pubs[n]) if n in own else CPubKey(b'') for n in outs_here]
            res = tx.blind(_rand_func=bg.Stream(bytes([p]) + case['seed']), **kw)
            is_result(res, True)
            check_eq(res.num_successfully_blinded, todo, 'number blinded by party %d' % p)
        # final() wants outputs in the order of the request
        check_eq(outs_here, list(range(len(r.outs))), 'outputs')
        final(sh, tx)
    return True, ['%d parties' % sh.np, '%d targets' % len(r.targets)]


# ---- more targets than inputs ------------------------------------------------------

def check_extra(case):
    r = bg.Req(case)
    if not r.provable() or not r.can() or not r.n_out:
        return False, ['nothing to prove']
    with params(case['params']):
        extra, gens = [], []
        for a, k in case['extra']:
            if k is None:
                c = bytes(ec.CAsset(a).to_commitment())
                check_eq(c, zkp.gen33(a), 'commitment of an asset id')
            else:
                c = zkp.gen33(a, k)
            extra.append(c)
            gens.append(zkp.parse_gen(c))
        comm = [zkp.gen33(a, abf) for a, _, _, abf in r.known]
        tx = r.make_tx()
        before = r.before()
        form = bytearray if case['who'] & 1 else bytes
        aux = [form(x) for x in comm + extra]
        res = r.blind(tx, bg.Stream(case['seed']), auxiliary_generators=aux)
        is_result(res, True)
        check_eq(res.num_successfully_blinded, r.todo, 'number blinded')
        after = rd_tx(tx)
        tgt = r.target_gens() + gens
        left = sum(v * num(abf) + num(bf) for _, v, bf, abf in r.known)
        right = 0
        for n, o in enumerate(after['vout']):
            a, b = res.asset_blinding_factors[n].data, res.blinding_factors[n].data
            right += r.outs[n]['amt'] * num(a) + num(b)
            if r.secs[n] is None:
                same(o, before['vout'][n], 'output %d, which was not to be blinded' % n)
                continue
            g = zkp.parse_gen(o['asset'])
            check(g is not None and zkp.surjection(o['wit']['sp'], tgt, g),
                  'surjection proof of output %d over inputs and additional targets', n)
            check(not zkp.surjection(o['wit']['sp'], r.target_gens(), g), 'surjection proof without the additional targets')
        if not r.n_iss:
            check(left % N == right % N, 'blinding factors do not balance')
    return True, ['%d additional targets' % len(extra)]


def strat_extra():
    ex = st.tuples(gen.b32(False).filter(any), st.one_of(st.none(), bg.factor())).map(list)
    return st.builds(lambda c, x, w: dict(c, extra=x, who=w),
                     bg.request(max_in=2, max_out=3, min_out=1, unbal=False, foreign=False,
                                bits=st.integers(3, 9), exp=st.just(0)),
                     st.lists(ex, min_size=1, max_size=6), st.integers(0, 3))


def check_commitment(case):
    a = ec.CAsset(case['asset'])
    with params(case['params']):
        c = a.to_commitment()
    check_eq(bytes(c), zkp.gen33(case['asset']), 'commitment of an asset id')
    check_eq(ec.CConfidentialAsset(bytes(c)).is_commitment(), True, 'commitment is a committed asset field')
    return True, []


BAD = ['too_few_generators', 'generator_length', 'generator_type', 'generator_invalid', 'extra_generator_invalid', 'unknown_asset']


def strat_malformed():
    ch = st.tuples(st.sampled_from(BAD), st.integers(0, 10 ** 6), bg.factor()).map(list)
    return st.builds(lambda c, x: dict(c, changes=x), strat_refused(), st.lists(ch, min_size=4, max_size=9))


PROP = Prop('C22', [
    Sub('shared', check_shared, strat_shared, quick=500, thorough=20000,
        doc='2-3 parties blind their outputs of one transaction in any order, knowing asset commitments of other inputs only'),
    Sub('growing', check_growing, strat_shared, quick=350, thorough=12000,
        doc='parties add inputs and outputs one after another, blinding before the rest is there'),
    Sub('extra', check_extra, strat_extra, quick=300, thorough=12000, doc='additional surjection targets'),
    Sub('commitment', check_commitment, lambda: st.fixed_dictionaries(dict(asset=gen.b32(), params=st.sampled_from(PARAMS))),
        quick=200, thorough=5000, doc='commitment of an asset id is its unblinded generator'),
    Sub('malformed', check_refused, strat_malformed, quick=250, thorough=12000, doc='malformed generators are refused'),
], rule='at least two parties, each able to blind', assumptions=[
    'stand-in library', 'at most about 15 surjection targets (the library makes a limited number of tries to include the right one)',
    'issuances are blinded only by the party that comes last (blinded issuances of others are refused, as in Elements Core)'])
