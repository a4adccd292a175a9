"""Single-field changes of a plain transaction (and its spent outputs), used
for "covered by the hash type or not" relations."""
import copy

from hypothesis import strategies as st

from . import gen
from .ref import codec

IN = ['txid', 'n', 'seq', 'iss', 'pegin', 'ss']
OUT = ['asset', 'value', 'nonce', 'spk']
INWIT = ['ar', 'kr', 'sw', 'pw']
OUTWIT = ['sp', 'rp']


def strategy(spent=True):
    k = gen.pos()
    f = st.fixed_dictionaries
    seed = st.binary(min_size=4, max_size=4)
    alts = [
        (1, f(dict(where=st.just('tx'), field=st.sampled_from(['v', 'lt']), seed=seed))),
        (4, f(dict(where=st.just('in'), field=st.sampled_from(IN), k=k, seed=seed))),
        (3, f(dict(where=st.just('out'), field=st.sampled_from(OUT), k=k, seed=seed))),
        (2, f(dict(where=st.just('inwit'), field=st.sampled_from(INWIT), k=k, seed=seed))),
        (2, f(dict(where=st.just('outwit'), field=st.sampled_from(OUTWIT), k=k, seed=seed))),
    ]
    if spent:
        alts.append((3, f(dict(where=st.just('spent'), field=st.sampled_from(OUT), k=k, seed=seed))))
    return gen.weighted(*alts)


def _bytes(old, seed):
    """A different byte string: shortened, extended or altered."""
    how = seed[0] % 4
    if not old or how == 0:
        return old + seed[1:2]
    if how == 1:
        return old[:-1]
    if how == 2:
        p = seed[1] % len(old)
        return old[:p] + bytes([old[p] ^ (1 + seed[2] % 255)]) + old[p + 1:]
    return seed[1:2] + old


def _field(old, seed, explicit, prefixes):
    how = seed[0] % 3
    if not old:
        return b'\x01' + (bytes(explicit - 1) if how else (seed * 9)[:explicit - 1])
    if how == 0:
        return b''
    if how == 1 and old[0] in prefixes:
        return bytes([prefixes[0] + prefixes[1] - old[0]]) + old[1:]
    p = 1 + seed[1] % (len(old) - 1)
    return old[:p] + bytes([old[p] ^ (1 + seed[2] % 255)]) + old[p + 1:]


def _issuance(old, seed):
    if codec.iss_is_null(old):
        return dict(bn=bytes(32), ent=(seed * 8), amt=b'\x01' + seed * 2, keys=b'')
    d = dict(old)
    how = seed[0] % 5
    if how == 0:
        return None
    if how in (1, 2):
        f = 'bn' if how == 1 else 'ent'
        p = seed[1] % 32
        d[f] = d[f][:p] + bytes([d[f][p] ^ (1 + seed[2] % 255)]) + d[f][p + 1:]
        return d
    f = 'amt' if how == 3 else 'keys'
    d[f] = _field(d[f], seed[1:] + seed[:1], 9, (8, 9))
    if codec.iss_is_null(d):
        return None
    return d


def apply(tx, spent, e):
    """(tx', spent', k) or None when there is nothing to edit."""
    tx = copy.deepcopy(tx)
    spent = [copy.deepcopy(o) for o in spent]
    w, f, seed = e['where'], e['field'], e['seed']
    k = None
    if w == 'tx':
        x = int.from_bytes(seed, 'little') or 1
        tx[f] ^= x
        if f == 'v':
            tx[f] = (tx[f] + 2 ** 31) % 2 ** 32 - 2 ** 31
        return tx, spent, None
    target = {'in': tx['vin'], 'inwit': tx['vin'], 'out': tx['vout'], 'outwit': tx['vout'],
              'spent': spent}[w]
    if not target:
        return None
    k = e['k'] % len(target)
    t = target[k]
    if w in ('inwit', 'outwit'):
        t = t['wit']
        if f in ('sw', 'pw'):
            t[f] = t[f][:-1] if t[f] and seed[0] & 1 else t[f] + [seed]
        else:
            t[f] = _bytes(t[f], seed)
    elif w == 'in':
        if f == 'txid':
            p = seed[1] % 32
            t[f] = t[f][:p] + bytes([t[f][p] ^ (1 + seed[2] % 255)]) + t[f][p + 1:]
        elif f == 'n':
            if t['n'] == 0xffffffff:
                return None
            n = (t[f] ^ ((int.from_bytes(seed, 'little') & 0x3ffffffe) or 2))
            t[f] = n & 0x3fffffff
        elif f == 'seq':
            t[f] ^= int.from_bytes(seed, 'little') or 1
        elif f == 'iss':
            if t['n'] == 0xffffffff:
                return None
            t[f] = _issuance(t[f], seed)
        elif f == 'pegin':
            if t['n'] == 0xffffffff:
                return None
            t[f] = not t[f]
        else:
            t[f] = _bytes(t[f], seed)
    else:
        if f == 'spk':
            t[f] = _bytes(t[f], seed)
        elif f == 'value':
            t[f] = _field(t[f], seed, 9, (8, 9))
        elif f == 'asset':
            t[f] = _field(t[f], seed, 33, (10, 11))
        else:
            t[f] = _field(t[f], seed, 33, (2, 3))
    return tx, spent, k
