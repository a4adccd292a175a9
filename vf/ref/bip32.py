"""BIP32 from its text."""
import hashlib
import hmac

from . import curve, addr


def h160(b):
    return hashlib.new('ripemd160', hashlib.sha256(b).digest()).digest()


class Node:
    """Private when k is set, else public."""

    def __init__(self, depth, fp, num, cc, k=None, pub=None):
        self.depth, self.fp, self.num, self.cc, self.k = depth, fp, num, cc, k
        self.pub = pub if k is None else curve.pub(k)

    def payload(self):
        return (bytes([self.depth]) + self.fp + self.num.to_bytes(4, 'big') + self.cc +
                (b'\x00' + self.k if self.k is not None else self.pub))

    def neuter(self):
        return Node(self.depth, self.fp, self.num, self.cc, pub=self.pub)

    def child(self, i):
        """None in the practically impossible cases."""
        data = b'\x00' + self.k if i >> 31 else self.pub
        d = hmac.new(self.cc, data + i.to_bytes(4, 'big'), hashlib.sha512).digest()
        t = int.from_bytes(d[:32], 'big')
        if t >= curve.N:
            return None
        fp = h160(self.pub)[:4]
        if self.k is not None:
            k = (t + int.from_bytes(self.k, 'big')) % curve.N
            return Node(self.depth + 1, fp, i, d[32:], k=k.to_bytes(32, 'big')) if k else None
        p = curve.add(curve.mul(t), curve.parse(self.pub))
        return Node(self.depth + 1, fp, i, d[32:], pub=curve.ser(p)) if p else None


def master(seed):
    d = hmac.new(b'Bitcoin seed', seed, hashlib.sha512).digest()
    return Node(0, b'\x00' * 4, 0, d[32:], k=d[:32])


def to_str(prefix, node):
    return addr.b58check(prefix + node.payload())
