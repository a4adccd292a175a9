"""Self-test of the machinery, run by setup_cmd: the reference models and the
stand-in library are held against transactions recorded from Elements Core."""
import ctypes
import json
import os

from . import env


def expect(cond, what):
    if not cond:
        raise env.HarnessError('self-test failed: %s' % what)


def corpus():
    with open(os.path.join(env.VERIF, 'vf', 'data', 'corpus.json')) as f:
        return json.load(f)


def lib():
    li = ctypes.CDLL(env.zkp_path())
    expect(li.standin_marker() == 1, 'marker of the stand-in library')
    return li


def check_codec():
    from .ref import codec
    n = 0
    for e in corpus():
        b = bytes.fromhex(e['hex'])
        tx = codec.parse_tx(b)
        expect(codec.ser_tx(tx) == b, 'reference codec round trip')
        expect(codec.txid(tx)[::-1].hex() == e['txid'], 'reference txid')
        expect(codec.wtxid(tx)[::-1].hex() == e['hash'], 'reference hash')
        if e.get('vsize'):
            expect(codec.vsize(tx) == e['vsize'], 'reference virtual size')
        n += 1
    return n


def check_midstate():
    # published with Elements Core / rust-elements
    from .ref import codec, sha

    def h(s):
        return bytes.fromhex(s)[::-1]
    op = codec.ser_outpoint(h('05a047c98e82a848dee94efcf32462b065198bebf2404d201ba2e06db30b28f4'), 0)
    e = sha.midstate(codec.dsha(op) + bytes(32))
    expect(e == h('746f447f691323502cad2ef646f932613d37a83aeaa2133185b316648df4b70a'), 'entropy')
    expect(sha.midstate(e + bytes(32)) == h(
        'dcd60818d863b5c026c40b2bc3ba6fdaf5018bcc8606c18adf7db4da0bcd8533'), 'asset id')
    expect(sha.midstate(e + b'\x01' + bytes(31)) == h(
        'c1adb114f4f87d33bf9ce90dd4f9ca523dd414d6cd010a7917903e2009689530'), 'token id')


def check_rangeproofs(li):
    """Range proofs made by Elements Core verify with the stand-in, and stop
    verifying when the script or a byte of the proof changes."""
    from .ref import codec
    n = 0
    for e in corpus():
        tx = codec.parse_tx(bytes.fromhex(e['hex']))
        for o in tx['vout']:
            if len(o['value']) != 33 or not o['wit']['rp'] or len(o['asset']) != 33:
                continue
            if n >= 40:
                return n
            gen = ctypes.create_string_buffer(64)
            com = ctypes.create_string_buffer(64)
            expect(li.secp256k1_pedersen_commitment_parse(None, com, o['value']) == 1, 'commitment')
            if o['asset'][0] == 1:
                expect(li.secp256k1_generator_generate(None, gen, o['asset'][1:]) == 1, 'generator')
            else:
                expect(li.secp256k1_generator_parse(None, gen, o['asset']) == 1, 'generator')
            rp = o['wit']['rp']

            def ver(rp, spk):
                lo, hi = ctypes.c_uint64(), ctypes.c_uint64()
                return li.secp256k1_rangeproof_verify(
                    None, ctypes.byref(lo), ctypes.byref(hi), com, rp,
                    ctypes.c_size_t(len(rp)), spk, ctypes.c_size_t(len(spk)), gen)
            expect(ver(rp, o['spk']) == 1, 'range proof by Elements Core')
            if n < 3:
                expect(ver(rp, o['spk'] + b'x') == 0, 'range proof for another script')
                expect(ver(rp[:-1] + bytes([rp[-1] ^ 1]), o['spk']) == 0, 'altered range proof')
            n += 1
    return n


def main():
    li = lib()
    check_midstate()
    a = check_codec()
    b = check_rangeproofs(li)
    expect(a >= 50 and b >= 5, 'the recorded data (%d, %d)' % (a, b))
    print('self-test: %d recorded transactions, %d recorded range proofs' % (a, b))
    return 0
