#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl, the existing checks and the
notes below (run by hand after adding a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TRUST_CODEC = ('Trusts the independent codec in vf/ref/codec.py, which the self-test holds against '
               '74 transactions recorded from Elements Core.')
TRUST_ZKP = ('secp256k1-zkp is not installed here; its algorithms are re-implemented in '
             'zkp/zkp_standin.c, whose output is byte-identical on the transactions recorded from '
             'Elements Core.')

T = {
    'C01': ('generated transactions against an independent codec (differential, round trip)', TRUST_CODEC),
    'C02': ('structure-aware mutation fuzzing of encodings against an independent strict parser', TRUST_CODEC),
    'C03': ('edit histories on generated transactions against reference ids', TRUST_CODEC),
    'C04': ('generated and enumerated field contents against a small reference model', 'All 256 prefixes at all lengths 0..70 are enumerated; contents are sampled.'),
    'C05': ('stateful (model-based) histories over a pool of transactions, parts and buffers', 'Aliasing is looked for through the public attributes and byte buffers only.'),
    'C06': ('generated transactions and scripts against an independent legacy digest', TRUST_CODEC),
    'C07': ('generated transactions against an independent version-0 digest plus cover/uncover relations', TRUST_CODEC),
    'C08': ('generated transactions against an independent taproot digest plus cover/uncover relations', 'The digest model is written from the Elements Core algorithm; no recorded Elements taproot digests exist offline.'),
    'C09': ('sign, alter, verify: metamorphic relations over generated spends', 'Script verification is that of python-bitcointx.'),
    'C10': ('generated addresses against independent base58check/blech32 encoders, round trips', 'The encoders are independent of the library and agree with the recorded addresses of the tests.'),
    'C11': ('generated strings and all small corruptions against an independent blech32 model', 'Corruptions beyond four substitutions are judged by the model.'),
    'C12': ('generated and corrupted address strings against a reference classifier over five networks', ''),
    'C13': ('generated outputs, reported size against serialized size', TRUST_CODEC),
    'C14': ('generated outpoints and contract hashes against an independent SHA-256 midstate', 'The midstate model is checked against recorded asset ids.'),
    'C15': ('generated scripts and keys against an independent HMAC', ''),
    'C16': ('generated byte scripts against an independent script parser and opcode table', ''),
    'C17': ('generated blinding requests; openings recomputed with an independent library entry point, homomorphic balance check', TRUST_ZKP),
    'C18': ('generated blinding requests; proofs verified independently', TRUST_ZKP),
    'C19': ('blind/unblind round trip and corruption of every part', TRUST_ZKP),
    'C20': ('inconsistencies injected into valid requests, unchanged-encoding oracle', TRUST_ZKP),
    'C21': ('generated issuances; balance, proofs and unblinding as oracles', TRUST_ZKP),
    'C22': ('generated multi-party histories; balance and proofs as oracles', TRUST_ZKP),
    'C23': ('pairs of runs over recorded random streams (relational testing)', TRUST_ZKP),
    'C24': ('stateful histories of selections in several threads against a stack model', ''),
    'C25': ('enumerated and generated configurations in fresh processes', TRUST_ZKP),
    'C26': ('generated script trees against independent BIP341 construction', ''),
    'C27': ('generated transactions against the weight formula', TRUST_CODEC),
    'C29': ('every parameter with a value of every kind and generated content; oracle: table of the kinds taken', ''),
    'C30': ('stateful histories of wallets; oracles: a node of our own (codec, proofs, balance, ECDSA and BIP340 verification) and a ledger', ''),
    'C31': ('generated operations in threads under a deterministic line-level scheduler (generated and systematic preemption); oracle: the same programs one after the other', TRUST_ZKP),
    'C32': ('generated transactions, keys and destinations given to the example programs, swaps with a simulated daemon; oracle: reference model and a consensus node of our own', TRUST_ZKP),
    'C33': ('generated pairs that differ in any field or bit and edit histories; oracle: equality of reference encodings', TRUST_CODEC),
    'C28': ('fault injection at every library call and random read of generated requests', TRUST_ZKP),
}


def main():
    props = [json.loads(li) for li in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'vf', 'checks', pid.lower() + '.py')):
            tech, note = T[pid]
            checks.append(dict(
                property=pid, quick_cmd='./run.py %s' % pid,
                thorough_cmd='./run.py %s --tier thorough' % pid,
                evidence_file='evidence/%s.json' % pid,
                technique='property-based testing: ' + tech,
                level='exploration',
                level_note=('No counterexample among the generated cases (counts in the evidence file); '
                            'not a proof. ' + note).strip()))
        else:
            na.append(dict(property=pid, reason='no check built yet'))
    m = dict(version=1, setup_cmd='./run.py --setup', checks=checks, not_applicable=na,
             notes='No hooks in /repo are needed. VERIF_SEED selects the cases, VERIF_TIER the depth; '
                   './run.py --replay FILE re-runs a recorded case.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
