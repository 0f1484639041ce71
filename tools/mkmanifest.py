#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MB = 'TLA+ specification checked by TLC; '
REPLAY = MB + 'model values, encodings and mutations replayed into library, generated and shipped code'
NOTE_X = ('TLC checks the XDR semantics (round trip, prefix-freedom, bounds) on every representative value of every enumerated and random '
          'declaration form, and each is replayed into the real code; verdicts come from the real code only. Values are representatives (all '
          'boundary lengths, all arms, integer extremes), not all values. Trusted: TLC, the Go toolchain, the replay driver.')
CHECKS = {
    'C01': (REPLAY, NOTE_X + ' The stream state machine (XdrStream) is explored exhaustively to depth 3 and randomly to depth 12.'),
    'C02': (REPLAY, NOTE_X + ' Each value is decoded into a fresh and two dirty destinations, with bytes following it.'),
    'C03': (REPLAY, NOTE_X + ' Adversarial inputs are word mutations of encodings, all prefixes, huge claimed lengths, and long lists; allocation is measured.'),
    'C04': (REPLAY, NOTE_X + ' Lengths at, just below and beyond each bound, up to 2^20 for opaque data and strings.'),
    'C05': (REPLAY, NOTE_X + ' Includes user-written codecs that set an error inside generated types.'),
    'C06': (REPLAY, NOTE_X + ' Every decoded byte field of every value is overwritten and appended to.'),
    'C07': (MB + 'enumerated and random .x definitions compiled by the generator and replayed', NOTE_X + ' Declaration forms are enumerated: every declarator over every type specifier in six places, all discriminant kinds; option sets rotate.'),
    'C10': (MB + 'RFC schemas in TLA+ replayed into the shipped packages', NOTE_X + ' The schemas in SunRpc.tla and Nfs3.tla were transcribed from the RFCs and reviewed; they are the oracle.'),
}
CHECKS.update(json.load(open(os.path.join(V, 'tools', 'more-checks.json'))) if os.path.exists(os.path.join(V, 'tools', 'more-checks.json')) else {})
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Specifications are in TLA+ (tla/), checked with TLC; DESIGN.md says how each is bound to the code. No hooks in /repo are needed.'}
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'its check is still being built'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
