"""Writes MANIFEST.json (run by hand)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'symbolic execution (LLVM IR) of the generated parser with z3, token sequence symbolic, against an independent automaton'
NOTE_A = ('Exhaustive for every token sequence and payload up to the stated length, per catalogue grammar expanded by the real macro. '
          'Trusted: the executor (its runs are compared with native ones), z3, the catalogue grammars standing for all grammars, the independent Python grammar analysis.')
checks = {
    'C01': (A, NOTE_A), 'C02': (A, NOTE_A), 'C03': (A.replace('an independent automaton', 'a replay of the actions as a derivation'), NOTE_A),
    'C04': (A, NOTE_A), 'C05': (A, NOTE_A), 'C06': (A.replace('against an independent automaton', 'with panics and a step budget as violations'), NOTE_A),
    'C10': (A + ', every entry point', NOTE_A),
}
B = "symbolic execution (LLVM IR) of the generator's own modules with z3, grammar symbolic, against an independent %s"
NOTE_B = ('Exhaustive for every grammar of the stated shapes and for every replacement of one production of a catalogue grammar up to the stated length. '
          'Trusted: the executor (its runs are compared with native ones), z3, the independent reference in the harness. Larger grammars are outside the claim.')
checks.update({
    'C07': (B % 'fixpoint', NOTE_B), 'C08': (B % 'canonical LR(1) construction (lockstep isomorphism)', NOTE_B),
    'C09': (B % 'canonical LR(1) conflict search', NOTE_B), 'C12': (B.replace('grammar symbolic', 'declarations and references symbolic') % 'name resolution', NOTE_B),
})
exec(open(os.path.join(V, 'lib', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'lib', 'manifest_more.py')) else None
na = globals().get('na', {})
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
doc = {
    'version': 1,
    'setup_cmd': 'cargo +stable build --offline --release --manifest-path symex/Cargo.toml',
    'checks': [],
    'not_applicable': [],
}
for p in props:
    i = p['id']
    if i in checks:
        t, n = checks[i]
        doc['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                              'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        doc['not_applicable'].append({'property': i, 'reason': na.get(i, 'no check yet')})
json.dump(doc, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
