"""writes MANIFEST.json: every rules/cNN.py is a claimed check"""
import json, os, glob, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/rules')
sys.path.insert(0, V + '/engine')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C22': 'Acceptance of exactly the language ranges over all token sequences and all grammars: it needs an inductive argument about runtime stack contents (and is known not to hold for malformed input: the parser reports a mismatch and goes on). No dataflow or typestate argument in reach bounds it; the parts a static analysis can settle are C09-C12.',
 'C23': 'Stack depth is a runtime quantity that depends on the nesting of the input; every recursion here is structural over the input and no static bound exists for it.',
}
checks, na = [], []
for p in props:
    i = p['id']
    f = V + '/rules/%s.py' % i.lower()
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(f):
        m = importlib.import_module(i.lower())
        checks.append({
            'property': i,
            'quick_cmd': 'bash check.sh %s quick' % i,
            'thorough_cmd': 'bash check.sh %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': getattr(m, 'TECHNIQUE', 'static analysis: path-partitioned abstract interpretation of MIR into guarded-effect summaries, compared with the specified summary'),
            'level': 'other',
            'level_note': getattr(m, 'NOTE', 'Decided on every path of the current MIR for all inputs; trusts rustc\'s MIR construction, the std models in engine/models.py and the summariser; code in a shape the rules do not recognise is reported as undecided in the evidence, not as a violation.'),
        })
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
json.dump({'version': 1,
           'setup_cmd': 'bash setup.sh',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the checks read the MIR of the unmodified crate through a rustc driver (driver/).'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
