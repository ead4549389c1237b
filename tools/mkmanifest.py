#!/usr/bin/env python3
"""Writes MANIFEST.json: the properties with a check, and why the others have none."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    import importlib, sys
    sys.path[:0] = [V, os.path.join(V, 'tools')]
    import notes
    NOTES.update(notes.NOTES)
    for p in props:
        i = p['id']
        if i in NOTES:
            t, n = NOTES[i][:2]
            checks.append({'property': i, 'quick_cmd': 'python3 run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': NOTES[i][2] if len(NOTES[i]) > 2 else 'model_checking', 'level_note': n})
        else:
            na.append({'property': i, 'reason': 'no check built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'hooks': {'guard': '--cfg pgcst_verif, --cfg pgcst_verif_scan', 'enable': 'RUSTFLAGS="--cfg pgcst_verif --cfg pgcst_verif_scan"',
         'source_commits': []}, 'checks': checks, 'not_applicable': na,
         'notes': 'TLA+ with TLC. Every check builds its harness from /repo, records behaviour, and lets TLC decide conformance.'}
    full = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^verif:'], capture_output=True, text=True).stdout.split()
    m['hooks']['source_commits'] = full
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
if __name__ == '__main__':
    main()
