"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os
import plan
ROOT = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
checks = []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(l)['id']
    if pid not in plan.P:
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f'bin/check {pid} quick',
        thorough_cmd=f'bin/check {pid} thorough',
        evidence_file=f'evidence/{pid}.json',
        technique='TLA+ specification checked with TLC; traces of the real code validated against it'
                  + (', and every transition of a bounded model replayed into the real code' if plan.P[pid].get('gw') else ''),
        level='model_checking',
        level_note=plan.P[pid].get('note') or plan.NOTE,
    ))
doc = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=[],
           hooks=dict(guard='cfg sparsey_verif',
                      enable="RUSTFLAGS='--cfg sparsey_verif' (set by bin/setup and tools/runner.py when they build the harness)",
                      source_commits=['cf6f13d']),
           notes='See DESIGN.md. Exit 2 means the check itself could not run.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
