"""Writes properties.jsonl and MANIFEST.json. Run it by hand; no check does."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from catalogue import PROPERTIES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES:
        assert len(p['title'])<=80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quantifier']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                         observe_at=p['observe'], hook_needed=None)))+'\n')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(
        version=1, setup_cmd='true',
        checks=[dict(property=p['id'],
                     quick_cmd=f"./run.sh {p['id']} quick",
                     thorough_cmd=f"./run.sh {p['id']} thorough",
                     evidence_file=f"evidence/{p['id']}.json",
                     technique=p['technique'], level='model_checking',
                     level_note=p['note']) for p in PROPERTIES],
        not_applicable=[],
        notes='No hooks: /repo has only fix: commits.'), f, indent=1)
    f.write('\n')
for p in PROPERTIES:
    n = p['statement'].count('. ')+1
    if n>3: print(p['id'], n, 'sentences')
