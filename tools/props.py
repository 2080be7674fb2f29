"""The property table: generates properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    PROPS.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                             anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                          mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=None)),
                      technique=technique, note=note))


exec(open(f'{V}/tools/proplist.py').read())

with open(f'{V}/properties.jsonl', 'w') as f:
    for x in PROPS:
        assert len(x['p']['title']) <= 80, x['p']['title']
        f.write(json.dumps(x['p'], ensure_ascii=False) + '\n')
have = [x for x in PROPS if os.path.exists(f'{V}/checks/{x["p"]["id"].lower()}.py')]
man = dict(version=1, setup_cmd='bash setup.sh',
           checks=[dict(property=x['p']['id'], quick_cmd=f'VERIF_TIER=quick bash run.sh {x["p"]["id"]}',
                        thorough_cmd=f'VERIF_TIER=thorough bash run.sh {x["p"]["id"]}', evidence_file=f'evidence/{x["p"]["id"]}.json',
                        technique=x['technique'], level='exploration', level_note=x['note']) for x in have],
           not_applicable=NA + [dict(property=x['p']['id'], reason='Its check is not built yet.') for x in PROPS if x not in have],
           notes='No hooks: /repo carries only fix: commits, listed in known-findings.json. Checks import UnicodeData from /repo\'s '
                 'working tree (pure Python, nothing to build) and write only under evidence/ and a scratch directory they remove.')
json.dump(man, open(f'{V}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
print(len(have), 'claimed,', len(PROPS) - len(have), 'not yet')
