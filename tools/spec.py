"""Source of properties.jsonl and MANIFEST.json: python3 tools/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = 'src/pyinterp/core/'
INC = CORE + 'include/pyinterp/'


def M(where, what):
    return {'name': what, 'where': where}


P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note, state=state))


NOTE = ('Exhaustive within the stated bounds, on the code itself, against an '
        'independent reference model; nothing is claimed beyond the bounds. '
        'Trusted: the model, numpy, the compiler, the patched pybind11 '
        'headers of the harness build (-O1, assertions on).')

exec(open(os.path.join(HERE, 'tools', 'props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = {'files': p['files'],
                       'mechanism': p['mechanism']}
            if p['state']:
                anchors['state'] = p['state']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')):
            checks.append({
                'property': p['id'],
                'quick_cmd': f'bash run {p["id"]}',
                'thorough_cmd': f'VERIF_TIER=thorough bash run {p["id"]}',
                'evidence_file': f'evidence/{p["id"]}.json',
                'technique': p['technique'],
                'level': 'model_checking',
                'level_note': p['note'],
            })
        else:
            na.append({'property': p['id'],
                       'reason': 'not claimed: its check is not built'})
    manifest = {
        'version': 1,
        'setup_cmd': 'bash tools/setup.sh',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks: nothing in /repo is instrumented. Known findings '
                 'and repaired defects are in KNOWN_FINDINGS.',
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
