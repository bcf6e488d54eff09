"""Updates costs.json from the evidence files of the last runs."""
import glob
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PATH = os.path.join(HERE, 'costs.json')
costs = json.load(open(PATH)) if os.path.exists(PATH) else {}
for f in sorted(glob.glob(os.path.join(HERE, '../evidence/C*.json'))):
    d = json.load(open(f))
    c = d['coverage']
    costs.setdefault(d['property'], {})[d['tier']] = (
        f'{d["wall_s"]:.0f} s, {c["states"]} states, {c["transitions"]} '
        f'transitions, {c["traces_validated_against_impl"]} traces')
json.dump(costs, open(PATH, 'w'), indent=1, sort_keys=True)
