"""mkseed.py SPEC.json: lay out /verif/seeded/<id> from a description.

{"id":..., "property":..., "needs":..., "what_it_breaks":...,
 "edits": [[file relative to /repo, old, new], ...],
 "cpp": body of a demonstration (C++), or "files": {name: text}, "sh": ...}
"""
import json
import os
import subprocess
import sys

REPO = os.environ.get('SEED_REPO', '/repo')
HEAD = '''#!/bin/bash
# exit 0: the property holds; run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
'''
CPP = HEAD + '''numpy='import numpy, os; print(os.path.dirname(numpy.__path__[0]))'
export PYTHONPATH=$(python3-vt -c "$numpy" 2>/dev/null || python3 -c "$numpy")
g++ -std=c++17 -O1 -w -DHAVE_IEC559 -I/usr/include/eigen3 \\
  -Isrc/pyinterp/core/include -Ithird_party/pybind11/include \\
  $(python3-config --includes) "$here/demo.cpp" {extra} -o "$tmp/demo" \\
  -lpthread {libs} $(python3-config --embed --ldflags) || exit 2
"$tmp/demo"
'''


def main(s):
    d = f'/verif/seeded/{s["id"]}'
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        p = REPO + '/' + f
        t = open(p).read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', '-C', REPO, 'diff'],
                          capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')},
              open(d + '/meta.json', 'w'), indent=1)
    for n, t in s.get('files', {}).items():
        open(f'{d}/{n}', 'w').write(t)
    if 'cpp' in s:
        open(d + '/demo.cpp', 'w').write(s['cpp'])
        sh = CPP.format(extra=s.get('extra', ''), libs=s.get('libs', ''))
    else:
        sh = HEAD + s['sh']
    open(d + '/demo.sh', 'w').write(sh)
    os.chmod(d + '/demo.sh', 0o755)


if __name__ == '__main__':
    x = json.load(open(sys.argv[1]))
    for s in x if isinstance(x, list) else [x]:
        main(s)
