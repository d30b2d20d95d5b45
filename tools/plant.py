"""Regenerates /verif/seeded/<id>/ from tools/planted.py (patch.diff, demo.sh, demo.st, expected, meta.json)."""
import os, sys, json, subprocess, difflib
sys.path.insert(0, os.path.dirname(__file__))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# prints what the built image answers and compares it with the expected text
d=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C
out=$(timeout 120 ./gst -q -I gst.im --kernel-directory=kernel "$d/demo.st" 2>&1)
if [ "$out" = "$(cat "$d/expected.txt")" ]; then echo same; exit 0; fi
echo "differs:"; printf '%s\\n' "$out" | head -20; exit 1
'''
def main(only=None):
    from planted import BUGS
    for b in BUGS:
        if only and b['id'] not in only: continue
        d = os.path.join(V, 'seeded', b['id']); os.makedirs(d, exist_ok=True)
        patch = ''
        files = {}
        for f, old, new in b['edits']:
            src = files.get(f) or [open('/repo/' + f, encoding='latin-1').read()] * 2
            assert src[1].count(old) == 1, (b['id'], f, src[1].count(old))
            files[f] = [src[0], src[1].replace(old, new)]
        for f, (x, y) in files.items():
            dd = list(difflib.unified_diff(x.splitlines(1), y.splitlines(1), 'a/' + f, 'b/' + f))
            patch += 'diff --git a/%s b/%s\n' % (f, f) + ''.join(dd)
        open(d + '/patch.diff', 'w', encoding='latin-1').write(patch)
        subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
        for name, text in b.get('files', {}).items(): open(os.path.join(d, name), 'w').write(text)
        if 'st' in b:
            open(d + '/demo.st', 'w').write(b['st']); open(d + '/demo.sh', 'w').write(b.get('sh', DEMO))
            open(d + '/expected.txt', 'w').write(b['expected'])
        else: open(d + '/demo.sh', 'w').write(b['sh'])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        open(d + '/meta.json', 'a').write('\n')
        r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        print(b['id'], 'demo on /repo:', r.returncode, r.stdout[:300] if r.returncode else '')
main(sys.argv[1:])
