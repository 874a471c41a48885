"""mkbug.py ID PROPERTY: makes seeded/ID from /tmp/bugs/ID.py, which defines needs, breaks, edits = [(file, old, new)], demo."""
import json, os, shutil, subprocess, sys
bid = sys.argv[1]
ns = {}
exec(open('/tmp/bugs/%s.py' % bid).read(), ns)
S = '/tmp/scr/wt'
if not os.path.isdir(S):
    subprocess.run(['git', 'clone', '-q', '/repo', S], check=True)
subprocess.run('git fetch -q origin && git reset -q --hard $(git -C /repo rev-parse HEAD) && git clean -qfd', shell=True, cwd=S, check=True)
for f, old, new in ns['edits']:
    p = os.path.join(S, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(p, 'w').write(s.replace(old, new))
d = '/verif/seeded/%s' % bid
os.makedirs(d, exist_ok=True)
diff = subprocess.run(['git', 'diff'], cwd=S, capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
json.dump(dict(property=ns['prop'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.cpp', 'w').write(ns['demo'].lstrip('\n'))
for f in ('demo.sh', 'common.h'):
    shutil.copy('/verif/tools/demo/' + f, d)
