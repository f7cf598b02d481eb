"""plant(id, prop, edits, needs, breaks, demo): make /verif/seeded/<id> from edits to /repo, leaving /repo clean"""
import sys, subprocess, os, json, shutil
sys.path.insert(0, '/verif/tools/dev')
V = '/verif/seeded/'; D = os.path.dirname(os.path.abspath(__file__)) + '/demo/'
def rep(p, a, b, n=1):
    p = '/repo/src/' + p; s = open(p, newline='').read()
    if '\r\n' in s: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
    if s.count(a) != n: subprocess.call(['git', '-C', '/repo', 'checkout', '-q', '--', '.']); sys.exit("count %d in %s: %s" % (s.count(a), p, a))
    open(p, 'w', newline='').write(s.replace(a, b))
def plant(id, prop, edits, needs, breaks, demo, engine=False):
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain', '-uno'])
    for e in edits: rep(*e)
    d = V + id; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', '/repo', 'diff']))
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    shutil.copy(D + 'd.hpp', d); shutil.copy(D + 'demo.sh', d); os.chmod(d + '/demo.sh', 0o755)
    if engine:
        shutil.copy(D + 'e.hpp', d); shutil.copy(D + 'ann.cpp', d)
    open(d + '/demo.cpp', 'w').write('#include "d.hpp"\n' + ('#define DEMO_ENGINE\n#include "e.hpp"\n' if engine else '') + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    subprocess.call(['bash', '/verif/tools/dev/try.sh', id])
