"""plants(id, prop, edits, needs, breaks, main[, extra]): like plant.py for the service; works in a copy of /repo ($R) and reports demo results"""
import subprocess, os, json, shutil, sys
R = os.environ.get('R', '/repo'); V = os.environ.get('V', '/verif'); D = os.path.dirname(os.path.abspath(__file__)) + '/demo/'
def rep(p, a, b, n=1):
    p = R + '/src/' + p; s = open(p, newline='').read()
    if '\r\n' in s: a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
    if s.count(a) != n: subprocess.call(['git', '-C', R, 'checkout', '-q', '--', '.']); sys.exit("count %d in %s: %s" % (s.count(a), p, a))
    open(p, 'w', newline='').write(s.replace(a, b))
def plants(id, prop, edits, needs, breaks, demo):
    assert not subprocess.check_output(['git', '-C', R, 'status', '--porcelain', '-uno'])
    d = V + '/seeded/' + id; os.makedirs(d, exist_ok=True)
    for f in ('d.hpp', 'e.hpp', 's.hpp', 'ann.cpp'): shutil.copy(D + f, d)
    shutil.copy(D + 'sdemo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(d + '/stub', ignore_errors=True); shutil.copytree(D + '../../../sim/svc/stub', d + '/stub')
    open(d + '/demo.cpp', 'w').write('#include "d.hpp"\n#define DEMO_ENGINE\n#include "e.hpp"\n#include "s.hpp"\n' + demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    r0 = subprocess.call(['bash', d + '/demo.sh'], cwd=R, stdout=open('/tmp/pl0', 'w'), stderr=subprocess.STDOUT)
    for e in edits: rep(*e)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', R, 'diff']))
    r1 = subprocess.call(['bash', d + '/demo.sh'], cwd=R, stdout=open('/tmp/pl1', 'w'), stderr=subprocess.STDOUT)
    c = ''
    if os.environ.get('CHECK'): c = subprocess.call(os.environ['CHECK'].replace('PROP', prop), shell=True)
    subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    print(id, 'clean-demo', r0, 'bug-demo', r1, [l.strip() for l in open('/tmp/pl1', errors='replace') if 'FAILED' in l], 'check', c, flush=True)
