"""plantr(id, edits, needs, breaks, script): a planted bug of the runner; the demonstration is a shell script after run.sh"""
import sys; sys.path.insert(0, '/verif/tools/dev')
from plant import *
def plantr(id, edits, needs, breaks, script):
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain', '-uno'])
    for e in edits: rep(*e)
    d = V + id; os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', '/repo', 'diff']))
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    shutil.copy(D + 'run.cpp', d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n' + open(D + 'run.sh').read() + script)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property='U01', needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    subprocess.call(['bash', '/verif/tools/dev/try.sh', id])
