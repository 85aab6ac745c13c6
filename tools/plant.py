"""Record a planted bug (development aid).

plant(id, property, edits, demo, needs, breaks): edits are (file, old, new)
applied to a scratch copy of /repo; the demonstration must pass on the clean
copy and fail on the changed one, and the stable tests must still pass.
"""
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=src exec %s "$(dirname "$0")/demo.py"
''' % PY


def demo_run(repo, folder):
    r = subprocess.run(['bash', folder + '/demo.sh'], cwd=repo, timeout=280,
                       capture_output=True, text=True)
    return r.returncode, (r.stdout + r.stderr)[-500:]


def plant(id, prop, edits, demo, needs, breaks, tests=True):
    tmp = tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'list'],
                       capture_output=True)
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        out = tmp + '/out'
        os.mkdir(out)
        open(out + '/demo.py', 'w').write(demo.strip() + '\n')
        open(out + '/demo.sh', 'w').write(SH)
        rc, msg = demo_run(repo, out)
        if rc:
            print(id, 'demo FAILS on the clean tree:', msg)
            return False
        for f, old, new in edits:
            p = repo + '/src/' + f
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'pattern found %d times: %r' % (s.count(old), old))
                return False
            open(p, 'w').write(s.replace(old, new))
        rc, msg = demo_run(repo, out)
        if rc == 0:
            print(id, 'demo passes with the change')
            return False
        print(id, 'demo:', msg.strip().splitlines()[-1])
        d = subprocess.run(['git', '-C', repo, 'diff', 'HEAD', '--',
                            'src/*.py'], capture_output=True, text=True).stdout
        if tests:
            r = subprocess.run(['bash', '/tmp/st.sh', repo],
                               capture_output=True, text=True).stdout.strip()
            if not r.endswith('[]'):
                print(id, 'tests notice:', r[:200])
                return False
        # the lines changed must be lines of the original repository
        base = subprocess.run(['git', '-C', '/repo', 'rev-list',
                               '--max-parents=0', 'HEAD'],
                              capture_output=True, text=True).stdout.split()[0]
        for f, old, new in edits:
            o = subprocess.run(['git', '-C', '/repo', 'show', '61338fa:src/'
                                + f], capture_output=True, text=True).stdout
            lines = [l for l in old.splitlines() if l not in
                     new.splitlines() and l.strip()]
            for l in lines:
                if l not in o:
                    print(id, 'WARNING: not an original line:', l)
        open(out + '/patch.diff', 'w').write(d)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(out + '/meta.json', 'w'), indent=1)
        dst = VERIF + '/seeded/' + id
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(out, dst)
        print(id, 'kept')
        return True
    finally:
        shutil.rmtree(tmp)
