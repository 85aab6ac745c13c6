"""Run the check of each planted bug's property on a patched copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor


def one(i):
    p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    t = tempfile.mkdtemp(prefix='seed')
    try:
        shutil.copytree('/repo', t + '/repo', symlinks=True)
        r = subprocess.run(['git', '-C', t + '/repo', 'apply',
                            '%s/seeded/%s/patch.diff' % (V, i)],
                           capture_output=True, text=True)
        if r.returncode:
            return i, 'patch does not apply: ' + r.stderr[:200]
        r = subprocess.run(['python3-vt', V + '/check.py', p, 'quick'], cwd=V,
                           env=dict(os.environ, QSA_REPO=t + '/repo'),
                           capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        return i, '%s rc=%d %s' % ('caught' if v and r.returncode == 1
                                   else 'MISSED', r.returncode,
                                   (v or [r.stdout[-300:] + r.stderr[-300:]])[0][:150])
    finally:
        shutil.rmtree(t)


ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, ids):
        print(i, m, flush=True)
