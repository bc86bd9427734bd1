"""make and verify planted bugs: python3 tools/mkseeds.py [id ...]; definitions in tools/seeds.py"""
import json
import os
import shutil
import subprocess
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.seeds import SEEDS      # noqa: E402
PY = '/opt/pypyvenv/bin/python'
STABLE = [x.split('::')[-1] for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
DEMO = '#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore timeout 280 %s "$(dirname "$0")/demo.py"\n' % PY


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(H, 'seeded', s['id'])
        if not want and os.path.exists(os.path.join(d, 'meta.json')):
            continue
        t = '/tmp/seedwork'
        shutil.rmtree(t, ignore_errors=True)
        subprocess.check_call(['git', 'clone', '-q', '/repo', t])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        a = run(['bash', d + '/demo.sh'], t)
        for f, old, new in s['edits']:
            p = os.path.join(t, f)
            x = open(p).read()
            assert x.count(old) == 1, (s['id'], f, old, x.count(old))
            open(p, 'w').write(x.replace(old, new))
        diff = run(['git', 'diff'], t).stdout
        open(d + '/patch.diff', 'w').write(diff)
        b = run(['bash', d + '/demo.sh'], t)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
        c = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--randomly-seed=4', '--randomly-dont-reorganize',
                 '--continue-on-collection-errors', '-vv', 'structrans/crystallography/test'], t, env=env)
        ok = [n for n in STABLE if any(n in l and 'PASSED' in l for l in c.stdout.splitlines())]
        good = a.returncode == 0 and b.returncode != 0 and len(ok) == len(STABLE)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], 'OK' if good else 'BAD', 'demo', a.returncode, b.returncode, 'tests %d/%d' % (len(ok), len(STABLE)), flush=True)
        if not good:
            print(a.stdout[-600:], b.stdout[-600:], c.stdout[-800:] if len(ok) < len(STABLE) else '')
            shutil.rmtree(d)
        shutil.rmtree(t)


main()
