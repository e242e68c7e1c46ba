"""Planting of bugs: makes /verif/seeded/<id> from edits, and verifies them in a scratch copy of the repository.

plant(id, prop, edits, needs, what, demo): edits are (file, old, new); demo is the source of demo.py (imports qtune
from the current directory, exits non-zero if the property is broken)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', QT_QPA_PLATFORM='offscreen')

HEAD = '''"""%s"""
import os
import sys
import warnings

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np
import pandas as pd


'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(ENV, **kw))


def stable(cwd):
    names = json.load(open('/opt/vp/BASELINE.json'))['stable']
    r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-rA', 'tests'], cwd)
    passed = [l.split()[1] for l in r.stdout.splitlines() if l.startswith('PASSED')]
    key = lambda n: n.split('::')[-1].split('.')[-1]
    missing = [n for n in names if key(n) not in {key(p) for p in passed}]
    return missing, r.stdout


def plant(id, prop, edits, needs, what, demo, check=True):
    d = os.path.join(VERIF, 'seeded', id)
    work = tempfile.mkdtemp(prefix='plant_')
    ok = True
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        sh(['git', 'checkout', '-q', '--', '.'], repo)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD % what.replace('"""', '') + demo.strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nMPLBACKEND=Agg exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh(['bash', os.path.join(d, 'demo.sh')], repo)
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT MATCHES', s.count(old), 'TIMES', repr(old))
                return False
            open(p, 'w').write(s.replace(old, new))
        patch = sh(['git', 'diff'], repo).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        r1 = sh(['bash', os.path.join(d, 'demo.sh')], repo)
        missing, out = stable(repo)
        # only lines of the original repository may be changed
        added = set()
        for line in sh(['git', 'diff', '-U0', '9ee5493', 'HEAD', '--', 'qtune'], '/repo').stdout.splitlines():
            if line.startswith('+') and not line.startswith('+++'):
                added.add(line[1:].strip())
        own = [l for l in patch.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip() in added and l[1:].strip()]
        print('%s: clean %d, patched %d, missing tests %s, changes own lines %s' % (id, r0.returncode, r1.returncode, missing, own))
        if r0.returncode:
            print(r0.stdout[-1500:])
            ok = False
        if not r1.returncode:
            print('DEMO DOES NOT FAIL', r1.stdout[-500:])
            ok = False
        elif 'AssertionError' not in r1.stdout:
            print('   patched output:', r1.stdout.strip().splitlines()[-1:])
        ok = ok and not missing
        if check:
            r2 = sh([sys.executable, os.path.join(VERIF, 'check.py'), prop], VERIF, QTUNE_REPO=repo)
            lines = [l for l in r2.stdout.splitlines() if 'claim "' in l or 'NOT-ENC' in l or 'PROBLEM' in l or 'VACUOUS' in l]
            print('   check %s: exit %d %s' % (prop, r2.returncode, [l[:160] for l in lines[:2]]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return ok
