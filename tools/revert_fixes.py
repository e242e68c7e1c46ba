#!/usr/bin/env python3
"""Reverts each fix: commit in a scratch copy and reports whether the check of its property notices: revert_fixes.py PROPERTY..."""
import os
import re
import shutil
import subprocess
import sys
import tempfile

for prop in sys.argv[1:]:
    for line in open('/verif/KNOWN_FINDINGS.txt'):
        m = re.match(r'fixed: property=(\w+) (\w+) ', line)
        if not m or m.group(1) != prop:
            continue
        d = tempfile.mkdtemp(prefix='rv_')
        repo = os.path.join(d, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', repo])
        r = subprocess.run(['git', '-C', repo, 'revert', '--no-commit', m.group(2)], capture_output=True)
        if r.returncode:
            print(prop, m.group(2), 'does not revert cleanly')
        else:
            out = subprocess.run([sys.executable, '/verif/check.py', prop], env=dict(os.environ, QTUNE_REPO=repo), capture_output=True, text=True)
            print(prop, m.group(2), 'rc', out.returncode, re.findall(r'claim ".*?" fails', out.stdout)[:3])
        shutil.rmtree(d)
