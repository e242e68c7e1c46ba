"""Writes the table of planted bugs into DESIGN.md; with -r runs the checks first (found by)."""
import json, os, re, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
store = os.path.join(V, 'seeded')
rows = []
book = os.path.join(V, 'tools', 'found.json')
found = json.load(open(book)) if os.path.exists(book) else {}
for d in sorted(os.listdir(store)):
    m = json.load(open(os.path.join(store, d, 'meta.json')))
    if '-r' in sys.argv or d not in found:
        work = tempfile.mkdtemp(prefix='seed_')
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        r = subprocess.run(['git', 'apply', os.path.join(store, d, 'patch.diff')], cwd=repo)
        assert r.returncode == 0, d
        r = subprocess.run(['python3', os.path.join(V, 'check.py'), m['property']], env=dict(os.environ, QTUNE_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        # the detail line follows the VIOLATION line
        why = [l.strip() for l in r.stdout.splitlines() if 'claim "' in l]
        found[d] = (re.sub(r' fails:.*', '', why[0]) if why else ('exit %d' % r.returncode))
        json.dump(found, open(book, 'w'), indent=1, sort_keys=True)
        shutil.rmtree(work)
        print(d, found[d], flush=True)
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], found[d]))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
t = '<!-- seeds -->\n| id | property | needs | found by |\n|----|----|----|----|\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
