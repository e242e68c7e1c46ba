"""Replay of solver models against the real, unpatched code.

    replay.py FILE             run the counterexample stored in FILE, exit 1 if the violation shows
    replay.py --server PROP    used by check.py: JSON jobs on stdin, JSON results on stdout
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import engine  # noqa: E402


def main():
    engine.setup_path()
    if sys.argv[1] == '--server':
        out = os.fdopen(os.dup(1), 'w')
        os.dup2(2, 1)
        prop = sys.argv[2]
        engine.load_harnesses(prop)
        for line in sys.stdin:
            job = json.loads(line)
            try:
                res = engine.run_concrete(prop, job['harness'], job['cfg'], job['values'])
            except Exception as err:
                res = dict(status='harness-error', traceback=repr(err), violations=[], reached={}, near=False, missing=[])
            out.write(json.dumps(res, default=str) + '\n')
            out.flush()
        return 0
    job = json.load(open(sys.argv[1]))
    engine.load_harnesses(job['property'])
    res = engine.run_concrete(job['property'], job['harness'], job['cfg'], job['values'])
    print('property %s, harness %s, bounds %s' % (job['property'], job['harness'], job['cfg']))
    print('inputs: %s' % json.dumps(job['values']))
    for label, detail in res['violations']:
        print('VIOLATED: %s  %s' % (label, detail))
    if res.get('traceback'):
        print(res['traceback'])
    print('status: %s' % res['status'])
    return 1 if res['violations'] else 0


if __name__ == '__main__':
    sys.exit(main())
