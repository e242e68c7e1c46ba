#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for the code in /repo by symbolic execution + SMT.

exit 0: the property held on everything explored; exit 1: VIOLATION line; exit 2: no verdict (machinery problem)."""
import argparse
import concurrent.futures
import json
import multiprocessing
import os
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('SYMX_REEXEC'):
    os.environ['SYMX_REEXEC'] = '1'
    os.execv(VENV, [VENV, '-B'] + sys.argv)
sys.path.insert(0, VERIF)
from symx import engine  # noqa: E402


def known_findings():
    """Lines 'KNOWN-FINDING: property=ID harness=NAME claim=LABEL :: what fails' of KNOWN_FINDINGS.txt."""
    res = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('KNOWN-FINDING:'):
                head, _, text = line[len('KNOWN-FINDING:'):].partition('::')
                head, _, claim = head.partition('claim=')
                fields = dict(f.split('=', 1) for f in head.split())
                res.append(dict(fields, claim=claim.strip(), text=text.strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--setup', action='store_true', help='check that the tools are there; nothing has to be built')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.setup:
        engine.setup_path()
        import z3
        import qtune
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        print('z3 %s, python %s, qtune from %s' % (z3.get_version_string(), sys.version.split()[0], os.path.dirname(qtune.__file__)))
        return 0
    if not args.property:
        ap.error('property missing')
    os.environ['VERIF_TIER'] = args.tier
    prop, tier = args.property, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = float(os.environ.get('SYMX_SECONDS', '600' if tier == 'quick' else '820'))
    engine.setup_path()
    try:
        from symx import patches
        patches.install()
        patches.inject_qtune()
        hs = engine.load_harnesses(prop)
        patches.inject_qtune()
    except Exception:
        import traceback
        traceback.print_exc()
        print('no verdict: the code under test does not import')
        return 2
    if args.harness:
        hs = [h for h in hs if h.name in args.harness.split(',')]
    if not hs:
        print('no harness for %s' % prop)
        return 2
    deadline = t0 + limit
    jobs = [(prop, h.name, cfg, seed, deadline) for h in hs for cfg in (h.quick if tier == 'quick' else h.thorough)]
    results = []
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    scratch = tempfile.TemporaryDirectory(prefix='cwd_', dir=os.path.join(VERIF, 'evidence'))       # the code under test may write files where it is
    here = os.getcwd()
    os.chdir(scratch.name)
    replayer = engine.Replayer(prop)
    replayer._start()
    with concurrent.futures.ProcessPoolExecutor(args.jobs, mp_context=multiprocessing.get_context('fork')) as pool:
        futs = {pool.submit(engine.run_symbolic, j): j for j in jobs}
        for f in concurrent.futures.as_completed(futs):
            try:
                results.append(f.result())
            except Exception as err:
                j = futs[f]
                results.append(dict(harness=j[1], cfg=j[2], stats={}, notes={}, cexs=[], inconclusive=[], unencoded=[],
                                    harness_errors=['worker died: %r' % err], concolic_paths=0, reached={}, models=[],
                                    functions=[], library_models={}, missing=[], wall=0.))
    order = {(j[1], json.dumps(j[2])): i for i, j in enumerate(jobs)}
    results.sort(key=lambda r: order[r['harness'], json.dumps(r['cfg'])])

    # ---- replay --------------------------------------------------------------------------------------------------
    known = [k for k in known_findings() if k.get('property') == prop]
    confirmed, unconfirmed, known_hit = [], [], []
    problems, undecided = [], []
    validated = diverged = concolic = 0
    for r in results:
        problems += ['%s%s: %s' % (r['harness'], r['cfg'], e) for e in r['harness_errors']]
        undecided += ['%s%s: %s' % (r['harness'], r['cfg'], e) for e in r['inconclusive']]
        concolic += r['concolic_paths']
        for claim, models, detail in r['cexs']:
            hit = None
            for values in models:
                res = replayer.run(r['harness'], r['cfg'], values)
                if claim == 'no unexpected exception' and not res['violations'] and res.get('unusable'):
                    res['violations'] = res['unusable']
                if res['violations']:
                    same = [v for v in res['violations'] if v[0].split(' (')[0] == claim.split(' (')[0]]
                    label, why = (same or res['violations'])[0]
                    hit = dict(harness=r['harness'], cfg=r['cfg'], claim=label, detail=why, symbolic=detail, values=values,
                               traceback=res.get('traceback'))
                    break
            if hit is None:
                unconfirmed.append('%s%s: %s (%s) %s' % (r['harness'], r['cfg'], claim, detail, models[-1] if models else None))
                continue
            k = next((k for k in known if k.get('harness') == hit['harness'] and k['claim'] in hit['claim']), None)
            (known_hit.append((k, hit)) if k else confirmed.append(hit))
        for detail, values in r['unencoded']:
            if values is None:
                unconfirmed.append('%s%s: %s' % (r['harness'], r['cfg'], detail))
                continue
            res = replayer.run(r['harness'], r['cfg'], values)
            if res['violations']:
                confirmed.append(dict(harness=r['harness'], cfg=r['cfg'], claim=res['violations'][0][0], detail=res['violations'][0][1],
                                      symbolic=detail, values=values, traceback=res.get('traceback')))
            else:
                unconfirmed.append('%s%s: %s' % (r['harness'], r['cfg'], detail))
        for values in r['models']:
            if confirmed or time.time() > deadline + 60:
                break
            res = replayer.run(r['harness'], r['cfg'], values)
            if res.get('unusable') and not res['missing']:
                res['violations'] = res['violations'] + res['unusable']
            if res['violations'] and not res['near'] and not res['missing']:
                k = next((k for k in known if k.get('harness') == r['harness'] and k['claim'] in res['violations'][0][0]), None)
                if k is None:
                    confirmed.append(dict(harness=r['harness'], cfg=r['cfg'], claim=res['violations'][0][0],
                                          detail=res['violations'][0][1], symbolic='path model', values=values,
                                          traceback=res.get('traceback')))
            elif res['status'] == 'ok' and not res['violations'] and not res['missing']:
                validated += 1
            else:
                diverged += 1
    replayer.close()
    os.chdir(here)
    scratch.cleanup()

    # ---- verdict -------------------------------------------------------------------------------------------------
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    seen, lines = set(), []
    for hit in confirmed:
        key = (hit['harness'], hit['claim'])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, '%s-%d.json' % (prop, len(seen)))
        json.dump(dict(property=prop, **hit), open(path, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s: claim "%s" fails: %s' % (hit['harness'], hit['claim'], hit['detail']))
        print('   inputs %s bounds %s' % (json.dumps(hit['values']), json.dumps(hit['cfg'])))
        print('   replay with: %s -B %s/symx/replay.py %s' % (VENV, VERIF, path))
    seen_known = set()
    for k, hit in known_hit:
        if k['text'] not in seen_known:
            seen_known.add(k['text'])
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    vacuous = ['%s%s: %s' % (r['harness'], r['cfg'], m) for r in results if not r['cexs'] for m in r['missing']]
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    empty = ['%s%s: no feasible path' % (r['harness'], r['cfg']) for r in results if not r['stats'].get('paths') and not r['harness_errors']]

    functions = sorted({f for r in results for f in r['functions']})
    libs = {}
    for r in results:
        for k, v in r['library_models'].items():
            libs[k] = libs.get(k, 0) + v
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=int(tot.get('paths', 0)), transitions=int(tot.get('forks', 0)),
            traces_validated_against_impl=validated,
            samples=[dict(harness=r['harness'], bounds=r['cfg'], inputs=m) for r in results for m in r['models'][:1]][:5] or [dict(none=True)],
            rerun='%s check.py %s --tier %s' % (VENV, prop, tier),
            meaning='states: feasible paths explored to their end; transitions: branch decisions on symbolic conditions',
            queries=int(tot.get('queries', 0)), solver_s=round(tot.get('solver_s', 0.), 2),
            claims=int(tot.get('claims', 0)), claims_discharged=int(tot.get('discharged', 0)),
            claims_discharged_by_simplification=int(tot.get('trivial', 0)),
            functions_encoded=functions, library_models=libs,
            harnesses=[dict(harness=r['harness'], bounds=r['cfg'], stats={k: (round(v, 2) if isinstance(v, float) else v) for k, v in r['stats'].items()},
                            claims_reached=r['reached'], wall_s=round(r['wall'], 2)) for r in results],
            concolic_paths=concolic, paths_not_encoded=unconfirmed[:20], undecided=undecided[:20], diverged_replays=diverged,
            vacuous=vacuous, known_findings=sorted(seen_known)),
        assumptions=['floats are modelled as exact reals, NaN as a case split; rounding is outside the encoding',
                     'bounds: the sizes listed per harness; linear algebra by exact formulas or the contracts in symx/patches.py'],
        violations=[dict(harness=h['harness'], claim=h['claim'], detail=str(h['detail'])[:500], inputs=h['values']) for h in confirmed],
        wall_s=round(time.time() - t0, 2))
    json.dump(evidence, open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w'), indent=1, default=str)

    print('%s %s: %d paths, %d branch decisions, %d claims (%d discharged), %d queries, %.1f s solver, %d replays validated, %.1f s'
          % (prop, tier, tot.get('paths', 0), tot.get('forks', 0), tot.get('claims', 0), tot.get('discharged', 0), tot.get('queries', 0),
             tot.get('solver_s', 0.), validated, time.time() - t0))
    if args.v:
        for r in results:
            print('  ', r['harness'], r['cfg'], r['stats'].get('paths'), 'paths', r['stats'].get('claims'), 'claims', '%.1fs' % r['wall'], r['notes'] or '')
    for u in unconfirmed[:10]:
        print('NOT-ENCODED (did not reproduce on the real code): ' + u[:600])
    for u in undecided[:10]:
        print('UNDECIDED: ' + u[:400])
    for p in problems[:10]:
        print('PROBLEM: ' + p)
    for v in vacuous[:10]:
        print('VACUOUS: ' + v)
    for v in lines:
        print(v)
    if lines:
        return 1
    if problems or vacuous or empty or not tot.get('discharged') and not known_hit:
        for e in empty:
            print('PROBLEM: ' + e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
