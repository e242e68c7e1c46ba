"""Runs the harnesses of a property: symbolic exploration in forked workers, replay in a clean unpatched process."""
import importlib
import json
import os
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QTUNE_REPO', '/repo')
SOLVER_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_path():
    warnings.simplefilter('ignore')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    for p in (REPO, VERIF):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    if SOLVER_PATH not in sys.path:
        sys.path.append(SOLVER_PATH)


def load_harnesses(prop):
    from symx import ctx
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f.startswith('h_') and f.endswith('.py'):
            text = open(os.path.join(VERIF, 'harness', f)).read()
            if "'%s'" % prop in text:
                importlib.import_module('harness.' + f[:-3])
    return ctx.HARNESSES.get(prop, [])


def track_functions(seen):
    """Record the qtune functions that run (sys.monitoring, each function once)."""
    root = os.path.join(REPO, 'qtune') + os.sep
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.PROFILER_ID, 'symx')
    except ValueError:
        pass                # a second job of this worker: its own set, all functions again

    def start(code, offset):
        if code.co_filename.startswith(root):
            seen.add('%s:%s' % (os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, start)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)
    mon.restart_events()


def run_symbolic(job):
    """Executed in a forked worker."""
    prop, name, cfg, seed, deadline = job
    import logging
    from symx import core, ctx, patches
    h = next(h for h in ctx.HARNESSES[prop] if h.name == name)
    seen = set()
    track_functions(seen)
    opts = {k: v for k, v in h.opts.items() if k in ('max_paths', 'int_bound', 'branch_ms', 'claim_ms', 'logic', 'want_models', 'max_cexs', 'sample_every')}
    budget = float(h.opts.get('seconds', 240))
    if os.environ.get('VERIF_TIER') == 'thorough':
        budget = max(budget, 700)
    t = time.time()
    ex = core.Explorer(lambda c: h.fn(c, **cfg), seed=seed, deadline=min(deadline, t + budget), **opts)
    try:
        ex.run(ctx.SymCtx)
    except BaseException as err:
        ex.harness_errors.append(''.join(traceback.format_exception(err))[-2000:])
    missing = [l for l in h.opts.get('expect', ()) if not ex.reached.get(l)]
    return dict(harness=name, cfg=cfg, stats=ex.stats.dict(), notes=ex.notes, cexs=ex.cexs,
                inconclusive=ex.inconclusive, unencoded=ex.unencoded, harness_errors=ex.harness_errors,
                concolic_paths=ex.concolic_paths, reached=ex.reached, models=ex.path_models[:h.opts.get('replays', 12)],
                functions=sorted(seen), library_models=patches.MODELS_USED, missing=missing, wall=time.time() - t)


def run_concrete(prop, name, cfg, values):
    from symx import ctx
    h = next(h for h in ctx.HARNESSES[prop] if h.name == name)
    c = ctx.ConcreteCtx(values)
    out = dict(status='ok')
    try:
        h.fn(c, **cfg)
    except ctx.StopPath:
        out['status'] = 'precondition'
    except Exception as err:
        tb = traceback.extract_tb(err.__traceback__)
        in_target = any(f.filename.startswith(os.path.join(REPO, 'qtune')) for f in tb)
        text = ''.join(traceback.format_exception(err))[-3000:]
        if in_target:
            c.violations.append(('no unexpected exception', '%s: %s' % (type(err).__name__, str(err)[:300])))
            out['traceback'] = text
        else:
            out['status'] = 'harness-error'
            out['traceback'] = text
    if out['status'] == 'harness-error':
        out['unusable'] = [('no unexpected exception', out['traceback'].strip().splitlines()[-1][:300])]
    out.update(violations=c.violations, reached=c.reached, near=c.near, missing=c.missing)
    return out


class Replayer:
    """A clean process in which nothing is patched."""

    def __init__(self, prop):
        self.prop = prop
        self.proc = None

    def _start(self):
        self.proc = subprocess.Popen([sys.executable, '-B', os.path.join(VERIF, 'symx', 'replay.py'), '--server', self.prop],
                                     stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def run(self, name, cfg, values, timeout=120):
        import select
        if self.proc is None or self.proc.poll() is not None:
            self._start()
        self.proc.stdin.write(json.dumps(dict(harness=name, cfg=cfg, values=values)) + '\n')
        self.proc.stdin.flush()
        r, _, _ = select.select([self.proc.stdout], [], [], timeout)
        if not r:
            self.proc.kill()
            self.proc.wait()
            self.proc = None
            return dict(status='timeout', violations=[], reached={}, near=False, missing=[])
        line = self.proc.stdout.readline()
        if not line:
            self.proc = None
            return dict(status='died', violations=[], reached={}, near=False, missing=[])
        return json.loads(line)

    def close(self):
        if self.proc:
            self.proc.stdin.close()
            try:
                self.proc.wait(10)
            except subprocess.TimeoutExpired:
                self.proc.kill()
