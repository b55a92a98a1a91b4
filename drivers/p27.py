"""P27: units, constants, and independence of the results of the size of the unit of energy."""
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

import numpy

import pybbn
from terms import ev

FLOOR = 100
ASSUMPTIONS = ['the electronvolt is a power of two of the usual one, so that scaling is exact but for rounding in powers',
               'results agree to 1e-9 of the largest value of a column; values below 1e-200 count as zero']
PARTS = ('thermodynamics', 'library', 'log run', 'lin run', 'heuristics')
WORKER = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p27_run.py')


def check(ctx):
    pybbn.load()
    r = ctx.tlc('Units', spec='Spec', invariants=['Additive', 'Newton', 'EmitStatic', 'Emit'])
    static = [e for e in r.emitted if 'units' in e][0]
    values(ctx, static)
    scales = sorted({e['scale']: e['exponents'] for e in r.emitted if 'exponents' in e}.items(), key=lambda kv: (abs(kv[0]), kv[0]))
    pick = scales if ctx.thorough else [s for s in scales if s[0] in (0, 10, -20)]
    jobs = [(k, w) for w in ('log run', 'lin run', 'thermodynamics', 'library', 'heuristics') for k, _ in pick]
    with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 1)) as pool:
        got = dict(zip(jobs, pool.map(work, jobs)))
    exponents = dict(scales)
    for w in PARTS:
        base = got[0, w]
        for k, _ in pick:
            r = got[k, w]
            if 'error' in r:
                ctx.fail('every part of the code works in every unit of energy', key=w, scale=k, error=r['error'])
            elif k and 'error' not in base:
                if r['changed'] == 0:
                    ctx.count(part='electronvolt not found')
                    continue
                compare(ctx, w, k, base['out'], r['out'], exponents[k])


def work(job):
    k, what = job
    env = dict(os.environ, VERIF_REPO=pybbn.REPO, PYTHONWARNINGS='ignore')
    p = subprocess.run([sys.executable, WORKER, str(k), what], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=600)
    if p.returncode:
        text = p.stderr.decode(errors='replace')
        # an exception the code under test has no part in is a failure of the machinery
        if p.returncode == 3 and pybbn.REPO + os.sep not in text:
            raise RuntimeError(text)
        return dict(error='exit status %s: %s' % (p.returncode, text[-1500:]))
    return json.loads(p.stdout.decode())


def compare(ctx, what, k, a, b, exponent):
    if not ctx.expect([x[:2] for x in a] == [x[:2] for x in b], 'the same results in every unit of energy', key=what, scale=k):
        return
    for (name, dim, x), (_, _, y) in zip(a, b):
        key = '%s: %s %s' % (what, dim, name)
        ctx.count(part=what)
        if not ctx.expect(len(x) == len(y), 'the same results in every unit of energy', key=key, scale=k, got=len(y), want=len(x)):
            continue
        x, y = numpy.array(x, dtype=float), numpy.array(y, dtype=float)
        want = numpy.ldexp(x, exponent[dim])
        small = (numpy.abs(x) < 1e-200) & (numpy.abs(y) < 1e-200)      # factors of these may have been denormal
        want[small] = y[small] = 0.
        odd = ~numpy.isfinite(want) | ~numpy.isfinite(y)
        same = all(str(u) == str(v) for u, v in zip(want[odd], y[odd]))
        top = numpy.abs(want[~odd]).max() if (~odd).any() else 0.
        ok = same and bool((numpy.abs(want[~odd] - y[~odd]) <= 1e-9 * top).all())
        ctx.expect(ok, 'results depend on the unit of energy by their dimension only', key=key, scale=k, got=y[:5], want=want[:5])
        ctx.sample(dict(part=what, name=name, quantity=dim, scale=k), limit=8)


def values(ctx, static):
    from common import UNITS, CONST
    eV = UNITS.eV
    env = {}
    for u in static['units']:
        with ctx.guard('units', key=u['name']):
            got, want = getattr(UNITS, u['name']) / eV ** u['dim'], ev(u['eV'], {})
            ctx.expect(abs(got / want - 1) < 1e-4, 'units in terms of the electronvolt', key=u['name'], got=got, want=want)
            ctx.count(part='units')
    for c in static['consts']:
        with ctx.guard('constants', key=c['name']):
            got = getattr(CONST, c['name']) / eV ** c['dim']
            env[c['name']] = got
    for c in static['consts']:
        with ctx.guard('constants', key=c['name']):
            want = ev(c['eV'], env)
            ctx.expect(abs(env[c['name']] / want - 1) < float(c['tol']), 'constants', key=c['name'], got=env[c['name']], want=want)
            ctx.count(part='constants')
