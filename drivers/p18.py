"""P18: the compiled collision kernels are the phase-space integrals of the balance functional."""
import json
import os
import subprocess
import sys

import numpy

import pybbn
import terms
from terms import ev

FLOOR = 300
# every species out of equilibrium has a thermal spectrum of its own temperature, on which the
# interpolation between samples is exact (P07)
TEMPS = (1.3, 0.8, 1.7, 1.1)
PLASMA = (1., 1.25, 0.85)       # temperature (a T) of the species in equilibrium
ACC = 2.5e-2       # requested accuracy of the adaptive integration is 1e-2
SHARP = 6e-2       # ... of an integrand with a sharp edge: constant amplitude, particle 1 at rest

ASSUMPTIONS = ['distribution functions are thermal shapes with different temperatures (interpolation itself is P07)',
               'reference: composite Gauss / midpoint quadrature of the integrand of the specification']


def spectrum(stat, T, m):
    eta = 1 if stat == 'F' else -1
    return lambda e: 1. / (numpy.exp(e / T) + eta)


def make(I, suffix, c, temps, plasma, pmax=60.):
    """ the C++ description of the reaction """
    out, fs = [], []
    for i, side in enumerate(c['sides']):
        T = plasma if c['eq'][i] else temps[i]
        m = float(c['m'][i])
        p = numpy.linspace(0., pmax, 401)
        f = spectrum(c['stat'][i], T, m)
        e = numpy.sqrt(p**2 + m**2)
        with numpy.errstate(all='ignore'):
            d = numpy.where(e > 0, f(numpy.where(e > 0, e, 1.)), f(1e-3) if c['stat'][i] == 'B' else f(0.))
        g = getattr(I, 'grid_t' + suffix)(grid=list(p), distribution=list(d))
        s = getattr(I, 'particle_t' + suffix)(eta=1 if c['stat'][i] == 'F' else -1, m=m, grid=g, in_equilibrium=c['eq'][i], T=T)
        out.append(getattr(I, 'reaction_t' + suffix)(specie=s, side=side))
        fs.append(f)
    return out, fs


def check(ctx):
    pybbn.load()
    three(ctx)
    four(ctx)
    independent(ctx)


def kind_of(I, suffix, name):
    return int(getattr(getattr(I, 'CollisionIntegralKind' + suffix), name))


def three(ctx):
    I = pybbn.cpp('three_particle')
    r = ctx.tlc('Collisions', init='Init3', invariants=['Linear', 'DetailedBalance', 'Direction', 'Emit3'])
    cases = r.emitted if ctx.thorough else [e for i, e in enumerate(r.emitted) if (i * 7919 + ctx.seed) % 3 == 0]
    for n, e in enumerate(cases):
        c, t = e['c'], e['t']
        key = str(c)
        pmax = 30.
        ps = [0.7, 2.5, 6.]
        env = {'m%d' % (i + 1): float(m) for i, m in enumerate(c['m'])}
        with ctx.guard('three particles', key=key):
            reac, fs = make(I, '3', c, TEMPS, PLASMA[n % 3])
            got = I.integration_3([0.] + ps, 0., 30., pmax, reac, 1e14, kind_of(I, '_3', c['kind']))
            for k, p0 in enumerate([0.] + ps):
                en = dict(env, p0=p0, pmax=pmax)
                if p0 == 0.:
                    if c['m'][0] == 0:
                        # the kernel of a massless particle at rest does not contribute, but it is a number
                        ctx.expect(bool(numpy.isfinite(got[k])), 'three particles/massless at rest', key=key, got=got[k])
                        continue
                    e2 = ev(t['rest'], en)
                    en['e'] = e2
                    for i, x in enumerate((ev(t['e1'], en), e2, ev(t['e3'], en))):
                        en['f%d' % (i + 1)] = fs[i](x)
                    want = ev(t['restp'], en) * ev(t['F'], en)
                    ctx.expect(terms.close(got[k], want, 1e-5, 1e-14), 'three particles/at rest', key=key, got=got[k], want=want)
                    continue
                lo, hi = ev(t['lo'], en), ev(t['hi'], en)
                want, scale = 0., 0.
                if lo < hi:
                    x, w = numpy.polynomial.legendre.leggauss(60)
                    edges = numpy.linspace(lo, hi, 21)
                    for a, b in zip(edges[:-1], edges[1:]):
                        en['e'] = (b - a) / 2 * x + (b + a) / 2
                        for i, y in enumerate((ev(t['e1'], en), en['e'], ev(t['e3'], en))):
                            en['f%d' % (i + 1)] = fs[i](y)
                        v = ev(t['F'], en) + 0. * en['e']
                        want += numpy.sum(w * v) * (b - a) / 2
                        scale += numpy.sum(w * numpy.abs(v)) * (b - a) / 2
                    wt = ev(t['weight'], en)
                    want, scale = want * wt, scale * wt
                ctx.expect(abs(got[k] - want) <= ACC * scale + 1e-12, 'three particles/kernel', key=key, p=p0, got=got[k], want=want)
        ctx.count(part='three particles')
    ctx.sample(cases[0]['c'])
    # detailed balance: a reaction between species of the plasma does nothing
    for e in [e for e in r.emitted if e['c']['kind'] == 'Full' and e['c']['eq'] == [0, 1, 1]]:
        c = dict(e['c'], eq=[1, 1, 1])
        with ctx.guard('three particles/equilibrium', key=str(c)):
            reac, _ = make(I, '3', c, TEMPS, 1.25)
            got = I.integration_3([0.7, 3., 8.], 0., 30., 30., reac, 1e14, kind_of(I, '_3', 'Full'))
            ref = I.integration_3([0.7, 3., 8.], 0., 30., 30., reac, 1e14, kind_of(I, '_3', 'F_1'))
            ctx.expect(numpy.all(numpy.abs(got) <= 1e-9 * numpy.abs(ref) + 1e-13), 'three particles/equilibrium is stationary', key=str(c), got=got, ref=ref)
        ctx.count(part='equilibrium')


def amplitude(I, e):
    q = lambda r: r[0] / r[1]
    if not e['amps']:
        return [I.M_t(order=[0, 1, 2, 3], K1=0., K2=0., K=q(e['flat']))]
    return [I.M_t(order=[i - 1 for i in M['o']], K1=q(M['K1']), K2=q(M['K2']), K=0.) for M in e['amps']]


def four(ctx):
    I = pybbn.cpp('four_particle')
    r = ctx.tlc('Collisions', init='Init4', invariants=['Linear', 'DetailedBalance', 'Direction', 'Emit4', 'EmitAmps'])
    amps = {(tuple(x['sides']), x['amp']): x for x in r.emitted if 'moving' in x}
    r.emitted = [x for x in r.emitted if 'c' in x]
    n = len(r.emitted)
    want_n = 1200 if ctx.thorough else 150
    cases = [e for i, e in enumerate(r.emitted) if (i * 7919 + ctx.seed * 31) % n < want_n]
    N = 360
    at_rest(ctx, I, r.emitted)
    threshold(ctx, I, r.emitted, amps)
    for k, e in enumerate(cases):
        c = e['c']
        key = str(c)
        pmax1, pmax3 = 14., 9.
        m = [float(x) for x in c['m']]
        scattering = c['sides'] == [-1, -1, 1, 1]
        decay = c['sides'][1] == 1
        with ctx.guard('four particles', key=key):
            Ms = amplitude(I, e)
            reac, fs = make(I, '', c, TEMPS, PLASMA[k % 3])
            ps = [0., 1.3] if m[0] else [1.3, 3.1]
            got = I.integration(ps, 0., pmax1, 0., pmax1, pmax3, reac, Ms, 1e9, kind_of(I, '', c['kind']))
            for j, p0 in enumerate(ps):
                want, scale = reference(e, c, m, amps[(tuple(c['sides']), c['amp'])], fs, p0, pmax1, pmax3, scattering, decay, N)
                acc = SHARP if c["amp"] == "flat" and p0 == 0. else ACC
                ctx.expect(abs(got[j] - want) <= acc * scale + 1e-8, 'four particles/kernel', key=key, p=p0, got=got[j], want=want, scale=scale)
        ctx.count(part='four particles')
    ctx.sample(cases[0]['c'])
    for e in [e for e in r.emitted if e['c']['kind'] == 'Full' and e['c']['eq'] == [0, 1, 1, 0] and e['c']['amp'] in ('s', 'mix')]:
        c = dict(e['c'], eq=[1, 1, 1, 1])
        with ctx.guard('four particles/equilibrium', key=str(c)):
            reac, _ = make(I, '', c, TEMPS, 1.25)
            Ms = amplitude(I, e)
            ps = [0.7, 3.]
            ref = I.integration(ps, 0., 14., 0., 14., 9., reac, Ms, 1e6, kind_of(I, '', 'F_1'))
            got = I.integration(ps, 0., 14., 0., 14., 9., reac, Ms, 1e6, kind_of(I, '', 'Full'))
            ctx.expect(numpy.all(numpy.abs(got) <= 1e-9 * numpy.abs(ref) + 1e-9), 'four particles/equilibrium is stationary', key=str(c), got=got, ref=ref)
        ctx.count(part='equilibrium')


def at_rest(ctx, I, cases):
    """ a massless particle at rest is the limit of a slow one (for amplitudes that vanish with its momentum) """
    classes = {}
    for e in cases:
        c = e['c']
        if c['m'][0] == 0 and any(c['m']) and c['amp'] != 'flat':
            classes.setdefault((tuple(c['sides']), tuple(c['m'])), []).append(e)
    some = []
    for _, es in sorted(classes.items()):
        k = 24 if ctx.thorough else 4
        some += [es[(ctx.seed * 31 + j * 7919) % len(es)] for j in range(k)]
    for n, e in enumerate(some):
        c = e['c']
        cold = 0.4 if n % 2 else 1.
        key = '%s cold=%s' % (c, cold)
        with ctx.guard('four particles/massless at rest', key=key):
            reac, _ = make(I, '', c, [cold * T for T in TEMPS], cold)
            args = (0., 14., 0., 14., 9., reac, amplitude(I, e), 1e7, kind_of(I, '', c['kind']))
            rest, slow, moving = I.integration([0., 1e-3, 0.1], *args)
            ctx.expect(abs(rest - slow) <= 0.02 * max(abs(slow), abs(moving)) + 1e-12, 'four particles/massless at rest', key=key, got=rest, slow=slow, moving=moving)
        ctx.count(part='massless at rest')


def threshold(ctx, I, cases, amps):
    """ reactions whose threshold lies beyond the grid of the other particle """
    some = [e for e in cases if e['c']['sides'] == [-1, -1, 1, 1] and e['c']['m'][2] + e['c']['m'][3] > e['c']['m'][0] + e['c']['m'][1] + 1 and e['c']['amp'] != 'flat']
    for n in range(40 if ctx.thorough else 10):
        e = some[(ctx.seed * 31 + n * 7919) % len(some)]
        c = e['c']
        with ctx.guard('four particles/threshold beyond the grid', key=str(c)):
            m = [float(x) for x in c['m']]
            reac, fs = make(I, '', c, [0.4 * T for T in TEMPS], 0.4)
            p0 = (0.3, 0.6)[n % 2]
            got = I.integration([p0], 0., 0.5, 0., 0.5, 9., reac, amplitude(I, e), 1e12, kind_of(I, '', c['kind']))[0]
            want, scale = reference(e, c, m, amps[(tuple(c['sides']), c['amp'])], fs, p0, 0.5, 9., True, False, 600)
            ctx.expect(abs(got - want) <= ACC * scale + 1e-12, 'four particles/threshold beyond the grid', key=str(c), p=p0, got=got, want=want, scale=scale)
        ctx.count(part='threshold beyond the grid')


def reference(e, c, m, amp, fs, p0, pmax1, pmax3, scattering, decay, N):
    s = c['sides']
    E0 = numpy.sqrt(p0**2 + m[0]**2)
    if scattering:
        lo = max(m[2] + m[3] - E0, 0.)
        lo = numpy.sqrt(lo**2 - m[1]**2) if lo > m[1] else 0.
        hi = max(pmax1, 3. * lo)
        hi2 = numpy.sqrt(max((E0 + numpy.sqrt(hi**2 + m[1]**2) - m[3])**2 - m[2]**2, 0.))
    elif decay:
        if E0 - m[2] - m[3] <= m[1]:
            return 0., 0.
        lo, hi = 0., numpy.sqrt((E0 - m[2] - m[3])**2 - m[1]**2)
        hi2 = numpy.sqrt((E0 - m[1] - m[3])**2 - m[2]**2)
    else:
        Emax = numpy.sqrt(pmax3**2 + m[3]**2)
        if Emax - E0 - m[2] <= m[1]:
            return 0., 0.
        lo, hi = 0., numpy.sqrt((Emax - E0 - m[2])**2 - m[1]**2)
        hi2 = numpy.sqrt((Emax - E0 - m[1])**2 - m[2]**2)
    d1, d2 = (hi - lo) / N, hi2 / N
    p1 = lo + d1 * (numpy.arange(N) + 0.5)
    p2 = d2 * (numpy.arange(N) + 0.5)
    P1, P2 = [x.ravel() for x in numpy.meshgrid(p1, p2, indexing='ij')]
    e1, e2 = numpy.sqrt(P1**2 + m[1]**2), numpy.sqrt(P2**2 + m[2]**2)
    env = {'e1': E0, 'e2': e1, 'e3': e2}
    e3 = ev(e['e4'], env)
    keep = e3 >= m[3]
    if not decay and not scattering:
        keep &= e3 <= Emax
    p3 = numpy.sqrt(numpy.maximum(e3**2 - m[3]**2, 0.))
    big = numpy.maximum(numpy.maximum(p0, P1), numpy.maximum(P2, p3))
    keep &= 2 * big <= p0 + P1 + P2 + p3
    if not keep.any():
        return 0., 0.
    P1, P2, p3, e1, e2, e3 = [x[keep] for x in (P1, P2, p3, e1, e2, e3)]
    E = [E0 + 0. * P1, e1, e2, e3]
    w = (P1 / e1) * (P2 / e2)
    env = {'m%d' % (i + 1): m[i] for i in range(4)}
    env.update({'p%d' % (i + 1): x for i, x in enumerate((p0 + 0. * P1, P1, P2, p3))})
    env.update({'e%d' % (i + 1): x for i, x in enumerate(E)})
    ds = ev(amp['moving' if p0 > 0 else 'atrest'], env) + 0. * P1
    fe = {'f%d' % (i + 1): fs[i](E[i]) for i in range(4)}
    v = w * ds * (ev(e['F'], fe) + 0. * P1)
    return numpy.sum(v) * d1 * d2, numpy.sum(numpy.abs(v)) * d1 * d2


def independent(ctx):
    """ the kernel at a momentum does not depend on the others it is asked for, on their order, or on the threads that work on them """
    pybbn.build(threads=True)
    r = ctx.tlc('Threads', spec='Spec', constants=dict(Momenta={1, 2, 3}, MaxThreads=3, Lengths={1, 2, 3}), invariants=['TypeOK', 'Shared', 'Independent', 'Emit'], properties=['Terminates'])
    lists = sorted({(tuple(e['ps']), e['threads']) for e in r.emitted})
    if not ctx.thorough:
        lists = [x for i, x in enumerate(lists) if (i * 7919 + ctx.seed) % 5 == 0]
    jobs = os.path.join(ctx.tmp(), 'lists.json')
    with open(jobs, 'w') as fh:
        json.dump(lists, fh)
    env = dict(os.environ, VERIF_REPO=pybbn.REPO, PYTHONWARNINGS='ignore')
    env.pop('OMP_NUM_THREADS', None)
    worker = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p18_threads.py')
    p = subprocess.run([sys.executable, worker, jobs, '20' if ctx.thorough else '3'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=800)
    rows = [json.loads(l) for l in p.stdout.decode(errors='replace').splitlines() if l.startswith('{')]
    for r in rows:
        clause = r.pop('clause')
        ctx.count(part='independent')
        ctx.expect(r.pop('ok'), clause, **r)
    if p.returncode == 3 and pybbn.REPO + os.sep not in p.stderr.decode(errors='replace'):
        raise RuntimeError(p.stderr.decode(errors='replace'))
    ctx.expect(p.returncode == 0, 'the kernels work in threads', key='threads', status=p.returncode, error=p.stderr.decode(errors='replace')[-1500:])
