"""P29: a run does not depend on the coordinates it is computed in."""
import json
import os
from collections import defaultdict

import numpy

import pybbn
import libspecies
from harness import quiet

FLOOR = 500
ASSUMPTIONS = ['real species, interactions and compiled kernels; coarse grids of momenta',
               'Euler steps of the temperature compared exactly (1e-8); Adams-Bashforth in steps of different kinds compared to first order in the step',
               'thresholds below which interactions are neglected (in terms of the initial scale factor) are not reached']
SCALARS = ('T', 'a', 'aT', 'x', 't', 'rho', 'S', 'N_eff', 'fraction')


def check(ctx):
    pybbn.load()
    r = ctx.tlc('Coordinates', constants=dict(Norms={0, 1, -2} if ctx.thorough else {0, 1}, MaxSteps=3), spec='Spec', invariants=['Covariant', 'Weighted', 'Emit'])
    runs = r.emitted
    weights = runs[0]['weights']
    scenarios = ['plasma', 'neutrinos', 'decays'] + (['full', 'matter'] if ctx.thorough else [])
    jobs = []
    for k, sc in enumerate(scenarios):
        e = runs[(3 * k + 1) % len(runs)]
        for c in e['coords']:
            for simpson in ((True, False) if sc == 'neutrinos' and ctx.thorough else (True,)):
                jobs.append((sc, simpson, c['kind'], c['norm'], [0.01 * a / b for a, b in e['steps']], 'euler'))
    sizes = (0.01, 0.005)
    for sc in scenarios[:3]:
        for kind in ('log', 'lin'):
            for h in sizes:
                jobs.append((sc, True, kind, 0, [h] * int(round(0.06 / h)), 'multistep'))
    d = ctx.tmp()
    names = {j: os.path.join(d, '%d.json' % i) for i, j in enumerate(map(key, jobs))}

    def one(job):
        with ctx.guard('a run in any coordinates', key=key(job)):
            out = compute(*job)
            with open(names[key(job)], 'w') as f:
                json.dump(out, f)
    order = {'full': 0, 'matter': 1, 'decays': 2, 'neutrinos': 3, 'plasma': 4}
    # longest first, in turn to every process
    ctx.parallel(sorted(jobs, key=lambda j: (order[j[0]], -len(j[4]))), one)
    got = {k: json.load(open(p)) for k, p in names.items() if os.path.exists(p)}
    exact(ctx, [j for j in jobs if j[5] == 'euler'], got, weights)
    converge(ctx, scenarios[:3], sizes, {key(j): j for j in jobs if j[5] == 'multistep'}, got)


def key(j):
    return '%s simpson=%s %s norm=%s steps=%s %s' % (j[0], j[1], j[2], j[3], len(j[4]), j[5])


def params_class(steps):
    """ steps in x that follow the given steps of log a """
    from common import Params

    class Given(Params):
        left = list(steps[1:])
        size = steps[0]
        linear = False

        def __init__(self, **kw):
            Params.__init__(self, dy=steps[0], dx=1., **kw)

        @property
        def dx(self):
            return None if self.x is None else self.x * self.size

        @dx.setter
        def dx(self, v):
            pass

        @property
        def h(self):
            return self.dx if self.linear else self.size

        @h.setter
        def h(self, v):
            pass

        @property
        def dy(self):
            return None if self.linear else self.size

        @dy.setter
        def dy(self, v):
            pass

        def update(self, *a, **kw):
            if getattr(self, 'started', False):
                self.size = self.left.pop(0) if self.left else self.size
            self.started = True
            return Params.update(self, *a, **kw)
    return Given


def compute(scenario, simpson, kind, norm, steps, method):
    import importlib
    from common import UNITS, Params, LinearSpacedGrid, CONST
    from evolution import Universe
    from library import SM
    from library.SM import interactions as SMI
    from library.NuMSM import interactions as NuI
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    from particles import NonEqParticle
    os.environ['LOGARITHMIC_TIMESTEP'] = str(kind == 'log')
    os.environ['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = str(method != 'euler')
    os.environ['SPLIT_COLLISION_INTEGRAL'] = 'True' if scenario == 'full' else ''
    os.environ['SIMPSONS_NONEQ_PARTICLES'] = str(simpson)
    importlib.reload(NonEqParticle)
    MeV = UNITS.MeV
    s = 2. ** norm
    # settings that are comoving momenta
    os.environ['MAX_MOMENTUM_MEV'] = str(int(100 * s))
    os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = repr(0.24999 * s)
    seen = []
    with quiet(), numpy.errstate(all='ignore'):
        T = 4. * MeV
        if method == 'euler':
            P = params_class(steps)
            P.linear = kind == 'lin'
            params = P(T=T, m=s * MeV)
        else:
            # x from s^2 m / T by the same total in either kind of steps
            total = 1.
            for h in steps:
                total *= 1 + h
            m = s * MeV
            params = Params(T=T, m=m, **(dict(dy=steps[0]) if kind == 'log' else dict(dx=m * m / T * (total - 1) / len(steps))))
        u = Universe(params=params)
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=25, MAX_MOMENTUM=60 * MeV * s)
        fine = LinearSpacedGrid(MOMENTUM_SAMPLES=21, MAX_MOMENTUM=20 * MeV * s)
        photon, e, mu = [libspecies.particle(n, grid=grid) for n in ('gam', 'e', 'mu')]
        ne, nm, nt = nus = [libspecies.particle(n, grid=grid) for n in ('ne', 'nm', 'nt')]
        for n in nus:
            n.decoupling_temperature = {'plasma': 3.9 if method == 'euler' else 5., 'neutrinos': 5., 'decays': 5., 'full': 5., 'matter': 5.}[scenario] * MeV
        u.add_particles([photon, e] + nus)
        thetas = defaultdict(float, {'electron': 1e-3})
        if scenario in ('neutrinos', 'matter', 'full'):
            kw = {}
            u.interactions += SMI.neutrino_interactions(leptons=[e], neutrinos=[ne, nm])[:3]
        if scenario in ('decays', 'full'):
            N = libspecies.sterile(150. * MeV, False, grid=fine)
            N.decoupling_temperature = T
            pi = libspecies.particle('pi0', grid=grid)
            u.add_particles([N, pi])
            k = Kind.Full if scenario == 'full' else Kind.F_1_vacuum_decay
            u.interactions += NuI.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=[ne], leptons=[e], mesons=[pi], kind=k)
            if scenario == 'decays':
                u.interactions += NuI.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=[ne, nm], leptons=[e], kind=k)[:2]
        if scenario in ('neutrinos', 'matter'):
            u.init_oscillations(SM.particles.leptons.oscillations_map, nus, matter_effects=scenario == 'matter')
        if scenario != 'plasma':
            # away from equilibrium, so that energy flows (near it the integrals are differences at the level of their accuracy)
            for n, part in zip(nus, (0.8, 0.9, 0.95)):
                n.update()
                n._distribution = n._distribution * part
        u.init_kawano(electron=e, neutrino=ne)

        def monitor(un):
            row = {}
            for p in un.particles:
                if not p.in_equilibrium:
                    row['occupation ' + p.name] = numpy.array(p._distribution, dtype=float)
                    row['collision ' + p.name] = numpy.array(p.collision_integral, dtype=float) + numpy.zeros(p.grid.MOMENTUM_SAMPLES)
                for q in ('density', 'energy_density', 'pressure', 'entropy', 'numerator', 'denominator'):
                    v = getattr(p, q)
                    row['%s %s' % (q, p.name)] = numpy.array([float(v() if callable(v) else v)])
            row['dx .'] = numpy.array([un.params.dx])
            seen.append({k: v.tolist() for k, v in row.items()})
            if len(seen) == len(steps):
                raise Finished
        u.step_monitor = monitor
        try:
            u.evolve(1e-3 * T, export=False)
        except Finished:
            pass
        for i in range(len(u.data)):
            if i >= len(seen):
                break
            for c in SCALARS:
                seen[i][c + ' .'] = [float(u.data[c][i])]
        for i in range(len(u.kawano_data)):
            row = list(u.kawano_data[i])
            if i + 1 < len(seen):
                seen[i + 1]['dTdt .'] = [float(row[3])]
                seen[i + 1]['H .'] = [float(row[5])]
                seen[i + 1]['rates .'] = [float(v) for v in row[6:]]
    return seen


class Finished(Exception):
    pass


def exact(ctx, jobs, got, weights):
    groups = defaultdict(list)
    for j in jobs:
        groups[j[0], j[1]].append(j)
    for js in groups.values():
        js.sort(key=lambda j: (j[2] != 'log', j[3] != 0))
        refs = {k: [j for j in js if j[2] == k][0] for k in ('log', 'lin')}
        pairs = [(refs['log'], j) for j in js if j != refs['log']] + [(refs['lin'], j) for j in js if j[2] == 'lin' and j != refs['lin']]
        for ref, j in pairs:
            if key(ref) not in got or key(j) not in got:
                continue
            a, b = got[key(ref)], got[key(j)]
            ctx.expect(len(a) == len(b), 'the same steps', key=key(j))
            for i, (u, v) in enumerate(zip(a, b)):
                if not ctx.expect(sorted(u) == sorted(v), 'the same species out of equilibrium', key=key(j), step=i):
                    continue
                for name in u:
                    q = name.split()[0]
                    w = weights[q]
                    f = 2. ** ((w['norm'] - (2 * w['rate'] if ref[2] == 'lin' else 0)) * (j[3] - ref[3]))
                    # x where the rate was taken: of the row before the step, i.e. the one recorded in this slot
                    if w['rate'] and j[2] != ref[2]:
                        xs = u['x .'][0] * 2. ** (2 * (j[3] - ref[3]))
                        if q == 'fraction':
                            # recorded after the step it belongs to
                            if i == 0:
                                continue
                            xs = a[i - 1]['x .'][0] * 2. ** (2 * (j[3] - ref[3]))
                        f = f / xs
                    x, y = numpy.array(u[name]) * f, numpy.array(v[name])
                    # dT/dt joins the rate of the last step with the state after it
                    tol = 0.02 if q == 'dTdt' else 1e-8
                    if j[2] != ref[2] and i and j[0] != 'plasma':
                        # the multistep solver of the distributions joins rates of different steps
                        tol = 0.1 if q in ('collision', 'numerator', 'fraction') else 0.02
                    ok = x.shape == y.shape
                    if ok:
                        odd = ~numpy.isfinite(x) | ~numpy.isfinite(y)
                        top = numpy.abs(x[~odd]).max() if (~odd).any() else 0.
                        ok = all(str(m) == str(n) for m, n in zip(x[odd], y[odd])) and bool((numpy.abs(x[~odd] - y[~odd]) <= tol * top).all())
                    ctx.expect(ok, 'one history in all coordinates', key='%s: %s' % (key(j), name), step=i, got=y[:4], want=x[:4])
                    ctx.count(part='exact')
            ctx.sample(dict(run=key(j), against=key(ref), steps=len(a)))


def converge(ctx, scenarios, sizes, jobs, got):
    for sc in scenarios:
        diffs = []
        for h in sizes:
            ks = [k for k, j in jobs.items() if j[0] == sc and abs(j[4][0] - h) < 1e-12]
            ks = {jobs[k][2]: k for k in ks}
            if not all(k in got for k in ks.values()):
                continue
            curves = {kind: got[k] for kind, k in ks.items()}
            lin, log = curves['lin'], curves['log']
            x0, x1 = log[0]['x .'][0], min(log[-1]['x .'][0], lin[-1]['x .'][0])
            at = numpy.linspace(x0, x1, 7)[1:]
            for q in ('aT', 'T', 't', 'rho'):
                fa, fb = [numpy.interp(at, [r['x .'][0] for r in c], [r[q + ' .'][0] * r['x .'][0]**(4 if q == 'rho' else 1 if q == 'T' else 0) for r in c]) for c in (log, lin)]
                # the density in a row is that before the step, the steps differ by the whole change of x
                change = max(abs(fa - log[0][q + ' .'][0] * x0**(4 if q == 'rho' else 1 if q == 'T' else 0)).max(), 1e-6 * abs(fa).max())
                err = abs(fa - fb).max()
                ctx.expect(err <= 4. * h * change + (0.3 * h if q == 'rho' else 1e-9) * abs(fa).max(), 'one history in steps of either kind', key='%s %s' % (sc, q), step=h, got=err / change)
                ctx.count(part='multistep')
            for name in log[0]:
                if not name.startswith('occupation'):
                    continue
                ys = [numpy.array([[numpy.interp(z, [r['x .'][0] for r in c], [r[name][k] for r in c]) for z in at] for k in range(len(c[0][name]))]) for c in (log, lin)]
                start = numpy.array(log[0][name])[:, None]
                change = numpy.abs(ys[0] - start).max()
                err = numpy.abs(ys[0] - ys[1]).max()
                ctx.expect(err <= 4. * h * change + 1e-7 * numpy.abs(start).max(), 'one history in steps of either kind', key='%s %s' % (sc, name), step=h, got=err, want=change)
                ctx.count(part='multistep')
