"""P08: a species follows the plasma while in equilibrium and decouples once."""
import os

import numpy

import pybbn
import terms
from harness import quiet

FLOOR = 1000
ASSUMPTIONS = ['the scale factor grows at every update; thermal species are updated through update() only']
T0 = 64


def eq_dist(grid, m, a, aT, eta):
    return 1. / (numpy.exp(numpy.sqrt(grid**2 + (m * a)**2) / aT) + eta)


def check(ctx):
    pybbn.load()
    from common import Params, LinearSpacedGrid, statistics as STATISTICS
    from particles import Particle, REGIMES
    names = {'radiation': REGIMES.RADIATION, 'dust': REGIMES.DUST, 'intermediate': REGIMES.INTERMEDIATE,
             'non-equilibrium': REGIMES.NONEQ}
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=9, MAX_MOMENTUM=512.)
    invariants = ['Plasma', 'FrozenOnce', 'Massless', 'Cooling', 'Emit']
    common = dict(constants=None, spec='Spec', invariants=invariants, properties=['NeverBack', 'Free'])
    runs = [dict(common, constants=dict(T0=T0, Masses={0, 1, 4, 16, 64, 256, 512}, Decouplings={0, 8, 20, 32, 64, 100}, Factor=4,
                                        Growth={2, 4}, ATs={64, 80}, MaxSteps=4 if ctx.thorough else 3)),
            dict(common, constants=dict(T0=T0, Masses={0, 1, 4, 16, 64}, Decouplings={0, 2, 8, 32}, Factor=4,
                                        Growth={2}, ATs={64, 72}, MaxSteps=6 if ctx.thorough else 4))]
    os.environ['REGIME_SWITCHING_FACTOR'] = '4.0'
    for run in runs:
        r = ctx.tlc('Species', **run)
        for n, c in enumerate(r.emitted):
            cfg = c['cfg']
            key = str(cfg) + ' ' + ' '.join('%d:%d' % (h['a'], h.get('aT', T0)) for h in c['hist'])
            with ctx.guard('species', key=key), quiet():
                boson = n % 3 == 2
                params = Params(T=float(T0), m=float(T0), dy=0.05)
                p = Particle(name='X', symbol='X', mass=float(cfg['mass']), decoupling_temperature=float(cfg['dec']), dof=2,
                             statistics=STATISTICS.BOSON if boson else STATISTICS.FERMION,
                             thermal_dyn=cfg['thermal'], Q=1 if cfg['charged'] else 0,
                             **dict({'params': params} if n % 2 else {}, **({'grid': grid} if n % 4 else {})))
                if not n % 4:
                    p.set_grid(grid)            # a grid chosen after the species was made
                for rec in ('distribution', 'collision_integral'):
                    ctx.expect(terms.close(p.data[rec].header, grid.TEMPLATE, 1e-12), 'records at the momenta of the grid', key=key, record=rec)
                if not n % 2:
                    p.set_params(params)
                dec = cfg['dec'] if cfg['thermal'] or cfg['dec'] else T0
                ctx.expect(p.decoupling_temperature == dec, 'decoupling temperature', key=key, got=p.decoupling_temperature)
                for step, h in enumerate(c['hist']):
                    if step:
                        params.a = float(h['a'])
                        params.aT = float(h['aT'])
                        params.T = params.aT / params.a
                        params.x = params.a * params.m
                        params.t = 10. * step
                        params.h = 0.05
                        p.collision_integral = numpy.ones(9)
                        p.update()
                        ctx.expect(not numpy.any(p.collision_integral), 'collision integral is cleared', key=key, step=step)
                    if not observe(ctx, p, params, h, step, cfg, grid, names, key):
                        break
            ctx.count(part='behaviours')
        ctx.sample(r.emitted[len(r.emitted) // 2])
    del os.environ['REGIME_SWITCHING_FACTOR']
    default_factor(ctx, Particle, Params, REGIMES)
    energies(ctx, Particle, Params)


def observe(ctx, p, params, h, step, cfg, grid, names, key):
    ok = ctx.expect(bool(p.in_equilibrium) == h['eq'], 'equilibrium', key=key, step=step, got=p.in_equilibrium, want=h['eq'])
    ok &= ctx.expect(p.regime is names[h['regime']], 'regime', key=key, step=step, got=p.regime.name, want=h['regime'])
    ok &= ctx.expect(terms.close(p.aT, h['paT'], 1e-12), 'comoving temperature', key=key, step=step, got=p.aT, want=h['paT'])
    ok &= ctx.expect(terms.close(p.T, h['paT'] / h['a'], 1e-12), 'temperature', key=key, step=step, got=p.T)
    ok &= ctx.expect(p.t_decoupling == 10. * h['tdec'], 'decoupling time', key=key, step=step, got=p.t_decoupling)
    if h['frozen']:
        want = numpy.zeros(9) if h['frozen'] == [0, 0] else eq_dist(grid.TEMPLATE, p.mass, h['frozen'][0], h['frozen'][1], p.eta)
        got = p._distribution
        ok &= ctx.expect(terms.close(got[1:], want[1:], 1e-9, 1e-300), 'frozen distribution', key=key, step=step, got=got, want=want)
    elif h['eq']:
        y = grid.TEMPLATE[1:]
        got = numpy.array([p.distribution(v) for v in y])
        ok &= ctx.expect(terms.close(got, eq_dist(y, p.mass, h['a'], h['paT'], p.eta), 1e-9, 1e-300), 'equilibrium distribution',
                         key=key, step=step, got=got)
    rows = p.data['params']
    ok &= ctx.expect(len(rows) == step + 1, 'one record per update', key=key, step=step, got=len(rows))
    last = {k: rows[k][-1] for k in ('a', 't', 'T', 'density', 'energy_density')}
    ok &= ctx.expect(last['a'] == params.a and last['t'] == params.t and terms.close(last['T'], params.T, 1e-12), 'record/state',
                     key=key, step=step, got=last)
    with numpy.errstate(all='ignore'):
        ok &= ctx.expect(terms.close(last['density'], p.density, 1e-12) and terms.close(last['energy_density'], p.energy_density, 1e-12)
                         or not numpy.isfinite(p.density), 'record/densities', key=key, step=step, got=last)
        reg = names[h['regime']]
        for q in ('density', 'energy_density', 'pressure', 'entropy'):
            v, w = getattr(p, q), getattr(reg, q)(p)
            ok &= ctx.expect(terms.close(v, w, 1e-9) or not numpy.isfinite(w), 'quantities of the current regime', key=key, step=step,
                             quantity=q, got=v, want=w)
    return ok


def default_factor(ctx, Particle, Params, REGIMES):
    for ratio, want in ((1001., REGIMES.RADIATION), (999., REGIMES.INTERMEDIATE), (1., REGIMES.INTERMEDIATE),
                        (1 / 999., REGIMES.INTERMEDIATE), (1 / 1001., REGIMES.DUST)):
        with ctx.guard('default factor', key=str(ratio)):
            p = Particle(params=Params(T=2., dy=0.05), mass=2. / ratio)
            ctx.expect(p.regime is want, 'default switching factor', key=str(ratio), got=p.regime.name)
        ctx.count(part='default factor')


def energies(ctx, Particle, Params):
    for k in range(20):
        m = ctx.rng.choice([0., ctx.rng.uniform(0.1, 10.)])
        params = Params(T=2., dy=0.05)
        params.a = ctx.rng.uniform(0.1, 4.)
        with ctx.guard('energies'):
            p = Particle(params=params, mass=m)
            for y in (0., 0.4, 3., numpy.array([0.1, 7.])):
                ctx.expect(terms.close(p.energy(y), numpy.sqrt(y**2 + m**2), 1e-12), 'energy', key=str(m), got=p.energy(y))
                ctx.expect(terms.close(p.conformal_energy(y), numpy.sqrt(y**2 + (m * params.a)**2), 1e-12), 'conformal energy', key=str(m))
                if m:
                    ctx.expect(terms.close(p.conformal_energy(y, 0.7), numpy.sqrt(y**2 + 0.49), 1e-12), 'conformal energy at a given mass')
            ctx.expect(terms.close(p.conformal_mass, m * params.a, 1e-12), 'conformal mass', got=p.conformal_mass)
        ctx.count(part='energies')
