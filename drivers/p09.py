"""P09: thermodynamic quantities of a species in every regime."""
import importlib
import os

import numpy

import pybbn
import terms
from terms import ev

FLOOR = 150
ASSUMPTIONS = ['smooth distributions on grids fine enough for the quadrature; agreement to 0.1% (0.3% for the rounded zeta(3))']


def tolerance(regime, q, r):
    if regime == 'radiation' and q == 'density':
        return 3e-3         # zeta(3) is rounded in the code
    return 1e-3 if regime == 'non-equilibrium' else 2e-4


def check(ctx):
    pybbn.load()
    from common import Params, LinearSpacedGrid, statistics as STATISTICS
    from particles import Particle, REGIMES, NonEqParticle
    mods = {'radiation': REGIMES.RADIATION, 'dust': REGIMES.DUST, 'intermediate': REGIMES.INTERMEDIATE,
            'non-equilibrium': REGIMES.NONEQ}
    r = ctx.tlc('Thermo', invariants=['Couples', 'Emit'])
    grids = {}

    def grid(s):
        if s not in grids:
            grids[s] = LinearSpacedGrid(MOMENTUM_SAMPLES=401, MAX_MOMENTUM=30. * s)
        return grids[s]
    os.environ['REGIME_SWITCHING_FACTOR'] = '3.5'
    for simpson in (True, False):
        os.environ['SIMPSONS_NONEQ_PARTICLES'] = str(simpson)
        importlib.reload(NonEqParticle)
        for c in r.emitted:
            if not simpson and c['regime'] != 'non-equilibrium':
                continue
            if not c['laguerre'] and (c['quantity'] not in ('numerator', 'denominator') or c['regime'] not in ('dust', 'intermediate')):
                continue
            if c['linear'] and (not c['laguerre'] or c['quantity'] not in ('numerator', 'denominator')):
                continue
            os.environ['LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES'] = str(c['laguerre'])
            os.environ['LOGARITHMIC_TIMESTEP'] = str(not c['linear'])
            for k in range(6 if ctx.thorough else 3):
                one(ctx, c, k, simpson, Params, Particle, STATISTICS, mods[c['regime']], grid)
    for v in ('LOGARITHMIC_TIMESTEP', 'REGIME_SWITCHING_FACTOR', 'SIMPSONS_NONEQ_PARTICLES', 'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES'):
        os.environ.pop(v)
    importlib.reload(NonEqParticle)
    statistics(ctx, STATISTICS)


def one(ctx, c, k, simpson, Params, Particle, STATISTICS, mod, grid):
    regime, q = c['regime'], c['quantity']
    # nothing depends on the absolute scale of temperature, mass and momenta
    s = (1., 1e-8, 1e4, 1., 1e-3, 1e-12)[(k + ctx.seed) % 6] if ctx.thorough else (1., 10**ctx.rng.uniform(-9, -4), 10**ctx.rng.uniform(1, 4))[k % 3]
    T = s * ctx.rng.uniform(0.5, 1.6)
    grid = grid(s)
    params = Params(T=T, m=s * ctx.rng.choice([1., 0.7]), dy=0.05, dx=0.01 * s)
    params.a = ctx.rng.uniform(0.6, 1.5)
    params.aT = params.a * T
    params.x = params.a * params.m
    ratio = {'radiation': 0., 'dust': ctx.rng.uniform(4., 12.), 'intermediate': ctx.rng.uniform(0.3, 3.),
             'non-equilibrium': (0., 1.5, 6.)[k % 3]}[regime]
    dof = ctx.rng.choice([1, 2, 3, 4, 6])
    key = '%s %s boson=%s mass=%s laguerre=%s simpson=%s linear=%s' % (regime, q, c['boson'], ratio > 0, c['laguerre'], simpson, c['linear'])
    noneq = regime == 'non-equilibrium'
    with ctx.guard('thermodynamics', key=key):
        p = Particle(name='X', mass=ratio * T, dof=dof, params=params, grid=grid,
                     statistics=STATISTICS.BOSON if c['boson'] else STATISTICS.FERMION,
                     decoupling_temperature=10. * T if noneq else 0.)
        env = dict(g=dof, T=p.T, M=p.mass, a=params.a, aT=params.aT, x=params.x, m=params.m, Ts=params.T, eta=p.eta, Y=grid.MAX_MOMENTUM)
        if noneq:
            # whatever the species went through, its quantities are those of the distribution it has now
            p.aT = params.aT * 0.8
            p.T = p.aT / params.a
            tau, amp = ctx.rng.uniform(0.6, 1.8), ctx.rng.uniform(0.05, 0.4)
            y = grid.TEMPLATE

            def f(y):
                return amp * numpy.exp(-y / s / tau) * (1. + 0.3 * numpy.sin(y / s))

            def coll(y):
                return 0.02 / s * numpy.exp(-y / s / 2.) * (1. - y / s / 3.) * numpy.cos(y / s)
            p._distribution = f(y)
            p.collision_integral = coll(y)
            if hasattr(p, 'decoupling_temperature'):
                p.decoupling_temperature = max(p.decoupling_temperature, 2 * p.T)
            lazy = LazyEnv(env, f=f, I=coll)
            want = ev(c['want'], lazy)
        else:
            want = ev(c['want'], env)
        got = getattr(mod, q)(p)
        scale = 0.
        if q in ('numerator',) and noneq:
            scale = dof * 0.02 * 1e-3 * s**(3 if c['linear'] else 2)
        ctx.expect(terms.close(got, want, tolerance(regime, q, ratio), scale), '%s/%s' % (regime, q), key=key, got=got, want=want,
                   env={k: v for k, v in env.items()})
        # quantities the species object exposes are these ones, in whatever regime it is
        if not noneq and c['laguerre']:
            if regime == p.regime.name:
                got = getattr(p, q)
                got = got() if callable(got) else got
                p.update()
                ctx.expect(terms.close(got, want, tolerance(regime, q, ratio)), 'species/%s/%s' % (regime, q), key=key, got=got, want=want)
    ctx.count(part=regime)
    ctx.sample(dict(regime=regime, quantity=q, boson=c['boson']))


class LazyEnv(dict):
    """ f and I are functions of the integration variable """
    def __init__(self, base, **funcs):
        dict.__init__(self, base)
        self.funcs = funcs

    def copy(self):
        return LazyEnv(self, **self.funcs)

    def __getitem__(self, k):
        if k in self.funcs:
            return self.funcs[k](dict.__getitem__(self, 'y'))
        return dict.__getitem__(self, k)


def statistics(ctx, S):
    for e in (0.1, 1., 5., 40.):
        for mu in (0., 0.3):
            with ctx.guard('statistics'):
                if e > mu:
                    ctx.expect(terms.close(S.BOSON(e, mu), 1 / (numpy.exp(e - mu) - 1.), 1e-9), 'Bose-Einstein', key=str((e, mu)))
                ctx.expect(terms.close(S.FERMION(e, mu), 1 / (numpy.exp(e - mu) + 1.), 1e-9), 'Fermi-Dirac', key=str((e, mu)))
            ctx.count(part='statistics')
