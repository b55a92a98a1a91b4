"""P15: collision integrals advance the distribution of a species out of equilibrium."""
import os

import numpy
from scipy.integrate import simpson

import pybbn
import terms
from terms import ev
from stubs import Grid, reaction

FLOOR = 1500
ASSUMPTIONS = ['collision integrals are scripted values; their evaluation is P14, P19 and P20',
               'balances of fast-decaying species are compared with the quadrature on the grid of the species']


def species(params, mass=0.5, nodes=None, **kw):
    from common import UNITS
    from particles import Particle
    MeV = UNITS.MeV
    nodes = numpy.array([0., 1., 2., 4.]) if nodes is None else nodes
    kw.setdefault('decoupling_temperature', 3. * MeV)
    return Particle(name=kw.pop('name', 'X'), symbol=kw.pop('symbol', 'X'), mass=mass * MeV, grid=Grid(nodes * MeV), majorana=kw.pop('majorana', True), Q=0,
                    params=params, **kw)


class Scripted(object):
    def __init__(self, kind, out, particle, right=()):
        self.kind, self.out = kind, out
        if right:
            self.reaction = reaction([particle], list(right))
        self.particle = particle

    def integrate(self, ps, stepsize=None):
        return self.out


def check(ctx):
    pybbn.load()
    from common import UNITS, Params
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as CK
    MeV = UNITS.MeV
    kinds = dict(full=[CK.Full, CK.Full_vacuum_decay], loss=[CK.F_decay, CK.F_f_vacuum_decay], gain=[CK.F_creation, CK.F_1_vacuum_decay, CK.F_1])
    laws = dict(invariants=['TypeOK', 'RecordedEveryStep', 'Emit'], properties=['VanishedStaysVanished'])
    every = {'full', 'loss', 'gain'}
    for massive in (True, False):
        r = ctx.tlc('Kinetics', constants=dict(MaxSteps=2, Massive=massive, Kinds=every), **laws)
        s = ctx.tlc('Kinetics', constants=dict(MaxSteps=8, Massive=massive, Kinds=every), simulate=600 if ctx.thorough else 80, depth=10, seed=ctx.seed, **laws)
        for b in r.emitted + s.emitted:
            replay(ctx, b, massive, kinds, MeV, Params)
    ctx.sample([dict(kinds=row['kinds'], gone=row['gone']) for row in s.emitted[0]])
    active(ctx, MeV, Params)
    fast(ctx, MeV, Params, CK)
    for v in ('STERILE_DECAYED',):
        os.environ.pop(v, None)


def replay(ctx, b, massive, kinds, MeV, Params):
    params = Params(T=2. * MeV, dy=0.05)
    params.h = 0.05
    p = species(params, mass=0.5 if massive else 0.)
    rng = ctx.rng
    n0 = len(p.data['collision_integral'])
    thr = 1e-10 * (params.a_ini / 10)**3
    f, past, start = p._distribution.copy(), [], p.data['params']['density'][0]
    for k, row in enumerate(b):
        key = '%s: %s' % ('massive' if massive else 'massless', [(x['kinds'], x['dilute'], x['noise']) for x in b[:k + 1]])
        env = dict(h=params.h, f=f)
        its = []
        for i, kind in enumerate(row['kinds'], 1):
            vals = numpy.array([rng.uniform(-4., 3.) for _ in range(4)])
            env['C%d' % i] = env['G%d' % i] = vals
            env['B%d' % i] = numpy.array([rng.uniform(-3., 0.) for _ in range(4)])
            if kind == 'loss':
                env['G%d' % i] = vals = -numpy.abs(vals)
            # undefined at one momentum: 0/0 of the kernel
            bad = vals.copy()
            if row['noise'] and i == 1:
                bad[0] = numpy.nan
            its.append(Scripted(rng.choice(kinds[kind]), (bad, env['B%d' % i].copy()) if kind == 'full' else bad.copy(), p))
        for i, I in enumerate(past, 1):
            env['I%d' % i] = I
        want_I = ev(row['I'], env) * numpy.ones(4)
        if row['noise'] and not row['gone']:
            want_I[0] = 0.
        want_f = numpy.zeros(4) if row['gone'] else numpy.maximum(0., f + params.h * want_I)
        with ctx.guard('step', key=key):
            p.density = start * thr * (0.4 if row['dilute'] else 2.5)
            # the record goes on: dilution is relative to its beginning
            p.data['params'].append(dict(a=params.a, t=0., T=p.T, density=start * rng.choice([1., 1e-3, thr, 30.]), energy_density=1e-12))
            p.collision_integrals = its
            p.collision_integral = p.integrate_collisions()
            p.update_distribution()
            ctx.expect(terms.close(p.collision_integral, want_I, 1e-9, 1e-12), 'collision integral', key=key, got=p.collision_integral, want=want_I)
            ctx.expect(terms.close(p._distribution, want_f, 1e-9, 1e-12), 'new distribution', key=key, got=p._distribution, want=want_f)
            ctx.expect(numpy.all(p._distribution >= 0.), 'negative distribution', key=key)
            ctx.expect(bool(p.decayed) == row['gone'], 'vanished', key=key, got=p.decayed)
            ctx.expect(list(p.collision_integrals) == [], 'integrals of the step are kept for the next one', key=key)
            d = p.data
            ctx.expect(len(d['collision_integral']) - n0 == k + 1 and terms.close(d['collision_integral'][-1], want_I, 1e-9, 1e-12)
                       and terms.close(d['distribution'][-1], want_f, 1e-9, 1e-12), 'history of the species', key=key)
        past.append(want_I)
        f = want_f
    ctx.count(part='histories')


def active(ctx, MeV, Params):
    """ an integral joins a step exactly when its species is out of equilibrium below its decoupling temperature """
    from interactions.four_particle import FourParticleIntegral
    from interactions.three_particle import ThreeParticleIntegral
    for c in ctx.tlc('Kinetics', constants=dict(MaxSteps=1, Massive=True, Kinds={'gain'}), init='InitActive', next_='Next', invariants=['EmitActive'],
                     constraint=None).emitted:
        if c['legs'] == 1:
            continue
        for thermal in (True, False):
            if c['eq'] and not thermal:
                continue
            params = Params(T=dict(below=2., at=3., above=4.)[c['plasma']] * MeV, dy=0.05)
            p = species(params, thermal_dyn=thermal)
            p.T = 5. * MeV if c['eq'] else 1. * MeV
            others = [species(params, name=n, symbol=n) for n in 'BCD']
            it = (ThreeParticleIntegral if c['legs'] == 2 else FourParticleIntegral)(particle=p, reaction=reaction([p], others[:c['legs']]), Ms=[], kind=None)
            for again in range(2):
                p.collision_integrals = []
                with ctx.guard('activation', key=str(c)):
                    it.initialize()
                    ctx.expect((len(p.collision_integrals) == 1) == c['active'], 'activation', key=str(c), thermal=thermal, got=len(p.collision_integrals))
                ctx.expect(all(not o.collision_integrals for o in others), 'activation/other species', key=str(c))
            ctx.count(part='activation')


def fast(ctx, MeV, Params, CK):
    t = ctx.tlc('Kinetics', constants=dict(MaxSteps=0, Massive=True, Kinds={'gain'}), init='InitFast', invariants=['EmitFast']).emitted[0]
    nodes = numpy.linspace(0., 60., 241)
    loss_kinds, gain_kinds = (CK.F_decay, CK.F_f_vacuum_decay), (CK.F_creation, CK.F_1_vacuum_decay)
    rng = ctx.rng
    for n in range(120 if ctx.thorough else 40):
        thermal, therm, maj, brs = n % 2 == 0, n % 4 >= 2, n % 3 == 0, [[1.], [0.6, 0.4], [0.5, 0.3, 0.2]][n % 3]
        empty = n % 10 == 9
        params = Params(T=2. * MeV, dy=0.05)
        params.h, params.a = 0.05, 0.7
        params.aT = params.a * params.T
        products = [[species(params, name='B%d' % i, symbol=s) for s in syms] for i, syms in enumerate(('ab', 'cde', 'ff'))]
        extra = dict(thermalization=True) if therm else {}
        p = species(params, mass=6. if n % 5 else 100., nodes=nodes, majorana=maj, thermal_dyn=thermal, fast_decay=True, lifetime=3e20, dof=4,
                    decoupling_temperature=3. * MeV, BR={''.join(q.symbol for q in ps)[::-1]: br for ps, br in zip(products, brs)}, **extra)
        # modes with the same products in other numbers
        p.BR = {**{k + k[0]: 0.13 for k in p.BR}, **p.BR, **{k + k[-1] + k[0]: 0.07 for k in p.BR}}
        params.t = 5e20
        if n % 3 == 1:      # out of equilibrium from the start: it decays from the first step on
            now, params.t = params.t, 2e20
            p.update()
            p.update_distribution()
            params.t, tdec = now, 2e20
        else:
            p.t_decoupling = tdec = 2e20
        gains = [rng.uniform(0.1, 2.) * (0. if empty else 1.) * numpy.exp(-(nodes - rng.uniform(5., 20.))**2 / rng.uniform(8., 60.)) for _ in range(1 + n % 2)]
        losses = [-rng.uniform(0.5, 3.) * (1 + 0.01 * nodes) for _ in brs]
        zero = numpy.zeros(len(nodes))
        its = [Scripted(rng.choice(gain_kinds), (g, zero), p) for g in gains]
        for it in its:
            it.reaction = reaction([p, products[0][0], products[0][1]], [products[1][0]])
        its += [Scripted(rng.choice(loss_kinds), (zero, D), p, ps) for D, ps in zip(losses, products)]
        y, key = p.grid.TEMPLATE, 'thermal=%s thermalises=%s majorana=%s channels=%d empty=%s' % (thermal, therm, maj, len(brs), empty)
        states = p.dof if maj else p.dof / 2.
        feq = 1. / (numpy.exp(numpy.sqrt(y**2 + (p.mass * p.aT / p.decoupling_temperature)**2) / p.aT) + 1.)
        F = sum(gains)
        env = dict(h=params.h, F=F, y=y, Y=y[-1], m=p.mass * params.a, aT=p.aT, N=simpson(F * y**2, x=y), feq=feq, thermal=thermal,
                   tdec=tdec, t=params.t, tau=p.lifetime)
        env['bg'] = ev(t['background'], env) * numpy.ones(len(y))
        before = ev(t['thermal'] if therm else t['before'], env)
        with ctx.guard('fast decay', key=key):
            p.collision_integrals = its
            I = p.integrate_collisions()
            ctx.expect(terms.close(p._distribution, before, 1e-8, 1e-12), 'fast/distribution before the decays', key=key, got=p._distribution[:3], want=before[:3])
            created = states * simpson(F * y**2, x=y)
            ctx.expect(terms.close(p.num_creation, created, 1e-9, 1e-30), 'fast/number created', key=key, got=p.num_creation, want=created)
            env['before'] = before
            want = (before - env['bg']) / params.h          # what was created, thermalised or not
            for D, br in zip(losses, brs):
                shape = ev(t['loss'], dict(env, D=D))
                n_loss = -states * simpson(shape * y**2, x=y)
                want = want + (shape * br * created / n_loss if n_loss else 0.)
            ctx.expect(terms.close(I, want, 1e-8, 1e-10 * (1 + numpy.abs(want).max())), 'fast/collision integral', key=key)
            # everything created decays: no net change of the number
            net, scale = simpson(I * y**2, x=y), max(simpson(F * y**2, x=y), 1e-30)
            ctx.expect(abs(net) <= 1e-6 * scale + 1e-12 * bool(not empty), 'fast/created and decayed numbers differ', key=key, got=net, want=scale)
            # afterwards only the decayed thermal background is left
            p.collision_integral = I
            p.update_distribution()
            ctx.expect(terms.close(p._distribution, env['bg'] if thermal else zero, 1e-9, 1e-15), 'fast/what is left', key=key)
            ctx.expect(list(p.collision_integrals) == [], 'fast/integrals kept', key=key)
        ctx.count(part='fast')
