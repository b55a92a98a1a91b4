"""P07: interpolation of sampled distribution functions and of tables."""
import numpy

import pybbn
import terms
from terms import ev
from p06 import G

FLOOR = 800
ASSUMPTIONS = ['tables are not interpolated below their first node (their grids start at zero momentum)']


class Stub(object):
    """ The attributes the Python interpolation reads. """
    def __init__(self, grid, f, eta, T, eq):
        self.grid, self._distribution, self.eta, self.aT, self.in_equilibrium = G(grid), numpy.array(f), eta, T, eq

    @staticmethod
    def conformal_energy(y, mass=0):
        return numpy.sqrt(y**2 + mass**2)


def check(ctx):
    pybbn.load()
    import common
    impl = [(k, lambda grid, f, p, m, eta, T, eq, k=k:
             pybbn.cpp(k).distribution_interpolation(list(grid), list(f), p, m, eta, T, eq))
            for k in ('four_particle', 'three_particle')]
    impl.append(('python', lambda grid, f, p, m, eta, T, eq:
                 float(numpy.ravel(common.interp(Stub(grid, f, eta, T, eq), p, m))[0])))
    rows = [[0, 1, 20, 50, 80, 45, 99, 100, 30, 120, 250, 7, 3], [60, 40, 40, 25, 12, 5, 2, 1, 0, 0, 1],
            [90, 3], [100, 50, 100], [10, 200, 10]]
    if ctx.thorough:
        rows += [[ctx.rng.choice([0, 1, 5, 30, 70, 100, 130]) for _ in range(12)] for _ in range(8)]
    for values in rows:
        r = ctx.tlc('Interpolation', constants=dict(Values=values),
                    invariants=['Nodes', 'Constant', 'Bounded', 'ExactOnLines', 'ExactOnParabolas', 'Emit'])
        for c in r.emitted:
            if c['kind'] == 'table':
                if values is rows[0]:
                    table(ctx, common, c)
                continue
            for rep in range(3):
                one(ctx, impl, values, c, rep)
    exactness(ctx, impl)
    with_particles(ctx)
    decoupled(ctx)


def one(ctx, impl, values, c, rep):
    n = len(values)
    grid = numpy.cumsum([0.] + [ctx.rng.uniform(0.2, 1.5) for _ in range(n - 1)]) * (1., 0.01, 2.)[rep]
    T = (1., 0.02, 3.)[rep] * ctx.rng.uniform(0.5, 2.)
    m = ctx.rng.uniform(0.1, 3.) * T if c['massive'] else 0.
    f = numpy.array([v / 100. for v in values])
    i = c['i'] - 1
    p = {'node': lambda: grid[i], 'cell': lambda: grid[i] + (0.5, 0.05, 0.93)[rep] * (grid[i + 1] - grid[i]),
         'above': lambda: grid[-1] * (1.0001, 1.5, 2.)[rep], 'below': lambda: -0.1,
         'equilibrium': lambda: (0.3 * grid[1], grid[-1] * 1.7, 0.)[rep]}[c['where']]()
    p = float(p)
    if c['where'] == 'equilibrium' and c['eta'] == -1 and m == 0 and p == 0:
        p = float(grid[1])
    key = '%s i=%d eta=%d values=%s' % (c['where'], i, c['eta'], values)
    for name, fn in impl:
        if c['where'] == 'below':
            try:
                got = fn(grid, f, p, m, c['eta'], T, False)
            except Exception:       # noqa
                continue
            ctx.fail('below the grid is an error/' + name, key=key, got=got)
            continue
        env = dict(p=p, m=m, eta=c['eta'], T=T)
        env.update({'p%d' % (k + 1): float(x) for k, x in enumerate(grid)})
        want = ev(c['want'], env)
        with ctx.guard('distribution/' + name, key=key):
            try:
                got = fn(grid, f, p, m, c['eta'], T, c['where'] == 'equilibrium')
            except RuntimeError as e:
                ctx.fail('distribution/' + name, key=key, error=str(e))
                continue
            ctx.expect(terms.close(got, want, 1e-9, 1e-14), '%s/%s' % (c['where'], name), key=key, got=got, want=want,
                       p=p, m=m, T=T, grid=grid)
    ctx.count(part='distribution ' + c['where'])
    ctx.sample(dict(where=c['where'], eta=c['eta'], values=values, p=p))


def table(ctx, common, c):
    xs, ys = numpy.array(c['xs'], dtype=float), numpy.array(c['ys'], dtype=float)
    x = c['x'][0] / c['x'][1]
    key = '%s %s %s' % (c['xs'], c['ys'], x)
    for name, fn in (('linear', common.linear_interpolation), ('cubic', common.cubic_interpolation)):
        with ctx.guard('table/' + name, key=key):
            got = fn(ys, xs)(x)
            want = c[name][0] / c[name][1]
            ctx.expect(terms.close(float(got), want, 1e-12, 1e-12), 'table/' + name, key=key, got=got, want=want)
    ctx.count(part='table')


def exactness(ctx, impl):
    """ an equilibrium distribution sampled on any grid is reproduced between the nodes """
    for k in range(40 if ctx.thorough else 12):
        eta = ctx.rng.choice([1, -1])
        T, m = ctx.rng.uniform(0.5, 2.), ctx.rng.choice([0.05, 1., 5.])
        grid = numpy.cumsum([0.] + [ctx.rng.uniform(0.05, 1.) for _ in range(20)])

        def eq(p):
            return 1. / (numpy.exp(numpy.sqrt(p * p + m * m) / T) + eta)
        for j in range(10):
            p = ctx.rng.uniform(0., grid[-1])
            for name, fn in impl:
                with ctx.guard('exactness', key=name):
                    got = fn(grid, eq(grid), p, m, eta, T, False)
                    ctx.expect(terms.close(got, eq(p), 1e-9), 'equilibrium is reproduced/' + name, key='eta=%d' % eta, got=got, want=eq(p))
        ctx.count(part='exactness')


def with_particles(ctx):
    """ Particle.distribution goes through the same interpolation with the particle's own data """
    from common import UNITS, Params, LinearSpacedGrid
    from particles import Particle
    from library.SM import particles as SMP
    for spec in (SMP.leptons.neutrino_e, SMP.leptons.electron, SMP.photon):
        params = Params(T=2. * UNITS.MeV, dy=0.05)
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=15, MAX_MOMENTUM=20 * UNITS.MeV)
        with ctx.guard('particle', key=spec['name']):
            p = Particle(params=params, grid=grid, **spec)
            for y in (0.3, 1.7, 13.11, 20., 27.):
                if p.in_equilibrium:
                    want = 1. / (numpy.exp(numpy.sqrt(y**2 + (p.mass / UNITS.MeV * params.a)**2)) + p.eta)
                    got = p.distribution(y * UNITS.MeV)
                    ctx.expect(terms.close(got, want, 1e-9), 'particle in equilibrium', key=spec['name'], got=got, want=want, y=y)
                    ctx.count(part='particle')
            # the same particle once its distribution is dynamical
            out = Particle(params=params, grid=grid, **dict(spec, decoupling_temperature=params.T, thermal_dyn=True))
            out._distribution = numpy.exp(-grid.TEMPLATE / UNITS.MeV / 1.3) * 0.6
            for y in (0.3, 1.7, 13.11, 20., 27.):
                env_T = params.aT
                got = out.distribution(y * UNITS.MeV)
                want = pybbn.cpp().distribution_interpolation(list(grid.TEMPLATE), list(out._distribution), y * UNITS.MeV,
                                                              out.mass * params.a, int(out.eta), env_T, False)
                ctx.expect(terms.close(got, want, 1e-9), 'decoupled particle', key=spec['name'], got=got, want=want, y=y,
                           eq=out.in_equilibrium)
                ctx.count(part='particle')


def decoupled(ctx):
    """ a species that leaves the plasma with a thermal spectrum keeps it, between the nodes as well """
    from common import UNITS, Params, LinearSpacedGrid
    from particles import Particle
    from library.SM import particles as SMP
    MeV = UNITS.MeV
    specs = [(SMP.leptons.neutrino_e, 0., 2.), (SMP.leptons.electron, 0.511, 2.), (SMP.leptons.electron, 3., 2.), (SMP.leptons.muon, 30., 12.), (SMP.hadrons.neutral_pion, 20., 15.)]
    for spec, mass, Td in specs:
        for grow in (1.001, 1.7, 4.):
            params = Params(T=2 * Td * MeV, dy=0.05)
            grid = LinearSpacedGrid(MOMENTUM_SAMPLES=12, MAX_MOMENTUM=20 * MeV)
            with ctx.guard('decoupled', key=spec['name']):
                p = Particle(params=params, grid=grid, **dict(spec, mass=mass * MeV, decoupling_temperature=Td * MeV, thermal_dyn=True))
                # entropy of the others heats the plasma a little before it decouples
                params.aT *= 1.1
                for T in (Td * (1 + 1e-9), Td * (1 - 1e-9), Td / grow):
                    params.T = T * MeV
                    params.a = params.aT / params.T
                    params.x = params.a * params.m
                    p.update()
                if p.in_equilibrium:
                    ctx.fail('decoupled below its decoupling temperature', key=spec['name'])
                    continue
                m, aT = mass * params.aT / Td, params.aT
                for y in (0.2, 1.1, 5.3, 14.9, 19.99, 20., 24.):
                    want = 1. / (numpy.exp(numpy.sqrt((y * MeV)**2 + m**2) / aT) + p.eta)
                    if y > 20.:      # continued as the Boltzmann tail
                        e = lambda z: numpy.sqrt((z * MeV)**2 + m**2)
                        want = 1. / (numpy.exp(e(20.) / aT) + p.eta) * numpy.exp((e(20.) - e(y)) / aT)
                    got = float(p.distribution(y * MeV))
                    ctx.expect(terms.close(got, want, 1e-6), 'a frozen thermal spectrum is interpolated exactly', key=spec['name'], got=got, want=want, y=y, grow=grow)
                    ctx.count(part='decoupled')
