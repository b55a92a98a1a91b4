"""P30: conservation of energy (and of the entropy of the plasma) in the expansion."""
import os
from collections import defaultdict

import numpy

import pybbn
import libspecies
from harness import quiet

FLOOR = 50
ASSUMPTIONS = ['energy and pressure as reported by the species after their update in every step; trapezoidal rule for the work',
               'agreement to first order of the step, relative to all energy that is exchanged or worked on']
LENGTH = 0.12
LIMIT = 0.004           # what is left of it for vanishing steps, of all energy exchanged or worked on
DECAY_MIXING = 1e-2


def check(ctx):
    pybbn.load()
    r = ctx.tlc('Conservation', constants=dict(Seeds=set(range(1, 9)) if ctx.thorough else {1, 2, 3}), invariants=['Conserved', 'Adiabatic', 'FreeIsPassive', 'Emit'])
    jobs = [(e, k, T) for k, e in enumerate(r.emitted) for T in ((0.4, 2.) if ctx.thorough else ((0.4, 2.)[k % 2],))]
    ctx.parallel(jobs, lambda j: world(ctx, *j))
    real = [('scattering', 3.), ('decays', 4.), ('plasma', 30.), ('plasma', 0.4)] + ([('plasma', 3.), ('plasma', 0.1), ('plasma', 200.)] if ctx.thorough else [])
    ctx.parallel(real, lambda j: real_world(ctx, *j))
    r = ctx.tlc('History', invariants=['Heats', 'Electrons', 'Stages', 'Emit'])
    todo = [e for n, e in enumerate(sorted(r.emitted, key=str)) if ctx.thorough or (n + ctx.seed) % 5 == 0
            or e['fates'] == dict(lepton='heavy', scalar='absent', neutral='free')]
    ctx.parallel(list(enumerate(todo)), lambda x: history(ctx, x[0], x[1]))


class Exchange(object):
    """ an interaction that gives a species a smooth collision integral """
    name = 'Exchange'
    integrals = ()

    def __init__(self, species, amplitude, scale, kind, mode):
        self.particle, self.amplitude, self.scale, self.kind, self.mode = species, amplitude, scale, kind, mode

    def initialize(self):
        self.particle.collision_integrals.append(self)

    def integrate(self, ps, stepsize=None):
        x = self.particle.params.x if self.mode == 'lin' else 1.
        return self.amplitude * numpy.exp(-numpy.asarray(ps) / self.scale) / x

    def __str__(self):
        return self.name


def run(build, length, h, mode, method):
    """ rows of (log a, T, aT, entropy, [per species: comoving energy, comoving energy minus three pressures]) """
    os.environ['LOGARITHMIC_TIMESTEP'] = str(mode == 'log')
    os.environ['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = str(method)
    from common import Params
    rows = []
    with quiet(), numpy.errstate(all='ignore'):
        u, T = build(h)

        def monitor(un):
            a = un.params.a
            names = [p.name for p in un.particles]
            rows.append((numpy.log(a), a, names, numpy.array([p.energy_density for p in un.particles]) * a**4,
                         numpy.array([p.energy_density - 3 * p.pressure for p in un.particles]) * a**4,
                         sum(p.entropy for p in un.particles) * a**3, [p.in_equilibrium for p in un.particles]))
            if rows[-1][0] - rows[0][0] >= length - 1e-9:
                raise Finished
        u.step_monitor = monitor
        try:
            u.evolve(1e-3 * T, export=False)
        except Finished:
            pass
    return rows


class Finished(Exception):
    pass


def residual(rows):
    """ energy that appeared, and all that was exchanged or worked on """
    la = numpy.array([r[0] for r in rows])
    E = numpy.array([r[3] for r in rows])
    W = numpy.array([r[4] for r in rows])
    dl = numpy.diff(la)[:, None]
    work = (W[1:] + W[:-1]) / 2 * dl
    gain = numpy.diff(E, axis=0) - work                # what every species got from the others, in every step
    return gain.sum(), numpy.abs(gain).sum() / 2 + numpy.abs(work).sum(), numpy.abs(E[0]).sum()


def judge(ctx, key, build, part, mode='log', method=True, length=LENGTH, sizes=(0.012, 0.006), coarse=0.06, fine=0.03):
    out = []
    with ctx.guard('conservation', key=key):
        for h in sizes:
            rows = run(build, length, h, mode, method)
            bad, all_, total = residual(rows)
            out.append((bad, all_, total, rows))
        (b1, a1, t1, _), (b2, a2, t2, rows) = out
        floor = 3e-7 * t1
        limit = 2 * b2 - b1                             # for vanishing steps
        ctx.expect(abs(b1) <= coarse * a1 + floor and abs(b2) <= fine * a2 + floor, 'energy changes by the work of the expansion only', key=key, got=[b1 / t1, b2 / t2], exchanged=[a1 / t1, a2 / t2])
        ctx.expect(abs(limit) <= LIMIT * a2 + floor, 'and the more so the smaller the steps', key=key, got=[b1 / t1, b2 / t2], exchanged=[a1 / t1, a2 / t2])
        if all(all(r[6]) for r in rows):
            S = numpy.array([r[5] for r in rows])
            ctx.expect(bool((numpy.abs(S / S[0] - 1) <= 1e-3 * (1 + 10 * 0.006)).all()), 'entropy of the plasma is conserved', key=key, got=S / S[0])
        ctx.count(part=part)
        ctx.sample(dict(run=key, residual=b2 / t2, exchanged=a2 / t2))


def world(ctx, e, k, T):
    from common import UNITS, Params, LinearSpacedGrid
    from evolution import Universe
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    from particles import Particle
    MeV = UNITS.MeV
    mode, method = ('log', 'lin')[(k // 2) % 2], (k // 4) % 2 == 0
    if mode == 'lin':
        method = False if k % 3 else True
    key = 'in equilibrium %s, free %s, coupled %s, T=%s, %s, AB=%s' % (sorted(e['hot']), sorted(e['free']), sorted(e['coupled']), T, mode, method)

    def build(h):
        kw = dict(dy=h) if mode == 'log' else dict(dx=h / T * MeV)
        u = Universe(params=Params(T=T * MeV, **kw))
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=201, MAX_MOMENTUM=25 * MeV)
        parts = []
        if 0 in e['hot']:
            parts.append(libspecies.particle('gam', grid=grid))
        if 12 in e['hot']:
            parts.append(libspecies.particle('e', grid=grid))
        inters = []
        for group in ('free', 'coupled'):
            for m in e[group]:
                p = Particle(name='%s%d' % (group, m), symbol='X', mass=(1. if m else 0.) * MeV, dof=4 if group == 'coupled' else 2, grid=grid, majorana=False, Q=0,
                             decoupling_temperature=2 * T * MeV)
                p.group = group
                parts.append(p)
        u.add_particles(parts)
        for p in parts:
            if getattr(p, 'group', '') == 'coupled':
                inters.append(Exchange(p, 0.3 if p.mass else -0.12, (1.5 if p.mass else 1.) * MeV, Kind.F_1, mode))
            if getattr(p, 'group', '') == 'free':
                p.update()
                p._distribution = p._distribution * 0.7
        u.interactions += inters
        return u, T * MeV
    judge(ctx, key, build, 'lattice worlds', mode, method)


def history(ctx, n, e):
    """ from well above to well below all masses: the heavy species heat the others """
    from common import UNITS, Params, LinearSpacedGrid, statistics
    from evolution import Universe
    from particles import Particle
    MeV = UNITS.MeV
    mode, method = ('log', 'lin')[n % 4 == 3], n % 2 == 0
    os.environ['LOGARITHMIC_TIMESTEP'] = str(mode == 'log')
    os.environ['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = str(method)
    key = '%s, %s, AB=%s' % (sorted(e['fates'].items()), mode, method)
    masses = [(0.6, 1., 1.7)[(n + i) % 3] * MeV for i in range(3)]
    T0 = 60. * MeV

    def run(h):
        kw = dict(dy=h) if mode == 'log' else dict(dx=h * MeV)
        u = Universe(params=Params(T=T0, **kw))
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=51, MAX_MOMENTUM=25 * MeV)
        parts, free = [libspecies.particle('gam', grid=grid)], []
        for (kind, fate), m in zip(sorted(e['fates'].items()), masses):
            if fate == 'absent':
                continue
            p = Particle(name=kind, symbol=kind, mass=m if fate == 'heavy' else 0., dof=dict(lepton=4, scalar=3, neutral=2)[kind], grid=grid,
                         statistics=statistics.BOSON if kind == 'scalar' else statistics.FERMION, majorana=False, Q=0,
                         decoupling_temperature=2 * T0 if fate == 'free' else 0.)
            parts.append(p)
            if fate == 'free':
                free.append(p)
        u.add_particles(parts)
        for p in u.particles:
            p.update()
        start = u.params.aT, [p.energy_density * u.params.a**4 for p in free]
        u.evolve(min(masses) / 25, export=False)
        u.update_particles()
        for p, rho in zip(free, start[1]):
            ctx.expect(abs(p.energy_density * u.params.a**4 / rho - 1) <= 1e-6, 'the free species are not heated', key=key, who=p.name)
        return (u.params.aT / start[0])**3
    with ctx.guard('history', key=key), quiet(), numpy.errstate(all='ignore'):
        coarse, got = [run(h) for h in ((0.04, 0.02) if mode == 'log' else (0.1, 0.05))]
        want = e['before'] / e['after']
        ctx.expect(abs(got / want - 1) <= 0.02 and abs((2 * got - coarse) / want - 1) <= 2e-3, 'the plasma is heated by what annihilates', key=key, got=[coarse, got], want=want)
        ctx.count(part='histories of the plasma')
        ctx.sample(dict(history=key, got=[coarse, got], want=want))


def real_world(ctx, what, T):
    from common import UNITS, Params, LinearSpacedGrid
    from evolution import Universe
    from common.utils import reaction_type
    from library import SM
    from library.SM import interactions as SMI
    from library.NuMSM import interactions as NuI
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    MeV = UNITS.MeV

    def build(h):
        u = Universe(params=Params(T=T * MeV, dy=h))
        if what == 'plasma':
            u.add_particles([libspecies.particle(n) for n in ('gam', 'e', 'mu', 'pi0', 'pi', 'ne', 'nm', 'nt')])
            return u, T * MeV
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=41, MAX_MOMENTUM=60 * MeV if what == 'decays' else 20 * MeV)
        ph, e = libspecies.particle('gam', grid=grid), libspecies.particle('e', grid=grid)
        nus = [libspecies.particle(n, grid=grid) for n in ('ne', 'nm', 'nt')]
        for n in nus:
            n.decoupling_temperature = 2 * T * MeV
        u.add_particles([ph, e] + nus)
        if what == 'scattering':
            for n, part in zip(nus, (0.6, 0.8, 0.9)):
                n.update()
                n._distribution = n._distribution * part
            u.interactions += SMI.neutrino_interactions(leptons=[e], neutrinos=nus[:2])[:3]
            u.init_oscillations(SM.particles.leptons.oscillations_map, nus)
        else:
            N = libspecies.sterile(30. * MeV, False, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=41, MAX_MOMENTUM=20 * MeV))
            N.decoupling_temperature = 2 * T * MeV
            u.add_particles([N])
            inters = NuI.sterile_leptons_interactions(thetas=defaultdict(float, {'electron': DECAY_MIXING}), sterile=N, neutrinos=nus[:1], leptons=[e], kind=Kind.F_1_vacuum_decay)
            for i in inters:        # decays have no reverse in this kind, the scatterings would lack theirs
                i.integrals = [c for c in i.integrals if reaction_type(c).CREATION or reaction_type(c).DECAY]
            u.interactions += inters
        return u, T * MeV
    judge(ctx, '%s at %s MeV' % (what, T), build, what, length=0.05 if what in ('scattering', 'decays') else LENGTH, sizes=(0.01, 0.005) if what in ('scattering', 'decays') else (0.012, 0.006))
