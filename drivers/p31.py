"""P31: scatterings conserve numbers and energy and do not lower the entropy (real library, real kernels)."""
import os
from collections import Counter, defaultdict

import numpy
from scipy.integrate import simpson

import pybbn
from harness import quiet
from stubs import uniform
import libspecies

FLOOR = 80
TH = 1e-3
FLAVOUR = dict(ne='electron', nm='muon', nt='tau')
SAMPLES, TOP = 84, 25.
TOL = 0.03
ASSUMPTIONS = ['all participants share one uniform grid of %d momenta' % SAMPLES, 'requested accuracy of the kernels is 1e-2',
               'residuals are relative to the integral of the absolute value of the collision integral']


def check(ctx):
    pybbn.load()
    os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = '0.0'     # no interpolation between computed momenta (P14)
    pybbn.cpp('four_particle')
    ctx.tlc('Scattering', constants={}, init='Lattice', next_='Fill', workers='auto', invariants=['Numbers', 'EnergyBalance', 'Entropy'])
    r = ctx.tlc('Scattering', constants={}, init='WorldInit', next_='Next', invariants=['KeepsNumber', 'KeepsCharge', 'Distorted', 'Emit'])
    cases = sorted(r.emitted, key=lambda e: (e['c']['heavy'], sorted(e['c']['nus']), sorted(e['c']['plasma']['lep']), e['c']['plasma']['T'], sorted(e['c']['th']), e['c']['turn']))
    if not ctx.thorough:
        cases = [e for n, e in enumerate(cases) if not (n * 5 + n // 4 + ctx.seed) % 11 or (e['c']['heavy'] and 'nm' in e['c']['th'] and e['c']['turn'] in (1, 3))]
    W = World(ctx)
    ctx.parallel(cases, W.run)


def canonical(left, right):
    return tuple(sorted([tuple(sorted(left)), tuple(sorted(right))]))


class World(object):
    def __init__(self, ctx):
        from common import UNITS, Params, utils
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
        self.__dict__.update(locals())
        del self.self

    def species(self, e):
        MeV = self.UNITS.MeV
        T = e['c']['plasma']['T'] / 10.
        params = self.Params(T=T * MeV, dy=0.05)
        params.h, params.H = 0.05, 2e-22 * T**5        # rates per expansion time of order one percent at any temperature
        w = {}
        for x, s in e['species'].items():
            if x == 'N':
                p = libspecies.sterile(e['c']['heavy'] / 10. * MeV, False, decoupling_temperature=1e7 * MeV)
            else:
                p = libspecies.particle(x, decoupling_temperature=1e7 * MeV)
            p.tag = x
            p.grid = uniform(SAMPLES, TOP * MeV)
            p.params = params
            p.T, p.aT = params.T, params.aT
            y = p.grid.TEMPLATE
            E = numpy.sqrt(y**2 + p.conformal_mass**2)
            t = s['T'] / 100. * MeV
            # masses beyond the temperature leave few particles: fill them up
            floor = max(0., p.conformal_mass / t - 3.)
            p._distribution = s['amp'] / 100. / (numpy.exp(E / t - floor) + 1) + s['peak'] / 100. * numpy.exp(-((y / MeV - s['centre'] / 100.) / 1.6)**2)
            p.density = 5e-9
            p.data['params'].append(dict(a=params.a, t=0., T=params.T, density=p.density, energy_density=1e-12))
            w[x] = p
        return w, params

    def run(self, e):
        from library.SM import interactions as SMI
        from library.NuMSM import interactions as NuI
        ctx, c, MeV = self.ctx, e['c'], self.UNITS.MeV
        key = 'nu=%s leptons=%s T=%s%s turn=%s' % (','.join(sorted(c['nus'])), ','.join(sorted(c['plasma']['lep'])), c['plasma']['T'] / 10.,
                                                 ' N=%s mixing=%s' % (c['heavy'] / 10., ','.join(sorted(c['th']))) if c['heavy'] else '', c['turn'])
        with ctx.guard('world', key=key):
            w, params = self.species(e)
            nus = [w[x] for x in ('ne', 'nm', 'nt') if x in w]
            leps = [w[x] for x in ('e', 'mu') if x in w]
            with quiet():
                if c['heavy']:
                    inters = NuI.sterile_leptons_interactions(thetas={f: TH if x in c['th'] else 0. for x, f in FLAVOUR.items()}, sterile=w['N'],
                                                              neutrinos=nus, leptons=leps, kind=self.K.Full)
                else:
                    inters = SMI.neutrino_interactions(leptons=leps, neutrinos=nus, kind=self.K.Full)
            want = {canonical(p['l'], p['r']): p for p in e['processes'] if ('N' in p['l'] + p['r']) == bool(c['heavy'])}
            got = defaultdict(lambda: defaultdict(lambda: numpy.zeros(5)))
            for inter in inters:
                for it in inter.integrals:
                    left = [i.specie.tag for i in it.reaction if i.side == -1]
                    right = [i.specie.tag for i in it.reaction if i.side == 1]
                    if len(left) != len(right):
                        continue                # decays: P21
                    p = it.particle
                    y = p.grid.TEMPLATE
                    it.initialize()
                    with quiet():
                        C = it.integrate(y, stepsize=params.h)
                    C = numpy.array(C[0] if isinstance(C, tuple) else C)
                    E = numpy.sqrt(y**2 + p.conformal_mass**2) / MeV
                    f = p._distribution
                    s = numpy.log((1 - f) / f)
                    got[canonical(left, right)][p.tag] += [p.dof * simpson(g * (y / MeV)**2, x=y / MeV) for g in (C, abs(C), C * E, abs(C) * E, C * s)]
            ctx.expect(set(got) == set(want), 'processes between these species', key=key, missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)))
            for g in sorted(set(got) & set(want)):
                self.balance(key, g, dict(got[g]), want[g])

    def balance(self, key, g, got, p):
        ctx = self.ctx
        name = '%s <-> %s' % tuple(' '.join(x) for x in g)
        ctx.count(part='processes')
        if not ctx.expect(set(got) == set(p['change']), 'every participant has a collision integral', key=name, case=key, got=sorted(got)):
            return
        gross = sum(v[1] for v in got.values())
        if not ctx.expect(gross > 0, 'the process happens', key=name, case=key):
            return
        # how often it happens: least squares of the changes of numbers
        q = sum(k * k for k in p['change'].values())
        rate = sum(k * got[x][0] for x, k in p['change'].items()) / q if q else 0.
        worst = max(abs(got[x][0] - k * rate) for x, k in p['change'].items()) / gross
        label = self.label(g, name)
        if label != name and not self.as_known(label, got, p['change'], gross):
            label = name                # out of proportion, but not in the way that is known
        ctx.expect(worst < TOL, 'numbers change in proportion', key=label, process=name, case=key, residual=worst, numbers={x: v[0] for x, v in got.items()})
        if 'N' in got and len(got) > 2:
            worst = max(abs(got[x][0] + k * got['N'][0]) for x, k in p['change'].items() if abs(k) == 1) / gross
            ctx.expect(worst < TOL, 'each heavy neutrino turns into or from one light one', key=name, case=key, residual=worst, numbers={x: v[0] for x, v in got.items()})
        energy = sum(v[2] for v in got.values()) / sum(v[3] for v in got.values())
        ctx.expect(abs(energy) < TOL, 'energy is conserved', key=label, process=name, case=key, residual=energy)
        entropy = sum(v[4] for v in got.values())
        ctx.expect(entropy > -TOL * gross, 'entropy does not decrease', key=label, process=name, case=key, got=entropy / gross)

    def as_known(self, label, got, change, gross):
        """ the imbalance is the one of the listed finding: which integrals are listed twice or not at all fixes its size """
        slack = TOL * gross
        N = got['N'][0]

        def within(x, lo, hi):
            a, b = sorted((lo * N, hi * N))
            return a - slack < got[x][0] < b + slack
        if label == 'N nu <-> e e':             # both processes counted twice for the electron, and nothing else
            energy = sum(v[2] / (2 if x == 'e' else 1) for x, v in got.items()) / sum(v[3] for v in got.values())
            return all(within(x, k * (-2 if x == 'e' else -1), k * (-2 if x == 'e' else -1)) for x, k in change.items()) and abs(energy) < TOL
        if label == 'N nu <-> nu nu of one flavour':        # of the three roles of the light neutrino some are missing
            return all(within(x, -0.4, -0.12) for x in got if x != 'N')
        if label == 'N nu_b <-> nu_a nu_b':
            return all(within(x, -1, -1) if change[x] else within(x, 0.3, 0.65) for x in got if x != 'N')
        energy = sum(v[2] for v in got.values()) / sum(v[3] for v in got.values())
        return all(within(x, -k, -k) for x, k in change.items()) and abs(energy) < 0.12

    def label(self, g, name):
        """ flavours of neutrinos are alike in scatterings of heavy neutrinos """
        a, b = (x if 'N' in x else None for x in g)
        if not (a or b):
            return name
        heavy, light = g if a else g[::-1]
        partner = [x for x in heavy if x != 'N'][0]
        if partner in FLAVOUR and light == ('e', 'e'):
            return 'N nu <-> e e'
        if partner in FLAVOUR and light[0] == light[1] != partner:
            return 'N nu_a <-> nu_b nu_b'
        if partner in FLAVOUR and partner in light:
            return 'N nu_b <-> nu_a nu_b' if len(set(light)) == 2 else 'N nu <-> nu nu of one flavour'
        return name
