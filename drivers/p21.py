"""P21: decays create what they destroy, in number and in energy (real library, real kernels)."""
import os
from collections import defaultdict

import numpy
from scipy.integrate import simpson

import pybbn
import terms
from terms import ev
from harness import quiet
from stubs import uniform
import libspecies
from p20 import MESONS

FLOOR = 60
TH = dict(electron=1e-3, muon=7e-4, tau=4e-4)
TOL = 0.05
ASSUMPTIONS = ['vacuum kinds: no Pauli blocking or inverse decays', 'numbers of electrons and photons, which are always in equilibrium, are not compared; their spectra are',
               'requested accuracy of the kernels is 1e-2']
BATH = ('e', 'gam')


def steps(r):
    x = round(r * 20) / 20.
    return x if x != 1. else 0.95 if r < 1 else 1.05


def check(ctx):
    pybbn.load()
    os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = '0.0'     # no interpolation between computed momenta (P14)
    for k in ('four_particle', 'three_particle'):
        pybbn.cpp(k)
    from common import UNITS, Params
    cas = dict(MaxPrimaries=1)
    rn = ctx.tlc('Balance', constants=cas, init='InitN', next_='NextChannel', invariants=['OddFermions', 'EmitN'])
    rx = ctx.tlc('Balance', constants=cas, init='InitX', next_='NextChannel', invariants=['EmitX'])
    W = World(ctx, UNITS, Params)
    cases = sorted(rn.emitted, key=lambda e: (e['c']['mN'], sorted(e['c']['th']), e['c']['maj'], e['c']['spectrum']))
    cases = [(W.sterile, e) for n, e in enumerate(cases) if ctx.thorough or not (n * 5 + ctx.seed) % 6]
    cases += [(W.unstable, e) for e in rx.emitted if ctx.thorough or e['c']['spectrum'] == 'warm' or e['c']['x'] in ('mu', 'pi')]
    ctx.parallel(cases, lambda x: x[0](x[1]))


class Source(object):
    def __init__(self, kind, particle, other, out):
        self.kind, self.particle, self.out = kind, particle, out
        from interactions import IntegralItem
        leg = lambda side, specie, i: IntegralItem(side=side, specie=specie, antiparticle=False, index=i, crossed=False)
        self.reaction = (leg(-1, particle, 0), leg(-1, other, 1), leg(1, other, 2))
        self.Ms = ()

    def integrate(self, ps, stepsize=None):
        return self.out.copy(), numpy.zeros(len(ps))


class World(object):
    def __init__(self, ctx, UNITS, Params):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
        from common import utils
        self.__dict__.update(locals())
        del self.self

    def species(self, names, parent, mass, spectrum, maj=False):
        """ everything empty but the parent; mass in MeV """
        MeV = self.UNITS.MeV
        T = mass * dict(cold=0.04, warm=0.12, fast=0.4)[spectrum]
        self.params = params = self.Params(T=T * MeV, dy=0.05)
        params.h, params.H = 0.05, 2e-22
        width = params.aT
        top_parent = 9 * width
        m = mass * MeV * params.a
        top = 0.5 * (numpy.sqrt(m**2 + top_parent**2) + top_parent)
        w = {x: libspecies.particle(x, decoupling_temperature=1e7 * MeV) for x in names}
        if parent == 'N':
            w['N'] = libspecies.sterile(mass * MeV, maj, decoupling_temperature=1e7 * MeV)
        self.top = top
        for x, p in w.items():
            p.grid = uniform(61, top_parent) if x == parent else uniform(121, top)
            p.params = params
            p.T, p.aT = params.T, params.aT
            y = p.grid.TEMPLATE
            p._distribution = 1e-2 * numpy.exp(-(numpy.sqrt(y**2 + (3 * width)**2) - 3 * width) / width) if x == parent else numpy.zeros(len(y))
            p.density = 5e-9
            p.data['params'].append(dict(a=params.a, t=0., T=params.T, density=p.density, energy_density=1e-12))
        return w

    def collect(self, inters, parent):
        """ channel -> decays, energy, created numbers and energies """
        ch = {}
        for inter in inters:
            for it in inter.integrals:
                t = self.utils.reaction_type(it)
                if not (t.CREATION or t.DECAY):
                    continue
                left = [i for i in it.reaction if i.side == -1]
                right = [i for i in it.reaction if i.side == 1]
                source, rest = (left[0], right) if t.DECAY else (right[0], left)
                if source.specie is not parent:
                    continue
                c = tuple(sorted(i.specie.tag for i in rest))
                d = ch.setdefault(c, dict(decays=0., energy=0., created=defaultdict(float), spent=defaultdict(float)))
                p = it.particle
                y = p.grid.TEMPLATE
                it.kind = self.K.F_1_vacuum_decay if t.CREATION else self.K.F_f_vacuum_decay
                it.initialize()
                with quiet():
                    f = it.integrate(y, stepsize=self.params.h)
                if t.DECAY:
                    f = (f[1] * p._distribution) if isinstance(f, tuple) else f
                else:
                    f = f[0] if isinstance(f, tuple) else f
                E = numpy.sqrt(y**2 + p.conformal_mass**2)
                n, e = p.dof * simpson(f * y**2, x=y), p.dof * simpson(f * y**2 * E, x=y)
                if t.DECAY:
                    d['decays'] -= n
                    d['energy'] -= e
                else:
                    d['created'][p.tag] += n
                    d['spent'][p.tag] += e
        return ch

    def compare(self, key, got, channels, produced=None):
        """ the products of a heavy neutrino are as many as its own integrals say; those of instantly decaying species as were produced """
        ctx = self.ctx
        want = {tuple(sorted(x for x, k in e['n'].items() for _ in range(k))): e for e in channels}
        ctx.expect(set(got) == set(want), 'channels that are open', key=key, missing=sorted(set(want) - set(got)), extra=sorted(set(got) - set(want)))
        for c in sorted(set(got) & set(want)):
            d, e = got[c], want[c]
            env = dict(decays=d['decays'], energy=d['energy'], produced=produced)
            for y in e['n']:
                env['created_' + y] = d['created'][y]
                env['energy_' + y] = d['spent'][y]
            name = '%s -> %s' % (key.split(':')[0], ' '.join(c))
            if not ctx.expect(d['decays'] > 0, 'the parent decays', key=name, case=key):
                continue
            if not ctx.expect(all(d['created'][y] > 0 for y in e['n'] if y not in BATH), 'every product is created', key=name, case=key, got=dict(d['created'])):
                continue
            ctx.count(part='channels')
            for y, t in e['number'].items():
                if y not in BATH or produced:
                    r = ev(t, env)
                    ctx.expect(abs(r - 1) < (1e-6 if produced else TOL), 'created as many as decayed', key=self.label(key, c, y) + ' times %.1f' % r, got=r, case=key)
            if all(d['created'][y] > 0 for y in e['n']):
                r = ev(e['energy'], env)
                ctx.expect(abs(r - 1) < 0.02, 'energy of the products is that of the parent', key=self.label(key, c) + ' times %.2f' % steps(r), got=r, case=key)

    def label(self, key, c, y=None):
        """ neutrino flavours are alike here, and so are the channels of a Majorana neutrino as far as numbers go """
        parent = key.split(':')[0]
        if parent == 'N (Majorana)' and y:
            return 'N (Majorana): products'
        if parent.startswith('N') and set(c) <= {'ne', 'nm', 'nt'}:
            return 'N -> %s neutrinos of one flavour:' % ('three' if len(set(c)) == 1 else 'two of three')
        return '%s -> %s:%s' % (parent.split(' ')[0], ' '.join(c), ' ' + y if y else '')

    def sterile(self, e):
        from library.NuMSM import interactions as NuI
        c = e['c']
        key = 'N%s: m=%s mixing=%s %s' % (' (Majorana)' if c['maj'] else '', c['mN'] * 1e-3, ','.join(sorted(c['th'])), c['spectrum'])
        with self.ctx.guard('sterile', key=key):
            w = self.species(['ne', 'nm', 'nt', 'e', 'mu', 'pi0', 'pi', 'rho', 'rho0', 'omega', 'phi'], 'N', c['mN'] * 1e-3, c['spectrum'], c['maj'])
            kw = dict(thetas={f: TH[f] if f in c['th'] else 0. for f in TH}, sterile=w['N'], neutrinos=[w[x] for x in ('ne', 'nm', 'nt')],
                      leptons=[w['e'], w['mu']], kind=self.K.F_1)
            with quiet():
                inters = NuI.sterile_leptons_interactions(**kw)
                inters = inters + NuI.sterile_hadrons_interactions(mesons=[w[x] for x in ('pi0', 'pi', 'rho', 'rho0', 'omega', 'phi')], **kw)
            self.compare(key, self.collect(inters, w['N']), e['channels'])

    def unstable(self, e):
        from library.SM import interactions as SMI
        c = e['c']
        key = '%s: %s' % (c['x'], c['spectrum'])
        with self.ctx.guard('unstable', key=key):
            names = list(MESONS) + ['ne', 'nm', 'nt', 'e', 'mu', 'gam']
            mass = libspecies.particle(c['x']).mass / self.UNITS.MeV
            w = self.species(names, c['x'], mass, c['spectrum'])
            parent = w[c['x']]
            parent.num_creation = 1e-9
            with quiet():
                if c['x'] == 'mu':
                    inters = SMI.lepton_interactions(leptons=[w['e'], w['mu']], neutrinos=[w['ne'], w['nm'], w['nt']], kind=self.K.F_1)
                else:
                    inters = SMI.meson_interactions(primary_mesons=[parent], mesons=[w[x] for x in MESONS], leptons=[w['e'], w['mu']],
                                                    neutrinos=[w[x] for x in ('ne', 'nm', 'nt')], photon=[w['gam']], muon_tau=[0, 0], kind=self.K.F_1)
            self.compare(key, self.collect(inters, parent), e['channels'], parent.num_creation)
            self.turnover(key, parent, inters, e)

    def turnover(self, key, parent, inters, e):
        """ a source produces the species; what the step leaves of it """
        ctx, K = self.ctx, self.K
        # wide enough for a thermal spectrum
        parent.grid = uniform(61, 7. * numpy.sqrt(parent.mass * self.params.a * self.params.aT))
        y = parent.grid.TEMPLATE
        parent._distribution = 1e-2 * numpy.exp(-y / y[-1] * 5.)
        produced = 2e-9 * (1. + (y / y[-1])) * numpy.exp(-y**2 / (2. * (0.25 * y[-1])**2))
        # a neutral and heavier one makes it
        other = [i.specie for inter in inters for it in inter.integrals for i in it.reaction if i.specie is not parent][0]
        source = Source(K.F_1_vacuum_decay, parent, other, produced)
        parent.collision_integrals = [source]
        for inter in inters:
            for it in inter.integrals:
                if it.particle is parent and self.utils.reaction_type(it).DECAY:
                    it.kind = K.F_f_vacuum_decay
                    it.initialize()
        ctx.expect(len(parent.collision_integrals) == 1 + len(e['channels']), 'the integrals of the decaying species take part', key=key, got=len(parent.collision_integrals))
        parent.decayed, parent.thermal_dyn = False, False
        with quiet():
            net = parent.integrate_collisions()
        states = parent.dof if parent.majorana else parent.dof / 2.
        total = lambda f: states * simpson(f * y**2, x=y)
        n = total(produced)
        ctx.expect(abs(parent.num_creation / n - 1) < 1e-9, 'the number of particles produced', key=key, got=parent.num_creation, want=n)
        r = ev(e['remains'], dict(net=total(net), produced=n)) / n
        ctx.expect(abs(r) < 1e-2 if hasattr(parent, 'thermalization') else abs(r) < 1e-6, 'decays of instantly decaying species balance their production', key=key, got=r)
        ctx.count(part='turnover')
