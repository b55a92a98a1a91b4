"""P20: the cascades of unstable products of the particle library."""
import itertools
from collections import Counter, defaultdict

import numpy

import pybbn
import terms
from terms import ev
from harness import quiet
from stubs import uniform
import libspecies
import p14

FLOOR = 400
MESONS = ('pi0', 'pi', 'K', 'KL', 'KS', 'eta', 'rho', 'rho0', 'omega', 'etap', 'phi')
ASSUMPTIONS = ['tau leptons are left out: the library gives them neither branching ratios nor hadronic decays',
               'creation: the kernel is a stand-in, the balance of P14 makes the number independent of it']


def check(ctx):
    p14.install([])
    from common import UNITS, CONST, Params
    pybbn.load()
    laws = ctx.tlc('Cascade', constants=dict(MaxPrimaries=1), init='InitChannel', next_='NextChannel', invariants=['EmitChannel'])
    channels = {}
    for e in laws.emitted:
        channels[(e['x'], tuple(sorted(o[0] for o in e['out'])))] = e
    r = ctx.tlc('Cascade', constants=dict(MaxPrimaries=4 if ctx.thorough else 3), spec='Spec0', workers=1,
                invariants=['Once', 'OnlyWhatOccurs', 'Complete', 'EmitCascade'], properties=['Ends'])
    seen = {}
    for e in r.emitted:
        seen[(tuple(sorted(e['prim'])), e['given'])] = e
    W = World(ctx, channels, UNITS, CONST, Params)
    for n, ((prim, given), e) in enumerate(sorted(seen.items())):
        perms = list(itertools.permutations(prim))
        if len(prim) > 2:
            keep = 2 if ctx.thorough else 1
            perms = [perms[(n * 7 + ctx.seed + i * 11) % len(perms)] for i in range(keep)]
        for k, perm in enumerate(perms):
            W.one(e, perm, given, n + k)
    W.widths()


class World(object):
    def __init__(self, ctx, channels, UNITS, CONST, Params):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
        from interactions import CrossGeneratingInteraction
        from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
        self.__dict__.update(locals())
        del self.self
        self.kinds = ((K.Full, 'F_creation', 'F_decay'), (K.F_1_vacuum_decay, 'F_1_vacuum_decay', 'F_f_vacuum_decay'),
                      (K.F_f_vacuum_decay, 'F_1_vacuum_decay', 'F_f_vacuum_decay'), (K.F_creation, 'F_creation', 'F_decay'), (None, 'F_creation', 'F_decay'))

    def species(self, names):
        self.params = params = self.Params(T=3. * self.UNITS.MeV, dy=0.05)
        params.h = 0.05
        params.H = 2e-22
        top = 1100. * self.UNITS.MeV * params.a
        world = {x: libspecies.particle(x, grid=uniform(221, top)) for x in names}
        for p in world.values():
            p.params = params
            p.T, p.aT = params.T, params.aT
            p._distribution = 1e-3 * numpy.exp(-p.grid.TEMPLATE / top * 3)
            p.density = 5e-9
            p.data['params'].append(dict(a=params.a, t=0., T=params.T, density=p.density, energy_density=1e-12))
        return world

    def primary(self, world, x):
        """ a heavy neutrino decaying into x """
        N = self.N
        if x in ('mu',):
            parts, anti = ((N,), (world['mu'], world['e'], world['ne'])), ((False,), (False, True, False))
            from library.SM import WeakM
            from interactions.four_particle import FourParticleIntegral
            return self.CrossGeneratingInteraction(name='primary', particles=parts, antiparticles=anti, Ms=(WeakM(K1=1., order=(0, 1, 2, 3)),),
                                                   integral_type=FourParticleIntegral, kind=self.K.F_1)
        other = world['e'] if world[x].Q else world['ne']
        return self.CrossGeneratingInteraction(name='primary', particles=((N,), (world[x], other)), antiparticles=((False,), (False, bool(world[x].Q))),
                                               Ms=(self.ThreeParticleM(K=1.),), integral_type=self.ThreeParticleIntegral, kind=self.K.F_1)

    def one(self, e, perm, given, n):
        from library.NuMSM import interactions as NuI
        from common import utils
        ctx = self.ctx
        kind, create, decay = self.kinds[n % len(self.kinds)]
        key = 'primary=%s muons %s kind=%s' % (','.join(perm), 'given' if given else 'not given', create)
        mesons = [x for x in MESONS if x in e['species']] if n % 2 else list(MESONS)
        mesons = [x for x in perm if x in mesons] + [x for x in mesons if x not in perm]
        if (n // 2) % 2:
            mesons = mesons[::-1]
        ctx.count(part='cascades')
        with ctx.guard('cascade', key=key):
            world = self.species(mesons + ['ne', 'nm', 'nt', 'e', 'mu', 'gam'])
            self.N = libspecies.sterile(1800. * self.UNITS.MeV, False)
            with quiet():
                inters = NuI.interactions_decay_products(
                    interactions_primary=[[self.primary(world, x)] for x in perm], muon_dec=given, neutrinos=[world[x] for x in ('ne', 'nm', 'nt')],
                    leptons=[world['e'], world['mu']], mesons=[world[x] for x in mesons], photon=[world['gam']], kind=kind)
            integrals = [it for inter in inters for it in inter.integrals]
            ways = Counter()
            created = defaultdict(list)
            expected = {(c[0], tuple(sorted(o[0] for o in self.out(c)))) for c in e['channels']}
            for it in integrals:
                t = utils.reaction_type(it)
                left = [i for i in it.reaction if i.side == -1]
                right = [i for i in it.reaction if i.side == 1]
                q = sum(i.side * (-1 if i.antiparticle else 1) * i.specie.Q for i in it.reaction)
                if not ctx.expect(abs(q) < 1e-9, 'electric charge is conserved', key=key, integral=str(it)):
                    continue
                for fl in ('electron', 'muon'):
                    number = sum(i.side * (-1 if i.antiparticle else 1) for i in it.reaction if getattr(i.specie, 'flavour', None) == fl)
                    ctx.expect(number == 0, 'lepton number is conserved', key=key, integral=str(it))
                if not ctx.expect(len(left) == 1 or len(right) == 1, 'only decays and creations', key=key, integral=str(it)):
                    continue
                parent, rest = (left[0], right) if len(left) == 1 else (right[0], left)
                c = (parent.specie.tag, tuple(sorted(i.specie.tag for i in rest)))
                if not ctx.expect(c in expected, 'a decay that is not one of the model', key=key, integral=str(it)):
                    continue
                want = getattr(self.K, decay if len(left) == 1 else create)
                ctx.expect(int(it.kind) == int(want), 'kind of the integral', key=key, integral=str(it), got=str(it.kind), want=str(want))
                if len(left) == 1:
                    ways[c] += 1
                else:
                    created[c].append(it)
            for c in expected:
                ctx.expect(ways[c] == 1, 'every decay once', key=key, channel=str(c), got=ways[c])
            if n % (4 if ctx.thorough else 9) == 0 or len(perm) == 1:
                self.numbers(key, world, created, expected, create)

    def out(self, c):
        """ products of channel number i of species x """
        return next(e['out'] for e in self.channels.values() if (e['x'], e['i']) == (c[0], c[1]))

    def numbers(self, key, world, created, expected, create):
        """ what a balanced creation integral yields, against the branching ratio and the multiplicity """
        ctx = self.ctx
        for c in sorted(expected):
            e = self.channels[c]
            parent = world[c[0]]
            parent.num_creation = N = 3e-9
            got = defaultdict(float)
            for it in created[c]:
                p = it.particle
                it.initialize()
                y = p.grid.TEMPLATE
                with quiet():
                    f = it.integrate(y, stepsize=self.params.h)
                f = f[0] if isinstance(f, tuple) else f
                states = p.dof if p.majorana else p.dof / 2.
                from scipy.integrate import simpson
                got[p.tag] += simpson(numpy.asarray(f) * states * y**2, x=y)
                ctx.count(part='creation integrals')
            parent.num_creation = 0
            for y in sorted(e['number']):
                a, b = e['number'][y]
                want = float(e['br']) * a / b * N
                ctx.expect(terms.close(got[y], want, 1e-6), 'number of products', key='%s -> %s: %s times %.3g' % (c[0], ' '.join(c[1]), y, got[y] / want), got=got[y] / N, want=want / N, case=key)
            ctx.expect(set(got) <= set(e['number']), 'number of products', key='%s -> %s' % (c[0], ' '.join(c[1])), got=sorted(got))

    def widths(self):
        """ the amplitudes reproduce the lifetimes and branching ratios """
        from library.SM import interactions as SMI
        from common import utils
        ctx, UNITS, CONST = self.ctx, self.UNITS, self.CONST
        world = self.species(list(MESONS) + ['ne', 'nm', 'nt', 'e', 'mu', 'gam'])
        with ctx.guard('amplitudes'):
            with quiet():
                inters = SMI.meson_interactions(primary_mesons=[world[x] for x in MESONS], mesons=[world[x] for x in MESONS], leptons=[world['e'], world['mu']],
                                                neutrinos=[world[x] for x in ('ne', 'nm', 'nt')], photon=[world['gam']], muon_tau=[0, 0], kind=None)
            env = {'m_' + x: p.mass for x, p in world.items()}
            for inter in inters:
                for it in inter.integrals:
                    t = utils.reaction_type(it)
                    if not t.DECAY:
                        continue
                    c = (it.particle.tag, tuple(sorted(i.specie.tag for i in it.reaction if i.side == 1)))
                    e = self.channels[c]
                    key = '%s -> %s' % (c[0], ' '.join(c[1]))
                    if c[0] == 'mu':
                        amp = sum(M.K1 for M in it.Ms)
                    else:
                        amp = sum(M.K for M in it.Ms)
                    width = ev(e['width'], dict(env, amp=amp))
                    br = width * it.particle.lifetime
                    ctx.expect(terms.close(br, float(e['br']) * e['spins'], 0.025), 'the amplitude reproduces the partial width', key=key, got=br, want=float(e['br']) * e['spins'])
                    sym = Counter(''.join(i.specie.symbol for i in it.reaction if i.side == 1))
                    own = [v for k, v in it.particle.BR.items() if Counter(k) == sym]
                    ctx.expect(len(own) == 1 and terms.close(own[0], float(e['br']), 1e-9), 'branching ratio', key=key, got=own, want=e['br'])
                    ctx.count(part='widths')
                    if len(set(c[1])) < len(c[1]):
                        continue    # the balance of the creation makes its amplitude irrelevant
                    for other in inters:
                        for jt in other.integrals:
                            if utils.reaction_type(jt).CREATION and jt.reaction[-1].specie is it.particle and \
                                    sorted(i.specie.tag for i in jt.reaction[:-1]) == list(c[1]):
                                back = sum(M.K1 if c[0] == 'mu' else M.K for M in jt.Ms)
                                ctx.expect(terms.close(back, amp, 1e-9), 'creation and decay have one amplitude', key=key, got=back, want=amp)
