"""P14: how the contribution of one reaction is skipped, normalised and reported."""
import os

import numpy
from scipy.integrate import simpson

import pybbn
import terms
from terms import ev
from stubs import Grid, reaction

FLOOR = 4000
ASSUMPTIONS = ['the phase-space kernel itself is P19/P20: here it is replaced by a recording stand-in',
               'fast-decaying species only occur with the separate gain and loss kinds']
HNL = 'Sterile neutrino (Dirac)'
ENV = ('HNL_ENERGY', 'Relativistic_decoupling', 'MAX_MOMENTUM_MEV', 'LOGARITHMIC_TIMESTEP', 'FOUR_PARTICLE_GRID_RESOLUTION', 'STERILE_DECAYED')

# what the stand-in kernel returns at (dimensionless) momentum p, by kind
SHAPE = {'Full': (0.7, 0.11), 'F_1': (1.3, 0.2), 'F_f': (-0.4, -0.05), 'Full_vacuum_decay': (0.9, 0.3), 'F_creation': (2.1, 0.07),
         'F_decay': (-1.7, -0.3), 'F_1_vacuum_decay': (0.5, 0.6), 'F_f_vacuum_decay': (-2.5, -0.01)}


class Rec(object):
    def __init__(self, *names):
        self.names = names

    def __call__(self, *args, **kw):
        d = dict(zip(self.names, args))
        d.update(kw)
        return d


def install(calls):
    """ Put recorders in place of the compiled kernels before anything imports them. """
    pybbn.load()
    import sys
    assert 'interactions' not in sys.modules
    for kind, suffix in (('four_particle', ''), ('three_particle', '3')):
        m = pybbn.cpp(kind)
        setattr(m, 'M_t', Rec('order', 'K1', 'K2', 'K'))
        setattr(m, 'grid_t' + suffix, Rec('grid', 'distribution'))
        setattr(m, 'particle_t' + suffix, Rec('eta', 'm', 'grid', 'in_equilibrium', 'T'))
        setattr(m, 'reaction_t' + suffix, Rec('specie', 'side'))
    names4 = ('ps', 'min_1', 'max_1', 'min_2', 'max_2', 'max_3', 'reaction', 'Ms', 'stepsize', 'kind')
    names3 = ('ps', 'min_1', 'max_1', 'max_2', 'reaction', 'stepsize', 'kind')

    def kernel(names):
        def run(*args, **kw):
            d = Rec(*names)(*args, **kw)
            d['kind'] = KINDS[int(d['kind'])]
            d['ps'] = numpy.array(d['ps'], dtype=float)
            calls.append(d)
            a, b = SHAPE[d['kind']]
            return [a + b * p for p in d['ps']]
        return run
    KINDS = {int(getattr(pybbn.cpp().CollisionIntegralKind, k)): k for k in SHAPE}
    pybbn.cpp('four_particle').integration = kernel(names4)
    pybbn.cpp('three_particle').integration_3 = kernel(names3)


def check(ctx):
    calls = []
    install(calls)
    laws = ['GoneNeverCreates', 'OneSideIsNotEnough', 'ElasticOnce', 'PairsForFull', 'Emit']
    r3 = ctx.tlc('Integrals', constants=dict(Wide=ctx.thorough), init='Init3', invariants=laws)
    r4 = ctx.tlc('Integrals', constants=dict(Wide=ctx.thorough), init='Init4', invariants=laws, timeout=900)
    b = Builder(ctx, calls)
    for n, rec in enumerate(r3.emitted + r4.emitted):
        b.replay(rec, n)
    for v in ENV:
        os.environ.pop(v, None)
    ctx.sample(r3.emitted[3]['c'])
    ctx.sample(r4.emitted[5]['c'])
    b.coarse()


class Builder(object):
    def __init__(self, ctx, calls):
        self.ctx, self.calls, self.made = ctx, calls, 0
        from common import UNITS, CONST, Params
        from particles import Particle
        from interactions.four_particle import FourParticleIntegral, FourParticleM
        from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as kinds
        from common import statistics
        self.__dict__.update(locals())
        self.MeV = UNITS.MeV

    def particle(self, params, name, symbol, mass, nodes, **kw):
        """ comoving mass and nodes in MeV """
        MeV = self.MeV
        p = self.Particle(name=name, symbol=symbol, mass=mass * MeV / params.a, grid=Grid(numpy.asarray(nodes) * MeV), dof=kw.pop('dof', 2),
                          decoupling_temperature=1e3 * MeV, **kw)
        self.made += 1
        own = 1.1 + 0.07 * (self.made % 5)          # every species has a temperature of its own
        p.params, p.T, p.aT = params, params.T * own, params.aT * own
        p._distribution = numpy.linspace(0.4, 0.1, len(nodes)) * (1 + 0.1 * numpy.cos(numpy.arange(len(nodes))))
        p.density = 5e-9
        for factor in (1., 0.03, 20., 1e-9):         # dilution is relative to the first record
            p.data['params'].append(dict(a=params.a, t=0., T=params.T, density=p.density * factor, energy_density=1e-12))
        return p

    def replay(self, rec, n):
        ctx, c, MeV = self.ctx, rec['c'], self.MeV
        key = '%d/%d %s' % (c['legs'], n, {k: v for k, v in c.items() if v not in (False, [], 'no')})
        for v in ENV:
            os.environ.pop(v, None)
        os.environ['LOGARITHMIC_TIMESTEP'] = str(c['logstep'])
        if c['rel']:
            os.environ['Relativistic_decoupling'] = 'True'
        params = self.Params(T=30. * MeV, dy=0.05, dx=0.01 * MeV)
        params.T = dict(cold=0.8, mid=1.6, warm=2.5)[c['band']] * MeV
        params.a = (1.37, 0.31, 1.05)[n % 3] * MeV / params.T
        params.aT, params.x, params.H, params.h = params.a * params.T, params.a * params.m, 3.7e-22, 0.05
        nodes = numpy.linspace(0., 12., 13)
        heavy = 40. if c['legs'] == 4 else 2.5
        if c['hot']:
            heavy = 0.5 * params.T * params.a / MeV
        mass = 0. if c['massless'] else (heavy if c['type'] == 'decay' else 0.3 if c['legs'] == 3 else (0.3, 0., 1.1)[n % 3])
        evolved = self.particle(params, HNL if c['hnl'] == 'evolved' else ('evolved', 'Muon', 'Electron neutrino', 'Charged pion', 'Electron')[n % 5], 'A', mass, nodes, majorana=c['maj'], Q=-1 if c['charged'] else 0,
                                dof=4 if n % 2 else 2)
        wide = numpy.linspace(0., 250., 11)
        partner = [self.particle(params, 'partner %d' % i, s, m, wide * (1 + 0.1 * i), majorana=False, Q=0,
                                 statistics=self.statistics.BOSON if i == 1 else self.statistics.FERMION)
                   for i, (s, m) in enumerate(zip('BCD', (0., 0.6, 0.)))]
        parent = self.particle(params, 'parent', 'P', heavy, wide * 0.8, majorana=c['parentMaj'], Q=0)
        parent.decayed = c['gone']
        if c['hnl'] == 'other':
            if c['type'] == 'creation' and (n % 2 or c['copies'] == c['legs'] - 1):
                parent.name = HNL
            else:
                partner[0].name = HNL
        L = c['legs']
        if c['type'] == 'creation':
            left, right = [evolved] * c['copies'] + partner[:L - 1 - c['copies']], [parent]
        elif c['type'] == 'decay':
            left, right = [evolved], partner[:L - 1]
        else:
            if c['copies'] == 2:
                left, right = [evolved, evolved], [evolved] * c['back'] + partner[:2 - c['back']]
            else:
                left, right = [evolved, partner[1]], [evolved] * c['back'] + [partner[0], partner[2]][:2 - c['back']]
        source = parent if c['type'] == 'creation' else evolved
        if c['evolvedFast']:
            evolved.fast_decay, evolved.num_creation, evolved.BR = True, 3e-9, {}
        if c['parentFast']:
            source.fast_decay, source.num_creation = True, (0 if c['empty'] else 2.5e-9)
        products = ''.join(p.symbol for p in (left if c['type'] == 'creation' else right))
        same = [products + x for x in products] + [x for x in {products[0], products[-1]} if len(set(products)) == 1]
        source.BR = {'XYZ': 0.9, same[0]: 0.11, products[::-1]: 0.35, 'AXB': 0.2, **{x: 0.07 for x in same[1:]}}
        legs = left + right
        thr = ev(rec['threshold'], dict(a_ini=params.a_ini))
        for i, p in enumerate(legs):
            ini = p.data['params']['density'][0]
            p.density = ini * thr * (0.5 if i + 1 in c['diluted'] else 2.)
        for i in c['diluted']:
            legs[i - 1].density = legs[i - 1].data['params']['density'][0] * thr * 0.5
        kind = getattr(self.kinds, c['kind'])
        if L == 4:
            unit = 32 * self.CONST.G_F**2
            Ms = [self.FourParticleM(K1=1.7 * unit, K2=-0.6 * unit, order=(0, 3, 1, 2)), self.FourParticleM(K1=0.4 * unit, order=(0, 1, 2, 3))]
            cls = self.FourParticleIntegral
        else:
            Ms = [self.ThreeParticleM(K=3e-9), self.ThreeParticleM(K=1.1e-9)]
            cls = self.ThreeParticleIntegral
        it = cls(particle=evolved, reaction=reaction(left, right), Ms=Ms, kind=kind, washout_temperature=0)
        for again in range(2 if n % 7 == 0 else 1):
            if again:
                params.a *= 1.03
                params.aT *= 1.01
                params.x = params.a * params.m
                for p in set(legs):
                    p._distribution = p._distribution * 0.9
            with ctx.guard('integrate', key=key):
                it.initialize()
                del self.calls[:]
                out = it.integrate(evolved.grid.TEMPLATE, stepsize=params.h)
                self.judge(rec, key, it, out, legs, evolved, source, params)
        ctx.count(part='%d %s %s' % (L, c['type'], 'skipped' if rec['skip'] else 'computed'))

    def judge(self, rec, key, it, out, legs, evolved, source, params):
        ctx, c, MeV = self.ctx, rec['c'], self.MeV
        N = evolved.grid.MOMENTUM_SAMPLES
        where = '%d legs/%s/' % (c['legs'], c['type'])
        if rec['pair']:
            if not ctx.expect(isinstance(out, tuple) and len(out) == 2, where + 'result is not a pair', key=key, got=type(out)):
                return
            got = [numpy.asarray(o, dtype=float) for o in out]
        else:
            if not ctx.expect(isinstance(out, numpy.ndarray), where + 'result is not one array', key=key, got=type(out)):
                return
            got = [out]
        if not ctx.expect(all(g.shape == (N,) for g in got), where + 'length of the result', key=key, got=[g.shape for g in got]):
            return
        if rec['free']:
            return
        if rec['skip']:
            ctx.expect(not any(g.any() for g in got), where + 'reaction that cannot proceed contributes', key=key, got=got)
            return
        y = evolved.grid.TEMPLATE
        p = y / params.aT
        env = dict(g=evolved.dof, a=params.a, aT=params.aT, x=params.x, H=params.H, GF=self.CONST.G_F, m1=evolved.mass, f=evolved._distribution,
                   a_ini=params.a_ini, M=sum(m.K for m in it.Ms))
        for k, (a, b) in SHAPE.items():
            env['kernel.' + k] = a + b * p
        norm = numpy.append(ev(rec['norm0'], env), numpy.repeat(ev(rec['norm'], env), N - 1))
        states = evolved.dof if c['maj'] else evolved.dof / 2.
        if c['type'] == 'creation' and c['parentFast']:
            env.update(BR=0.35, created=source.num_creation, unscaled=simpson(env['kernel.' + c['kind']] * norm * states * y**2, x=y))
            env['balance'] = ev(rec['balance'], env)
        want = [ev(t, env) * norm * numpy.ones(N) for t in rec['parts']]
        if c['kind'] == 'Full_vacuum_decay' and not all(terms.close(g, w, 1e-8) for g, w in zip(got, want)):
            plain = [ev(t, env) * norm * numpy.ones(N) for t in rec['medium']]
            if all(terms.close(g, w, 1e-8) for g, w in zip(got, plain)):
                ctx.fail('vacuum decay balance computed in the medium', key='%d legs' % c['legs'], case=key)
                return
        for i, (g, w) in enumerate(zip(got, want)):
            ctx.expect(terms.close(g, w, 1e-8), where + 'contribution %d' % i, key=key, got=g[:4], want=w[:4])
        self.kernel_arguments(where, key, it, legs, evolved, params)

    def kernel_arguments(self, where, key, it, legs, evolved, params):
        """ the kernel works with momenta, masses and temperatures in units of the plasma temperature """
        ctx = self.ctx
        for call in self.calls:
            ctx.expect(terms.close(call['ps'], evolved.grid.TEMPLATE / params.aT, 1e-12), where + 'kernel momenta', key=key)
            for leg, item in zip(call['reaction'], it.reaction):
                s, p = leg['specie'], item.specie
                ctx.expect(leg['side'] == item.side and s['eta'] == p.eta and bool(s['in_equilibrium']) == bool(p.in_equilibrium),
                           where + 'kernel species flags', key=key)
                ctx.expect(terms.close(s['m'], p.mass * params.a / params.aT, 1e-12) and terms.close(s['T'], p.aT / params.aT, 1e-12),
                           where + 'kernel mass or temperature', key=key, got=(s['m'], s['T']))
                ctx.expect(terms.close(s['grid']['grid'], p.grid.TEMPLATE / params.aT, 1e-12) and terms.close(s['grid']['distribution'], p._distribution, 1e-14),
                           where + 'kernel sees a stale or wrong distribution', key=key)
            tops = [p.grid.MAX_MOMENTUM / params.aT for p in legs]
            got = [call[k] for k in (('min_1', 'max_1', 'min_2', 'max_2', 'max_3') if len(legs) == 4 else ('min_1', 'max_1', 'max_2'))]
            want = [0., tops[1], 0., tops[2], tops[3]] if len(legs) == 4 else [0., tops[1], tops[2]]
            ctx.expect(terms.close(got, want, 1e-12), where + 'kernel bounds', key=key, got=got, want=want)
            if len(legs) == 4:
                unit = 32 * self.CONST.G_F**2
                ctx.expect([list(M['order']) for M in call['Ms']] == [list(M.order) for M in it.Ms] and
                           terms.close([[M['K1'], M['K2'], M.get('K', 0.)] for M in call['Ms']], [[M.K1 / unit, M.K2 / unit, M.K / unit] for M in it.Ms], 1e-12),
                           where + 'kernel matrix elements', key=key)

    def coarse(self):
        """ grids finer than the four-particle resolution are computed coarsely and filled in linearly: exact for linear kernels """
        ctx, MeV = self.ctx, self.MeV
        for n in (13, 41, 97, 200):
            for res in (0.07, 0.3, 0.9, 2.5):
                for kind in ('Full', 'F_1', 'F_decay'):
                    for v in ENV:
                        os.environ.pop(v, None)
                    os.environ['FOUR_PARTICLE_GRID_RESOLUTION'] = repr(res)
                    params = self.Params(T=30. * MeV, dy=0.05)
                    params.T, params.a, params.h = 2.5 * MeV, 0.5, 0.05
                    params.aT, params.x, params.H = params.a * params.T, params.a * params.m, 3.7e-22
                    nodes = numpy.linspace(0., 12., n)
                    A = self.particle(params, 'A', 'A', 0., nodes, majorana=False, Q=0)
                    B = [self.particle(params, x, x, 0., nodes, majorana=False, Q=0) for x in 'BCD']
                    A._distribution = numpy.full(n, 0.25)
                    it = self.FourParticleIntegral(particle=A, reaction=reaction([A, B[0]], B[1:]), Ms=[self.FourParticleM(K1=1., order=(0, 1, 2, 3))],
                                                   kind=getattr(self.kinds, kind), washout_temperature=0)
                    key = 'n=%d resolution=%s %s' % (n, res, kind)
                    with ctx.guard('coarse grid', key=key):
                        it.initialize()
                        del self.calls[:]
                        out = it.integrate(A.grid.TEMPLATE, stepsize=params.h)
                        parts = out if kind == 'Full' else [out]
                        p = A.grid.TEMPLATE / params.aT
                        lin = lambda k: SHAPE[k][0] + SHAPE[k][1] * p
                        shapes = dict(Full=[lin('F_1') + 0.25 * lin('F_f'), lin('F_f')], F_1=[lin('F_1')], F_decay=[0.25 * lin('F_decay')])[kind]
                        for got, want in zip(parts, shapes):
                            got = numpy.asarray(got)
                            ok = got.shape == want.shape and terms.close(got / want, numpy.full(n, got[0] / want[0]), 1e-8)
                            ctx.expect(ok, 'coarse grid/filled in', key=key, got=got[:5])
                        used = self.calls[0]['ps']
                        fine = 12. / (n - 1) < res
                        ctx.expect(len(used) <= n and (fine or len(used) == n), 'coarse grid/nodes used', key=key, got=len(used))
                        ctx.expect(terms.close(used[[0, -1]], p[[0, -1]], 1e-12) and set(numpy.round(used, 9)) <= set(numpy.round(p, 9)),
                                   'coarse grid/ends', key=key, got=used[[0, -1]])
                    ctx.count(part='coarse')
