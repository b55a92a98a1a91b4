"""P13: collision integrals cover every momentum the kinematics can reach and are zero elsewhere."""
import os

import numpy

import pybbn
import terms
from terms import ev
from stubs import Grid, Integral

FLOOR = 2000
ASSUMPTIONS = ['bounds that coincide with a grid node to the last bit are exercised through the configured cutoff only']
NAMES = ('MAX_MOMENTUM_MEV', 'HNL_ENERGY')


def check(ctx):
    pybbn.load()
    from common import kinematics as kin, UNITS, Params
    from particles import Particle
    MeV = UNITS.MeV
    r = ctx.tlc('Cutoffs', constants=dict(K=5 if ctx.thorough else 4), invariants=['Covers', 'Contiguous', 'Tight', 'Emit'])
    params = Params(T=2. * MeV, dy=0.05)

    def particle(name, grid, mass=0.):
        return Particle(name=name, symbol=name, mass=mass, grid=grid, majorana=False, Q=0, params=params)
    wide = Grid([0., 1. * MeV])
    for c in r.emitted:
        nodes = [v * MeV for v in c['grid']]
        g = Grid(nodes)
        key = str({k: v for k, v in c.items() if k not in ('zone', 'hi')})
        want_ps = numpy.array([v * MeV for v in c['zone']])
        before = len([v for v in c['grid'] if v < c['zone'][0]])
        after = len(c['grid']) - before - len(c['zone'])
        for v in NAMES:
            os.environ.pop(v, None)
        with ctx.guard('cutoff', key=key):
            if c['legs'] == 4:
                os.environ['MAX_MOMENTUM_MEV'] = str(c['env'])
                name = 'Sterile neutrino (Dirac)' if c['isH'] else 'X'
                if c['kind'] == 'creation':
                    parent = particle('P', Grid([0., c['hnl'] * MeV]))
                    it = Integral([particle(name, g), particle('B', wide), particle('C', wide)], [parent])
                else:
                    if c['hnl']:
                        os.environ['HNL_ENERGY'] = repr(c['hnl'] * MeV)
                    x, b = particle(name, g), [particle('B', wide) for _ in range(3)]
                    it = Integral([x, b[0]], b[1:]) if c['kind'] == 'scattering' else Integral([x], b)
                ps, s1, s2 = kin.grid_cutoff_4p(it)
                ctx.expect(terms.close(s1, want_ps, 1e-12), 'four/%s/computed momenta' % c['kind'], key=key, got=numpy.asarray(s1) / MeV, want=c['zone'])
                ctx.expect(len(s2) == after and not numpy.any(s2), 'four/%s/rest is zero' % c['kind'], key=key, got=s2)
                ctx.expect(terms.close(ps, numpy.asarray(s1) / params.aT, 1e-12), 'four/units', key=key)
            else:
                P, E = (c['hi'] - c['lo']) * MeV, (c['hi'] + c['lo']) * MeV
                parent = particle('P', Grid([0., P]), mass=numpy.sqrt(E**2 - P**2) / params.a)
                it = Integral([particle('X', g), particle('B', wide)], [parent])
                out = kin.grid_cutoff_3p(it, g.TEMPLATE)
                if len(c['zone']) == 1:
                    ctx.count(part='3 degenerate')
                    continue        # a single node carries no integral
                ps, s1, s3 = out
                ctx.expect(terms.close(ps, want_ps / params.aT, 1e-12), 'three/computed momenta', key=key, got=numpy.asarray(ps) * params.aT / MeV, want=c['zone'])
                ctx.expect(len(s1) == before and len(s3) == after and not any(s1) and not any(s3), 'three/rest is zero', key=key, got=(s1, s3))
        ctx.count(part='%d %s' % (c['legs'], c['kind']))
    for v in NAMES:
        os.environ.pop(v, None)
    ctx.sample(r.emitted[7])
    reach(ctx, kin, UNITS, params, particle)


def reach(ctx, kin, UNITS, params, particle):
    MeV = UNITS.MeV
    c = ctx.tlc('Cutoffs', constants=dict(K=1), init='InitReach', invariants=['EmitReach']).emitted[0]
    for k in range(300 if ctx.thorough else 80):
        m1, m2 = (ctx.rng.choice([0., ctx.rng.uniform(0.1, 60.)]) for _ in range(2))
        m3 = (m1 + m2) * ctx.rng.uniform(1.01, 3.) + ctx.rng.uniform(0.1, 100.)
        P = ctx.rng.uniform(0.1, 200.)
        a = params.a / MeV * MeV
        ps = [particle(n, Grid([0., P * MeV]), mass=m * MeV / params.a) for n, m in (('1', m1), ('2', m2), ('3', m3))]
        key = 'm1=%g m2=%g m3=%g P=%g' % (m1, m2, m3, P)
        env = dict(m1=m1, m2=m2, m3=m3, P3=P)
        with ctx.guard('reach', key=key):
            it = Integral(ps[:2], ps[2:])
            lo, hi = kin.three_particle_bounds_creation(it.reaction)
            ctx.expect(terms.close(hi / MeV, ev(c['r3']['hi'], env), 1e-6), 'three/largest momentum', key=key, got=hi / MeV, want=ev(c['r3']['hi'], env))
            ctx.expect(terms.close(lo / MeV, ev(c['r3']['lo'], env), 1e-5, 1e-5), 'three/smallest momentum', key=key, got=lo / MeV, want=ev(c['r3']['lo'], env))
            got = kin.cm_momentum(m3, m1, m2)
            ctx.expect(terms.close(got, ev(c['pcm'], env), 1e-9), 'centre of mass momentum', key=key, got=got)
            # no decay of the parent escapes the bounds
            for j in range(8):
                p3, cos = ctx.rng.uniform(0., P), ctx.rng.uniform(-1., 1.)
                e3, pc = numpy.sqrt(p3**2 + m3**2), ev(c['pcm'], env)
                e = (e3 * numpy.sqrt(pc**2 + m1**2) + p3 * pc * cos) / m3
                p = numpy.sqrt(max(e**2 - m1**2, 0.))
                ctx.expect(lo / MeV - 1e-5 <= p <= hi / MeV * (1 + 1e-9) + 1e-9, 'three/reachable momentum outside the bounds', key=key, p=p,
                           got=(lo / MeV, hi / MeV))
            m4 = m3 + 30.
            parent = particle('4', Grid([0., P * MeV]), mass=m4 * MeV / params.a)
            third = particle('3', Grid([0., P * MeV]), mass=10. * MeV / params.a)
            got = kin.four_particle_bounds_creation(Integral([ps[0], ps[1], third], [parent]).reaction)
            want = max(ev(c['r4'], dict(m1=m1, m2=m2, m3=10., m4=m4, P4=P)), 100.)
            ctx.expect(terms.close(got / MeV, want, 1e-9), 'four/largest momentum', key=key, got=got / MeV, want=want)
        ctx.count(part='reach')
