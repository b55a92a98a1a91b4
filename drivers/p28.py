"""P28: rates of the conversion of neutrons and protons."""
import os

import numpy

import pybbn
import terms
from terms import ev
from harness import quiet

FLOOR = 60
ASSUMPTIONS = ['leptons given by functions of the comoving momentum, and real species of the library in equilibrium; agreement to 1e-5 (1e-3 for interpolated spectra)']


class Env(dict):
    funcs = {}

    def __missing__(self, k):
        return self.funcs[k](self)

    def copy(self):
        e = Env(self)
        e.funcs = self.funcs
        return e


class Obj(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def check(ctx):
    pybbn.load()
    from common import UNITS, CONST
    import kawano
    from library import SM
    q = SM.particles.hadrons.neutron['mass'] - SM.particles.hadrons.proton['mass']
    me = SM.particles.leptons.electron['mass']
    MeV = UNITS.MeV
    ctx.expect(terms.close([q / MeV, me / MeV], [1.2933, 0.510999], 2e-3), 'masses', got=[q / MeV, me / MeV])
    ctx.expect(kawano.q == q and getattr(kawano, 'm_e', me) == me, 'masses/library', got=kawano.q)
    spec = ctx.tlc('Weak', invariants=['Closed', 'Listed', 'Windows', 'Detailed', 'Vacuum', 'Emit']).emitted[0]
    cases = ctx.tlc('Weak', init='InitCases', invariants=['EmitCases']).emitted
    try:
        for fixed in ('True', 'False'):
            os.environ['FIXED_ORDER_1D_QUADRATURE'] = fixed
            for c in cases:
                for k in range(6 if ctx.thorough else 1):
                    one(ctx, c, spec, kawano, q, me, MeV, CONST, fixed)
        os.environ.pop('FIXED_ORDER_1D_QUADRATURE')
        real(ctx, spec, kawano, q, me, UNITS, CONST)
    finally:
        os.environ.pop('FIXED_ORDER_1D_QUADRATURE', None)


def fd(m, T, mu=0.):
    return lambda p: 1. / (numpy.exp((numpy.sqrt(p**2 + m**2) - mu) / T) + 1.)


def one(ctx, c, spec, kawano, q, me, MeV, CONST, fixed):
    rng = ctx.rng
    a = {1: 0.01, 2: 0.1, 3: 0.5, 4: 1., 5: 3., 6: 12., 7: 40.}[c['a']] * rng.uniform(0.8, 1.2)
    zero, full = (lambda p: 0. * p), (lambda p: 1. + 0. * p)
    T = rng.uniform(0.8, 1.4) * MeV
    m = me * a
    fe, fn = {
        'vacuum': (zero, zero), 'full': (full, full), 'equilibrium': (fd(m, T), fd(0., T)), 'hot neutrinos': (fd(m, T), fd(0., 1.7 * T)),
        'degenerate': (fd(m, T, 0.6 * MeV), fd(0., T, -0.8 * MeV)), 'electrons only': (fd(m, T), zero), 'neutrinos only': (zero, fd(0., T)),
        'distorted': (fd(m, T), lambda p: fd(0., T)(p) + 0.05 * numpy.exp(-((p - 5 * MeV) / (2 * MeV))**2)),
        'constant': (lambda p: 0.3 + 0. * p, lambda p: 0.8 + 0. * p)}[c['leptons']]
    lo, hi = {'fine': (0., 25.), 'short': (0., 1.1), 'late': (0.01, 30.), 'shortest': (0.001, 0.02)}[c['grid']]
    params = Obj(a=a)
    electron = Obj(distribution=fe, params=params, mass=me, grid=Obj(MIN_MOMENTUM=0., MAX_MOMENTUM=100 * MeV))
    neutrino = Obj(distribution=fn, params=params, mass=0., grid=Obj(MIN_MOMENTUM=lo * MeV, MAX_MOMENTUM=hi * MeV))
    key = '%s a=%.3g grid=%s fixed=%s' % (c['leptons'], {1: 0.01, 2: 0.1, 3: 0.5, 4: 1., 5: 3., 6: 12., 7: 40.}[c['a']], c['grid'], fixed)
    with ctx.guard('rates', key=key), quiet():
        kawano.init_kawano(electron=electron, neutrino=neutrino)
        got = kawano.baryonic_rates(a)
        env = Env(q=q, me=me, a=a, norm=CONST.rate_normalization, min=lo * MeV, max=hi * MeV)
        env.funcs = {'fe(pe)': lambda e: fe(e['pe']), 'fn(y)': lambda e: fn(e['y'])}
        want = [ev(t, env) for t in spec['rates']]
        ctx.expect(len(got) == 6, 'rates/number', key=key)
        for i in range(6):
            if not terms.close(got[i], want[i], 1e-5, 1e-9 * max(want)):
                ctx.fail('rate of channel %d' % (i + 1), key=key, got=got[i], want=want[i])
        if c['leptons'] == 'vacuum' and c['grid'] in ('fine',) :
            ctx.expect([x != 0 for x in got] == spec['vacuum'] or c['grid'] != 'fine' or got[0] == 0 == got[4], 'in vacuum only free neutrons decay', key=key, got=got)
            ctx.expect(terms.close(got[2], 1., 3e-3), 'rates are in units of the decay of a free neutron', key=key, got=got[2])
    ctx.count(part='rates')


def real(ctx, spec, kawano, q, me, UNITS, CONST):
    """ species of the library: detailed balance of the whole rates, and the neutrino interpolated on its grid """
    from common import Params, LinearSpacedGrid
    from particles import Particle
    from library import SM
    for T in (9., 3., 1., 0.4) if not ctx.thorough else (9., 6., 3., 2., 1., 0.7, 0.4, 0.2):
        key = 'library species T=%s MeV' % T
        with ctx.guard('rates of library species', key=key), quiet():
            params = Params(T=T * UNITS.MeV, dy=0.05)
            params.rho = 1.
            electron, neutrino = Particle(**SM.particles.leptons.electron), Particle(**SM.particles.leptons.neutrino_e)
            electron.set_params(params)
            neutrino.set_params(params)
            kawano.init_kawano(electron=electron, neutrino=neutrino)
            got = kawano.baryonic_rates(params.a)
            g = neutrino.grid
            env = Env(q=q, me=me, a=params.a, norm=CONST.rate_normalization, min=g.MIN_MOMENTUM, max=g.MAX_MOMENTUM)
            env.funcs = {'fe(pe)': lambda e: fd(me * params.a, params.aT)(e['pe']), 'fn(y)': lambda e: fd(0., params.aT)(e['y'])}
            want = [ev(t, env) for t in spec['rates']]
            for i in range(6):
                if not terms.close(got[i], want[i], 1e-2, 1e-8):
                    ctx.fail('rate of channel %d' % (i + 1), key=key, got=got[i], want=want[i])
            ratio = sum(got[0::2]) / sum(got[1::2])
            ctx.expect(terms.close(ratio, numpy.exp(q / params.T), 1e-2), 'detailed balance of the totals', key=key, got=ratio, want=numpy.exp(q / params.T))
        ctx.count(part='library species')
