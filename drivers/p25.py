"""P25: start and grids of heavy neutrinos."""
import os

import numpy

import pybbn
import terms
from terms import ev
from harness import quiet

FLOOR = 250
ASSUMPTIONS = ['masses from 1 MeV to 2 GeV, mixings from 1e-7 to 0.1; resolutions are bounded by the spectral lines, not fixed']
SETTINGS = [{}, {'MAX_SCALE_FACTOR': '3', 'FOUR_PARTICLE_GRID_RESOLUTION': '0.1'}, {'MAX_MOMENTUM_MEV': '50', 'MAX_SCALE_FACTOR': '8'}, {'FOUR_PARTICLE_GRID_RESOLUTION': '9.0'}]


def check(ctx):
    pybbn.load()
    from common import UNITS, CONST
    import environment
    from common import kinematics
    r = ctx.tlc('Sterile', constants=dict(Fine=ctx.thorough), invariants=['Heavy', 'More', 'Emit'])
    try:
        temps = {}
        for e in r.emitted:
            for i, s in enumerate(SETTINGS if e['k'] == 3 else SETTINGS[:1]):
                os.environ.update(s)
                one(ctx, e, s, UNITS, CONST, environment, kinematics, temps)
                for k in s:
                    os.environ.pop(k)
        ctx.sample(dict(m=r.emitted[0]['m']))
    finally:
        os.environ.pop('Relativistic_decoupling', None)


def one(ctx, e, s, UNITS, CONST, environment, K, temps):
    MeV = UNITS.MeV
    m, theta = e['m'] * UNITS.keV, 10.**-e['k']
    if e['m'] in (105658, 150000):          # exactly the constants of the code
        m = {105658: 105.658 * MeV, 150000: CONST.lambda_QCD}[e['m']]
    key = 'm=%s keV theta=1e-%s %s' % (e['m'], e['k'], s or '')
    env = dict(m=m, theta=theta, Mp=CONST.M_p, GF=CONST.G_F, MeV=MeV, wide=1e9 * MeV)
    with ctx.guard('sterile neutrino', key=key), quiet(), numpy.errstate(all='ignore'):
        os.environ.pop('Relativistic_decoupling', None)
        T = K.decoupling_temperature_relativistic(m, theta)
        ctx.expect(terms.close(T, ev(e['tdec'], env), 1e-9), 'relativistic decoupling temperature', key=key, got=T / MeV, want=ev(e['tdec'], env) / MeV)
        ctx.expect('Relativistic_decoupling' not in os.environ, 'asking for the temperature sets nothing', key=key)
        T = K.decoupling_temperature(m, theta)
        ctx.expect(terms.close(T, ev(e['start'], env), 1e-9), 'initial temperature', key=key, got=T / MeV, want=ev(e['start'], env) / MeV)
        ctx.expect(T >= m, 'initial temperature is at least the mass', key=key)
        ctx.expect(bool(environment.get('Relativistic_decoupling')) == bool(ev(e['rel'], env)), 'relativistic decoupling is noticed', key=key, got=os.environ.get('Relativistic_decoupling'))
        os.environ.pop('Relativistic_decoupling', None)
        # the heavy neutrino itself
        n, top = K.grid_params_HNL(m, theta)
        res = K.grid_resolution_HNL(m, theta)
        ctx.expect(terms.close(top, ev(e['max'], env), 1e-9), 'grid of the heavy neutrino ends where the occupation is 1e-100', key=key, got=top / MeV, want=ev(e['max'], env) / MeV)
        ctx.expect(terms.close(res, ev(e['spread'], env), 1e-9), 'resolution of the heavy neutrino', key=key, got=res, want=ev(e['spread'], env))
        samples(ctx, 'HNL', n, top, res, key)
        scale, cap = environment.get('MAX_SCALE_FACTOR'), environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * MeV
        for what, params, resolution in (('neutrino', K.grid_params_neutrino, K.grid_resolution_neutrino), ('meson', K.grid_params_meson, K.grid_resolution_meson),
                                         ('lepton', K.grid_params_lepton, K.grid_resolution_lepton)):
            n, top = params(m, theta)
            res = resolution(m, theta)
            samples(ctx, what, n, top, res, key)
            reach = ev(e['reach'][what], env) * scale
            ctx.expect(top >= reach * (1 - 1e-12), 'grid reaches the products: ' + what, key=key, got=top / MeV, want=reach / MeV)
            reach = ev(e['moving'][what], dict(env, A=scale))
            ctx.expect(m * scale < 10 * MeV or top >= reach * (1 - 1e-12), 'grid reaches the products of moving neutrinos: ' + what, key=key, got=top / MeV, want=reach / MeV)
            ctx.expect(top <= max(2.0001 * m * scale, 10.0001 * scale * MeV, environment.get('MAX_MOMENTUM_MEV') * 1.0001 * MeV), 'grid is of the size of the problem: ' + what, key=key, got=top / MeV)
            ctx.expect(0 < res <= cap * (1 + 1e-12), 'resolution is at least the one asked for: ' + what, key=key, got=res / MeV, want=cap / MeV)
            if e['opens'][what]:
                line = ev(e['lines'][what], env)
                ctx.expect(res <= line * (1 + 1e-9) * {'neutrino': 0.75, 'meson': 1. / 3, 'lepton': 1.}[what], 'resolution resolves the narrowest line: ' + what, key=key, got=res / MeV, want=line / MeV)
        if e['k'] == 3:
            n, top = K.grid_params_lepton(m, theta, std=True)
            samples(ctx, 'standard lepton', n, top, K.grid_resolution_lepton(m, theta, std=True), key)
            ctx.expect(top >= ev(e['reach']['neutrino'], env) * scale, 'grid reaches the products: standard lepton', key=key, got=top / MeV)
        # all mixings: weaker coupled neutrinos decouple earlier
        if not s:
            temps.setdefault(e['m'], {})[e['k']] = T
            other = temps[e['m']].get(e['k'] - 1)
            if other is not None:
                ctx.expect(T >= other, 'weaker mixing, earlier decoupling', key=key, got=T, want=other)
    os.environ.pop('Relativistic_decoupling', None)
    ctx.count(part='heavy neutrinos')


def samples(ctx, what, n, top, res, key):
    ctx.expect(isinstance(n, int) and n == int(top / res) and n >= 1, 'number of samples: ' + what, key=key, got=n, want=float(top / res))
