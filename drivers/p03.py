"""P03: the cosmological clock stays self-consistent at every step."""
import os

import pybbn
import terms

FLOOR = 300


def q(r):
    return r[0] / r[1]


def check(ctx):
    pybbn.paths()
    from common import Params, CONST, UNITS
    r = ctx.tlc('Expansion', constants=dict(MaxSteps=4 if ctx.thorough else 3),
                invariants=['TypeOK', 'Conformal', 'InitialNormalisation', 'Expanding', 'PositiveT', 'StepFollows', 'Emit', 'EmitTerms'])
    T = [c for c in r.emitted if 'age' in c][0]
    # the gravitational constant and the Planck mass describe one and the same theory
    ctx.expect(terms.close(CONST.G * CONST.M_p**2, 1., 1e-12), 'G = 1/M_p^2')
    runs = [c for c in r.emitted if 'hist' in c]
    if not ctx.thorough:
        runs = [c for i, c in enumerate(runs) if i % 3 == ctx.seed % 3]
    for c in [c for c in r.emitted if 'init' in c]:
        i = c['init']
        with ctx.guard('initial state', key=str(i)):
            p = make(Params, UNITS, i['log'], i['m'], i['T'], i['dy'], i['dx'])
            key = str(i)
            same(ctx, p, i, UNITS, key)
            ctx.expect(p.a_ini == p.a, 'initial scale factor is remembered', key=key)
            ctx.expect(p.t == 0, 'clock starts at zero', key=key)
            for rho in (1., 3e-9, 2e12):
                p.init_time(rho)
                ctx.expect(terms.close(p.t, terms.ev(T['age'], {'G': CONST.G, 'rho': rho}), 1e-12), 'initial age', key=key, got=p.t)
        ctx.count(part='initial states')
    for c in runs:
        h0 = c['hist'][0]
        key = 'log=%s m=%s dy=%s steps=%s' % (c['log'], c['m'], c['dy'], [(h['daT'], h['rho'], h['stride']) for h in c['hist']])
        with ctx.guard('step', key=key):
            dx0 = [(q(h0['x']) - q(h0['a0']) * q(c['m'])) / q(h0['stride'])]
            p = make(Params, UNITS, c['log'], c['m'], h0['T0'], c['dy'], [dx0[0], 1])
            t0 = 17. / UNITS.MeV
            p.t = t0
            for h in c['hist']:
                t_before, rho, S = p.t, h['rho'] * UNITS.MeV**4, h['S'] * UNITS.MeV**3
                T0, a0 = p.T, p.a
                p.x += q(h['stride']) * p.dx
                p.aT += q(h['daT']) * p.aT
                p.update(rho, S)
                if not same(ctx, p, dict(h, log=c['log'], dy=c['dy']), UNITS, key):
                    break
                env = {'rho': rho, 'M_p': CONST.M_p, 'T0': T0, 'a0': a0, 'a': p.a}
                ok = ctx.expect(p.rho == rho and p.S == S, 'density and entropy recorded', key=key, got=(p.rho, p.S))
                ok &= ctx.expect(terms.close(p.H, terms.ev(T['H'], env), 1e-12), 'Friedmann equation', key=key, got=p.H)
                ok &= ctx.expect(terms.close(p.N_eff, terms.ev(T['N_eff'], env), 1e-9), 'N_eff', key=key, got=p.N_eff)
                ok &= ctx.expect(terms.close(p.t, t_before + terms.ev(T['dt'], env), 1e-12), 'elapsed time', key=key,
                                 got=p.t - t_before, want=terms.ev(T['dt'], env))
                ok &= ctx.expect(p.a_ini == q(c['aIni']) or terms.close(p.a_ini, q(c['aIni']), 1e-12), 'initial scale factor kept', key=key)
                if not ok:
                    break
        ctx.count(part='step histories')
    ctx.sample(runs[0])
    os.environ.pop('LOGARITHMIC_TIMESTEP', None)


def make(Params, UNITS, log, m, T, dy, dx):
    os.environ['LOGARITHMIC_TIMESTEP'] = 'True' if log else 'False'
    kw = {'dy': q(dy)} if log else {'dx': q(dx) * UNITS.MeV}
    return Params(T=q(T) * UNITS.MeV, m=q(m) * UNITS.MeV, **kw)


def same(ctx, p, s, UNITS, key):
    """ The spec counts m and T in MeV, a = m/T dimensionless, x = a m in MeV, aT in MeV;
        `linear' dx is in units of x. """
    ok = True
    for name, unit in (('a', 1.), ('x', UNITS.MeV), ('aT', UNITS.MeV), ('T', UNITS.MeV)):
        ok &= ctx.expect(terms.close(getattr(p, name), q(s[name]) * unit, 1e-11), 'state/' + name, key=key,
                         got=getattr(p, name) / unit, want=q(s[name]))
    if s['log']:
        ok &= ctx.expect(terms.close(p.dx, q(s['dx']) * UNITS.MeV, 1e-11), 'state/dx', key=key, got=p.dx, want=q(s['dx']))
        ok &= ctx.expect(terms.close(p.h, q(s['dy']), 1e-12), 'state/h', key=key, got=p.h)
    else:
        ok &= ctx.expect(p.h == p.dx, 'state/h', key=key, got=p.h, want=p.dx)
    return ok
