"""P24: semi-analytic estimates."""
import copy
import io
import os
import re
from contextlib import redirect_stdout

import pybbn
import terms
from terms import ev
from harness import quiet
import universes
import p10

FLOOR = 1000
ASSUMPTIONS = ['rates and temperatures scripted; neutron lifetime 885.7 s and deuterium temperature 0.065 MeV as documented in the code; real runs with scripted species and real rates']
TAU = 885.7
T_D = 0.065


class Obj(object):
    pass


def check(ctx):
    pybbn.load()
    import semianalytic
    from common import UNITS
    r = ctx.tlc('Estimates', constants=dict(MaxSteps=5 if ctx.thorough else 4), spec='Spec', invariants=['Both', 'First', 'FirstN', 'Mass', 'Emit', 'EmitStatic'], properties=['Once'])
    static = [e for e in r.emitted if 'helium' in e][0]
    runs = [e for e in r.emitted if 'hist' in e]
    limit = 40000 if ctx.thorough else 8000
    if len(runs) > limit:
        late = [e for e in runs if e['hist'][-1]['est'] >= 0]
        keep = sorted(runs, key=lambda e: (e['hist'][-1]['est'] < 0))
        step = len(keep) / limit
        runs = [keep[int(i * step)] for i in range(limit)]
        ctx.parts['estimates'] = {'reached': sum(e['hist'][-1]['est'] >= 0 for e in runs), 'of': len(late)}
    n = 400
    ctx.parallel([runs[i:i + n] for i in range(0, len(runs), n)], lambda es: [replay(ctx, e, static, semianalytic, UNITS) for e in es])
    ctx.sample(runs[0])
    ctx.parallel([(T0, s) for T0 in (3., 12.) for s in (0., 0.05)], lambda c: real(ctx, c[0], c[1], static, semianalytic, UNITS))


def replay(ctx, e, static, semianalytic, UNITS):
    import kawano
    from common import Params, utils
    MeV = UNITS.MeV
    rng = ctx.rng
    key = str([(h['warm'], h['rate']) for h in e['hist']])
    with ctx.guard('estimates', key=key):
        u = Obj()
        u.kawano = kawano
        u.kawano_data = utils.DynamicRecArray(kawano.heading)
        u.params = Params(T=20 * MeV, dy=0.05)
        temps = {3: rng.uniform(11, 20), 2: rng.uniform(0.0651, 8), 1: T_D, 0: rng.uniform(0.01, 0.0649)}
        states = []
        for h in e['hist']:
            p = u.params
            p.T = temps[h['warm']] * MeV if h['warm'] != 1 else semianalytic.T_BBN
            p.t = (h['t'] + 1) * 77. * UNITS.s * rng.uniform(0.9, 1.)
            p.N_eff = 3. + h['t']
            states.append((p.T, p.t, p.N_eff))
            if h['rate']:
                row = dict(zip(u.kawano_data.columns, [0.] * 6 + [x * 0.7 if x > 10 else float(x) for x in h['rate']]))
                u.kawano_data.append(row)
            out = io.StringIO()
            with redirect_stdout(out):
                semianalytic.step_monitor(u)
            for name, at in (('neutron_decoupling_parameters', h['ndec']), ('deuterium_generation_parameters', h['deut'])):
                got = getattr(u, name, None)
                if not ctx.expect((got is not None) == (at >= 0), name.split('_')[0] + '/when', key=key, at=h):
                    return
                if got is not None:
                    ctx.expect((got.T, got.t, got.N_eff) == states[at], name.split('_')[0] + '/state of that step', key=key, at=h, got=(got.T, got.t), want=states[at])
            got = getattr(u, 'BBN_estimates', None)
            ctx.expect((got is not None) == (h['est'] >= 0), 'estimates/when', key=key, at=h)
            ctx.expect(('Helium fraction' in out.getvalue()) == (h['est'] == h['t']), 'estimates/shown once', key=key, at=h)
            if got is not None and h['est'] >= 0:
                values(ctx, got, states[h['ndec']], states[h['deut']], static, kawano, UNITS, key)
                if h['est'] == h['t']:
                    shown(ctx, out.getvalue(), got, states[h['ndec']], states[h['deut']], UNITS, key)
    ctx.count(part='monitor histories')


def values(ctx, got, n, d, static, kawano, UNITS, key):
    env = dict(q=kawano.q, Tn=n[0], tn=n[1], td=d[1], tau=TAU * UNITS.s)
    time, ratio = ev(static['time'], env), ev(static['ratio'], env)
    want = [time, ratio, ev(static['helium'], dict(ratio=ratio))]
    ctx.expect(len(got) == 3 and terms.close(list(got), want, 1e-9), 'estimates', key=key, got=list(got), want=want)


def shown(ctx, text, got, n, d, UNITS, key):
    def numbers(label):
        line = [l for l in text.split('\n') if l.startswith(label)]
        return [float(x) for x in re.findall(r'[-+]?\d\.\d+e[-+]\d+', line[-1])] if line else None
    for label, want in (('Helium fraction', [got[2]]), ('Neutron-to-proton ratio', [got[1]]), ('Neutron decay time', [got[0] / UNITS.s]),
                        ('Neutron decoupling', [n[0] / UNITS.MeV, n[1] / UNITS.s, n[2]]), ('Deuterium generation: ', [d[0] / UNITS.MeV, d[1] / UNITS.s, d[2]])):
        ctx.expect(terms.close(numbers(label), want, 1e-5), 'estimates/shown', key=key, label=label, got=numbers(label), want=want)


def real(ctx, T0, slope, static, semianalytic, UNITS):
    """ a run with the monitor installed: the estimate belongs to the states recorded by the run """
    import kawano
    from common import Params, LinearSpacedGrid
    from evolution import Universe
    Scripted, _ = universes.classes()
    key = 'run from %s MeV, dilution %s' % (T0, slope)
    with ctx.guard('run with estimates', key=key), quiet():
        u = Universe(params=Params(T=T0 * UNITS.MeV, dy=0.05))
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=21, MAX_MOMENTUM=20 * UNITS.MeV)
        parts = []
        for k, m in enumerate((0.511, 0.)):
            p = Scripted(name='S%d' % k, symbol='s', mass=m * UNITS.MeV, grid=grid, decoupling_temperature=0.)
            p.script = p10.script(slope, k)
            parts.append(p)
        u.add_particles(parts)
        u.init_kawano(electron=parts[0], neutrino=parts[1])
        u.step_monitor = semianalytic.step_monitor
        u.evolve(0.05 * UNITS.MeV, export=False)
        rows = [dict(zip(u.data.columns, u.data[i])) for i in range(len(u.data) - 1)]      # states the monitor saw
        krows = [list(u.kawano_data[i]) for i in range(len(u.kawano_data))]
        lost = [k for k in krows if not 0.1 <= sum(k[6::2]) / sum(k[7::2]) <= 10]
        cold = [r for r in rows if r['T'] <= T_D * UNITS.MeV]
        ctx.expect(len(lost) and len(cold), 'the run reaches the estimate', key=key)
        if lost and cold:
            n, d = u.neutron_decoupling_parameters, u.deuterium_generation_parameters
            ctx.expect((n.t, n.T) == (lost[0][0], lost[0][2]), 'neutron/state of that step', key=key, got=(n.t, n.T), want=lost[0][:3])
            ctx.expect((d.t, d.T) == (cold[0]['t'], cold[0]['T']), 'deuterium/state of that step', key=key, got=(d.t, d.T), want=(cold[0]['t'], cold[0]['T']))
            values(ctx, u.BBN_estimates, (n.T, n.t), (d.T, d.t), static, kawano, UNITS, key)
    ctx.count(part='runs')
