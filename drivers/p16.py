"""P16: flavour oscillations mix the collision integrals of one step, conserving their sum."""
import os

import numpy

import pybbn
import terms
from terms import ev
from harness import quiet
import universes

FLOOR = 500


def q(r):
    return r[0] / r[1]


def check(ctx):
    pybbn.load()
    from common import UNITS, Params, LinearSpacedGrid, CONST
    from evolution import Universe
    from library.SM import particles as SMP
    MeV = UNITS.MeV
    Scripted, _ = universes.classes()
    T = None
    for flavours, steps in ((('electron', 'muon', 'tau'), 1), (('electron', 'muon'), 2)) if not ctx.thorough else \
            ((('electron', 'muon', 'tau'), 2), (('electron', 'muon'), 2), (('electron', 'tau'), 2)):
        r = ctx.tlc('Oscillation', constants=dict(MaxSteps=steps, Flavours=set(flavours), Bystanders={'X'}),
                    invariants=['TypeOK', 'Stochastic', 'Conserved', 'Untouched', 'Emit', 'EmitTerms'])
        terms_rec = [c for c in r.emitted if 'prob' in c][0]
        T = T or terms_rec
        pats = [{(a, b): q(v) for a, row in p.items() for b, v in row.items()} for p in terms_rec['patterns']]
        shape = numpy.array([1., 2., 0.5, 0.25, -1.])
        for i, c in enumerate(c for c in r.emitted if 'hist' in c):
            key = str(c)[:400]
            with ctx.guard('mixing', key=key), quiet():
                u = Universe(params=Params(T=6. * MeV, dy=0.05))
                grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=10 * MeV)
                ps = {}
                order = list(flavours) if i % 2 else list(flavours)[::-1]
                for f in order + ['X']:
                    ps[f] = Scripted(name='S' + f, symbol=f, grid=grid, mass=0., flavour=f, majorana=False, Q=0,
                                     decoupling_temperature=c['dec'].get(f, 3.) * MeV)
                u.add_particles(list(ps.values()))
                seen, at = [], [0]
                cur = [None]

                def pattern(m12=None, m13=None, matter_effects=None):
                    seen.append((m12, m13, matter_effects))
                    return cur[0]
                cur[0] = pats[0]
                if c['on']:
                    u.init_oscillations(pattern, [ps[f] for f in order], matter_effects=bool(i % 3))
                for h in c['hist']:
                    cur[0] = pats[h['pat'] - 1]
                    u.params.T = h['T'] * MeV
                    u.params.a = 6. / h['T']
                    for s, p in ps.items():
                        p.collision_integral = q(h['raw'][s]) * shape
                    n = len(seen)
                    u.update_distributions()
                    for s, p in ps.items():
                        ctx.expect(terms.close(p.seen_integral, q(h['integral'][s]) * shape, 1e-12, 1e-15), 'mixed integral', key=key, who=s,
                                   got=p.seen_integral, want=q(h['integral'][s]) * shape)
                    if c['on'] and len(seen) > n:
                        env = dict(MSW=CONST.MSW_constant, dm12=CONST.delta_m12_sq, dm13=CONST.delta_m13_sq, y=grid.TEMPLATE,
                                   a=u.params.a, T=u.params.T)
                        if i % 3:
                            ctx.expect(terms.close(seen[-1][0], ev(T['m12'], env), 1e-12) and terms.close(seen[-1][1], ev(T['m13'], env), 1e-12),
                                       'matter potential of the current plasma', key=key, got=seen[-1][:2])
                        else:
                            ctx.expect(not numpy.any(seen[-1][0]) and not numpy.any(seen[-1][1]), 'no matter potential', key=key, got=seen[-1][:2])
            ctx.count(part='steps ' + '+'.join(flavours))
        ctx.sample(r.emitted[5])
    probabilities(ctx, T, UNITS, CONST, Params, Universe, Scripted, LinearSpacedGrid, SMP)
    os.environ.pop('NORMAL_HIERARCHY_NEUTRINOS', None)


def probabilities(ctx, T, UNITS, CONST, Params, Universe, Scripted, LinearSpacedGrid, SMP):
    """ the Standard Model transition matrix, in vacuum and in the plasma, for both hierarchies """
    MeV = UNITS.MeV
    fl = ('electron', 'muon', 'tau')
    vac = SMP.leptons.oscillations_map()
    for normal in (True, False):
        for matter in (True, False):
            for Tp in (0.05, 0.5, 1., 3., 7.):
                for x in (1., 3.) + ((0.3, 10.) if ctx.thorough else ()):
                    key = 'normal=%s matter=%s T=%g a=%g' % (normal, matter, Tp, x)
                    os.environ['NORMAL_HIERARCHY_NEUTRINOS'] = str(normal)
                    with ctx.guard('transition probabilities', key=key), quiet():
                        u = Universe(params=Params(T=Tp * MeV, dy=0.05))
                        u.params.a = x
                        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=7, MAX_MOMENTUM=20 * MeV)
                        ps = [Scripted(name=f, symbol=f, grid=grid, mass=0., flavour=f, majorana=False, Q=0, decoupling_temperature=100 * MeV) for f in fl]
                        u.add_particles(ps)
                        u.init_oscillations(SMP.leptons.oscillations_map, ps, matter_effects=matter)
                        got, who = u.oscillations
                        env = dict(t12=0.57636, t13=0.14715, MSW=CONST.MSW_constant, dm12=CONST.delta_m12_sq, dm13=CONST.delta_m13_sq,
                                   y=grid.TEMPLATE, a=u.params.a, T=u.params.T)
                        if matter:
                            env['m12'] = ev(T['m12'], env)
                            env['m13'] = ev(T['m13'], env) * (1 if normal else -1)
                            env['t12'], env['t13'] = ev(T['t12'], env), ev(T['t13'], env)
                        for a in fl:
                            total = 0.
                            for b in fl:
                                want = ev(T['prob'][a][b], env)
                                g = got[(a, b)]
                                ctx.expect(terms.close(numpy.zeros(7) + g, numpy.zeros(7) + want, 1e-9, 1e-15), 'transition probability', key=key, pair=(a, b), got=g, want=want)
                                ctx.expect(numpy.all(got[(a, b)] == got[(b, a)]), 'symmetric', key=key, pair=(a, b))
                                ctx.expect(numpy.all(numpy.asarray(g) >= -1e-12) and numpy.all(numpy.asarray(g) <= 1 + 1e-12), 'is a probability', key=key, pair=(a, b), got=g)
                                total = total + g
                            ctx.expect(terms.close(numpy.zeros(7) + total, numpy.ones(7), 1e-12), 'probabilities add up to one', key=key, who=a, got=total)
                        if not matter:
                            ctx.expect(all(numpy.all(got[k] == vac[k]) or terms.close(got[k], SMP.leptons.oscillations_map(matter_effects=False)[k], 1e-12) for k in got),
                                       'vacuum pattern', key=key)
                    ctx.count(part='transition matrices')
