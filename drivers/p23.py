"""P23: the transition of quarks into hadrons."""
import os

import pybbn
import terms
from harness import quiet
import universes

FLOOR = 300
ASSUMPTIONS = ['scripted species with the names, masses, statistics and degrees of freedom of the plasma; temperature kept constant otherwise']


def check(ctx):
    pybbn.load()
    from common import UNITS
    r = ctx.tlc('Transition', constants=dict(MaxHadrons=3 if ctx.thorough else 2, MaxQuarks=3 if ctx.thorough else 2), invariants=['NoQuarks', 'Entropy', 'Heats', 'Interactions', 'Emit'])
    cases = r.emitted
    free = [e for e in cases if not special(e)]
    rest = [e for e in cases if special(e)]
    n = 3000 if ctx.thorough else 500
    free = [e for i, e in enumerate(free) if (i * 7919 + ctx.seed * 13) % len(free) < n]
    ctx.parallel(rest + free, lambda e: one(ctx, e, UNITS))
    ctx.sample({k: free[0][k] for k in ('T', 'ratio', 'species')})


def special(e):
    return e['steps'] > 1 or e['inters']['old'] != ['l'] or e['inters']['new'] or e['inters']['more']


def one(ctx, e, UNITS):
    from common import Params, LinearSpacedGrid, STATISTICS
    from evolution import Universe
    key = 'T=%s quarks=%s hadrons=%s rest=%s steps=%s inters=%s' % (e['T'], *[sorted(s['name'] for s in e[k]) for k in ('quarks', 'hadrons', 'rest')], e['steps'], e['inters'])
    Scripted, Inter = universes.classes()
    MeV = UNITS.MeV

    def species(s, k):
        p = Scripted(name=s['name'], symbol=s['name'][0], mass=s['m'] * MeV, dof=s['g'], decoupling_temperature=0. if s['eq'] else 1e9 * MeV,
                     statistics=STATISTICS.FERMION if s['f'] else STATISTICS.BOSON, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=3, MAX_MOMENTUM=5 * MeV))
        p.script = lambda q, what: {'density': 1e-9, 'energy_density': 1e-3 * (1 + k), 'pressure': 1e-12, 'entropy': 1e-2 * (1 + k), 'numerator': 0., 'denominator': 1.,
                                    'collision': 0.}[what]
        return p
    try:
        with ctx.guard('transition', key=key), quiet():
            # steps that end just above the temperature of the case
            dy = 0.01
            u = Universe(params=Params(T=e['T'] * MeV * (1 + dy)**(e['steps'] - 0.0) * 1.0001, dy=dy))
            before = [species(s, k) for k, s in enumerate(e['quarks'] + e['rest'])]
            u.add_particles(list(before))
            names = {}
            for x in set(e['inters']['old'] + e['inters']['new'] + e['inters']['more']):
                names[x] = Inter('interaction', lambda: [])       # (names do not identify interactions)
                names[x].label = x
            u.interactions += [names[x] for x in e['inters']['old']]
            ini = dict(aT=u.params.aT)
            u.evolve(e['T'] * MeV * 1.0002, export=False)
            p = u.params
            rows = [list(u.data[i]) for i in range(len(u.data))]
            was = dict(a=p.a, x=p.x, t=p.t, aT=p.aT)
            given = [species(s, k + 20) for k, s in enumerate(e['hadrons'])]
            for q in given:
                q.log = []
            out = given[:]
            u.QCD_transition(hadrons=given or None, quarkic_interactions=[names[x] for x in e['inters']['gone']] or None, hadronic_interactions=[names[x] for x in e['inters']['new']] or None,
                             secondary_interactions=[names[x] for x in e['inters']['more']] or None)
            exp = lambda c, w, **d: ctx.expect(c, w, key=key, **d)
            exp(sorted(q.name for q in u.particles) == sorted(e['species']), 'species after the transition', got=sorted(q.name for q in u.particles))
            exp(all(any(q is b for b in before + out) for q in u.particles), 'species are the ones given')
            masses = [q.mass for q in u.particles]
            exp(masses == sorted(masses, reverse=True), 'heaviest species first', got=masses)
            exp(all(q.params is p for q in u.particles), 'species share the parameters')
            exp(terms.close((p.aT / was['aT'])**3, e['ratio'][0] / e['ratio'][1], 1e-10), 'entropy of the plasma is conserved', got=(p.aT / was['aT'])**3, want=e['ratio'])
            exp(p.a == was['a'] and p.x == was['x'] and p.t == was['t'], 'scale factor and time stay', got=(p.a, p.x, p.t), want=was)
            exp(terms.close(p.T * p.a, p.aT, 1e-13), 'T = aT / a', got=(p.T, p.a, p.aT))
            exp(all(terms.close(q.T, p.T, 1e-13) and terms.close(q.aT, p.aT, 1e-13) for q in u.particles if q.in_equilibrium), 'species of the plasma have its temperature')
            tot = [sum(q.energy_density for q in u.particles), sum(q.entropy for q in u.particles)]
            exp(terms.close([p.rho, p.S], tot, 1e-12), 'totals are those of the species present', got=(p.rho, p.S), want=tot)
            exp([x.label for x in u.interactions] == e['list'], 'interactions', got=[x.label for x in u.interactions], want=e['list'])
            exp([list(u.data[i]) for i in range(len(u.data))] == rows[:-1], 'record without the last row', got=len(u.data), want=len(rows) - 1)
            # the next run continues from here, recording the transition in place of the row removed
            T = p.T
            u.evolve(T / (1 + dy)**1.5, export=False, init_time=False)
            exp(len(u.data) == len(rows) + 2, 'the record goes on', got=len(u.data), want=len(rows) + 2)
            exp(terms.close(float(u.data['T'][len(rows) - 1]), T, 1e-13) and all(terms.close(float(u.data['aT'][i]), p.aT, 1e-12) for i in range(len(rows) - 1, len(u.data))),
                'the record goes on/temperature', got=list(u.data['aT']))
        ctx.count(part='transitions')
    finally:
        os.environ.pop('LOGARITHMIC_TIMESTEP', None)
