"""P06: momentum grids and bracket search."""
import numpy

import pybbn
import terms
from terms import ev

FLOOR = 1500
ASSUMPTIONS = ['momentum grids are strictly increasing; the search is not specified on an empty grid']


class G(object):
    def __init__(self, nodes):
        self.TEMPLATE = numpy.array(nodes, dtype=float)
        self.MOMENTUM_SAMPLES = len(nodes)
        self.MIN_MOMENTUM, self.MAX_MOMENTUM = self.TEMPLATE[0], self.TEMPLATE[-1]


def flat(pair):
    return [int(numpy.ravel(numpy.asarray(v))[0]) for v in pair]


def check(ctx):
    pybbn.load()
    import common
    from common import UNITS
    searches = [('python', lambda g, x: common.binary_find(G(g), x)),
                ('four_particle', lambda g, x: pybbn.cpp('four_particle').binary_find(list(map(float, g)), x)),
                ('three_particle', lambda g, x: pybbn.cpp('three_particle').binary_find(list(map(float, g)), x))]
    r = ctx.tlc('Grids', constants=dict(K=9 if ctx.thorough else 6, Samples={2, 3, 4, 5, 11, 51, 100, 200}, Base=[6, 5]),
                invariants=['Contains', 'Increasing', 'Ends', 'Emit'])
    seen = 0
    for c in r.emitted:
        if c['kind'] == 'bracket':
            scale = 1. if seen % 3 else 0.37
            seen += 1
            grid, x = [scale * v for v in c['grid']], scale * c['x2'] / 2.
            if c['x2'] % 2 == 0 and c['x2'] // 2 in c['grid']:
                x = grid[c['grid'].index(c['x2'] // 2)]
            for name, f in searches:
                key = '%s %s' % (c['grid'], c['x2'])
                with ctx.guard('bracket/' + name, key=key):
                    got = flat(f(grid, x))
                    ctx.expect(got == c['want'], 'bracket/' + name, key=key, got=got, want=c['want'])
            ctx.count(part='bracket')
        elif c['kind'] in ('linear', 'log'):
            cls = {'linear': common.LinearSpacedGrid, 'log': common.LogSpacedGrid}[c['kind']]
            for mx in (1e-3, 0.02, 7.):
                key = '%s n=%d max=%g' % (c['kind'], c['n'], mx)
                with ctx.guard('template', key=key):
                    g = cls(MOMENTUM_SAMPLES=c['n'], MAX_MOMENTUM=mx)
                    want = numpy.array([ev(t, {'max': mx}) for t in c['points']])
                    template(ctx, g, key)
                    ctx.expect(terms.close(g.TEMPLATE, want, 1e-9), 'template/values', key=key, got=g.TEMPLATE)
                    ctx.expect(g.MAX_MOMENTUM == mx, 'template/maximum', key=key)
                ctx.count(part=c['kind'])
        else:
            heuristic(ctx, common, UNITS, c)
        ctx.sample({k: v for k, v in c.items() if k not in ('points', 'top', 'down')})
    with ctx.guard('defaults'):
        import environment
        for name, cls in (('linear', common.LinearSpacedGrid), ('log', common.LogSpacedGrid)):
            g = cls()
            template(ctx, g, 'default ' + name)
            ctx.expect(g.MOMENTUM_SAMPLES == environment.get('MOMENTUM_SAMPLES')
                       and terms.close(g.MAX_MOMENTUM, environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV),
                       'defaults come from the configuration', key=name, got=(g.MOMENTUM_SAMPLES, g.MAX_MOMENTUM))
            g = cls(MOMENTUM_SAMPLES=7)
            ctx.expect(len(g.TEMPLATE) == 7 and terms.close(g.TEMPLATE[-1], environment.get('MAX_MOMENTUM_MEV') * UNITS.MeV),
                       'defaults are independent', key=name)
        ctx.count(2, part='defaults')
    # large random grids: same specification, driver-side instances of Bracket's definition
    for k in range(300 if ctx.thorough else 60):
        n = ctx.rng.choice([2, 3, 10, 51, 200, 401])
        nodes = numpy.cumsum([0.] + [ctx.rng.uniform(1e-4, 1.) for _ in range(n - 1)])
        for x in [ctx.rng.uniform(-1, nodes[-1] + 1) for _ in range(5)] + [float(ctx.rng.choice(list(nodes)))]:
            if x > nodes[-1]:
                want = [n - 1, -1]
            elif x < 0:
                want = [-1, 0]
            else:
                hit = [i for i in range(n) if nodes[i] == x]
                lo = max(i for i in range(n) if nodes[i] <= x)
                want = [hit[0]] * 2 if hit else [lo, lo + 1]
            for name, f in searches:
                with ctx.guard('bracket/' + name, key='random'):
                    got = flat(f(list(nodes), x))
                    ctx.expect(got == want, 'bracket/' + name, key='random', n=n, x=x, got=got, want=want)
        ctx.count(part='random')


def template(ctx, g, key):
    t = g.TEMPLATE
    ctx.expect(len(t) == g.MOMENTUM_SAMPLES, 'grid/samples', key=key, got=len(t))
    ctx.expect(t[0] == g.MIN_MOMENTUM == 0, 'grid/starts at zero', key=key, got=t[0])
    ctx.expect(terms.close(t[-1], g.MAX_MOMENTUM, 1e-9), 'grid/ends at the maximum', key=key, got=t[-1])
    ctx.expect(tuple(g.BOUNDS) == (g.MIN_MOMENTUM, g.MAX_MOMENTUM), 'grid/bounds', key=key, got=g.BOUNDS)
    ctx.expect(bool(numpy.all(numpy.diff(t) > 0)), 'grid/increasing', key=key)


def heuristic(ctx, common, UNITS, c):
    cases = [dict(M=M * UNITS.MeV, tau=tau * UNITS.s) for M in (20., 100., 150.) for tau in (0.05, 0.3)]
    cases += [dict(M=40 * UNITS.MeV, tau=0.1 * UNITS.s, b=1.3), dict(M=40 * UNITS.MeV, tau=0.1 * UNITS.s, c=60),
              dict(M=40 * UNITS.MeV, tau=0.1 * UNITS.s, aT=2.5 * UNITS.MeV)]
    for kw in cases:
        key = 'heuristic ' + str(sorted(kw.items()))
        with ctx.guard('heuristic', key=key):
            g = common.HeuristicGrid(**kw)
            env = dict(aT=1 * UNITS.MeV, b=0.8, c=200., s=UNITS.s)
            env.update(kw)
            template(ctx, g, key)
            top = ev(c['top'], env)
            ctx.expect(terms.close(g.TEMPLATE[-1], top, 1e-9), 'heuristic/top', key=key, got=g.TEMPLATE[-1], want=top)
            for i in range(len(g.TEMPLATE) - 1, 0, -1):
                env['g'] = float(g.TEMPLATE[i])
                want = ev(c['down'], env)
                if not ctx.expect(terms.close(g.TEMPLATE[i - 1], want, 1e-9, 1e-6 * top), 'heuristic/step', key=key,
                                  node=i, got=g.TEMPLATE[i - 1], want=want):
                    break
        ctx.count(part='heuristic')
