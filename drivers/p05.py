"""P05: quadrature rules integrate what they are given over the bounds they are given."""
import os

import numpy

import pybbn
import terms

FLOOR = 300
ASSUMPTIONS = ['polynomial integrands; the paired rule is not exercised on an empty interval']


def q(r):
    return r[0] / r[1]


def poly(p):
    c = [q(x) for x in p]
    return lambda x: sum(v * x**i for i, v in enumerate(c))


def near(a, b):
    return terms.close(a, b, 1e-10, 1e-11)


def check(ctx):
    pybbn.paths()
    from common import integrators as I, GRID
    from common.integrators import gauss_laguerre, gauss_legendre, paired
    r = ctx.tlc('Quadrature', constants=dict(MaxDegree=9, MaxDegree2=4 if ctx.thorough else 2),
                invariants=['Orientation', 'Degenerate', 'Additive', 'Antisymmetric', 'HatInside', 'Emit'])
    for c in r.emitted:
        key = str({k: v for k, v in c.items() if k != 'want'})
        want = q(c['want'])
        with ctx.guard(c['rule'], key=key):
            if c['rule'] == '1d':
                a, b, k = q(c['a']), q(c['b']), c['deg']

                def f(x):
                    return x**k + 0. * x
                got = {'gaussian': I.gaussian(f, a, b), 'integrate_1D': I.integrate_1D(f, (a, b))[0],
                       'lambda_integrate': I.lambda_integrate((a, b))(lambda: f)(),
                       'scaled': I.gaussian(lambda x: -3. * f(x), a, b) / -3.}
                os.environ['FIXED_ORDER_1D_QUADRATURE'] = 'False'
                try:
                    got['adaptive'] = I.integrate_1D(f, (a, b))[0]
                finally:
                    del os.environ['FIXED_ORDER_1D_QUADRATURE']
                if a != b:
                    one, two = paired.integrate_1D(lambda x: numpy.array([f(x), 2. * x]), (a, b))
                    got['paired'] = one
                    ctx.expect(near(two, b * b - a * a), '1d/paired second', key=key, got=two)
                for name, g in got.items():
                    ctx.expect(near(g, want), '1d/' + name, key=key, got=g, want=want)
                # arguments of the integrated function pass through
                g = I.lambda_integrate((a, b))(lambda s, t=1.: (lambda x: s * t * f(x)))(2., t=5.)
                ctx.expect(near(g, 10. * want), '1d/arguments', key=key, got=g)
            elif c['rule'] == '2d':
                i, j, lo, up = c['i'], c['j'], poly(c['g']), poly(c['h'])
                a, b = q(c['a']), q(c['b'])

                def f2(x, y):
                    return x**i * y**j + 0. * (x + y)
                got = {'double_gaussian': I.double_gaussian(f2, a, b, lo, up),
                       'integrate_2D': I.integrate_2D(f2, ((a, b), (lo, up)))[0]}
                one, two = paired.integrate_2D(lambda x, y: (f2(x, y), -4. * f2(x, y)), ((a, b), (lo, up)))
                got['paired first'], got['paired second'] = one, two / -4.
                for name, g in got.items():
                    ctx.expect(near(g, want), '2d/' + name, key=key, got=g, want=want)
            elif c['rule'] == 'hat':
                centre, w, unit = q(c['c']), q(c['w']), 10.**-c['k']
                os.environ['FIXED_ORDER_1D_QUADRATURE'] = 'False'
                try:
                    got, error = I.integrate_1D(lambda x: unit * numpy.maximum(0., w - abs(x - centre)), (q(c['a']), q(c['b'])))
                finally:
                    del os.environ['FIXED_ORDER_1D_QUADRATURE']
                ctx.expect(terms.close(got, unit * want, 1e-6), '1d/adaptive reaches its relative accuracy', key=key, got=got, want=unit * want)
            elif c['rule'] == 'laguerre':
                k = c['deg']
                for name, g in (('gaussian', gauss_laguerre.gaussian(lambda x: x**k + 0. * x)),
                                ('integrate_1D', gauss_laguerre.integrate_1D(lambda x: x**k + 0. * x)[0])):
                    ctx.expect(terms.close(g, want, 1e-9), 'laguerre/' + name, key=key, got=g, want=want)
            elif c['rule'] == 'simpson':
                x = numpy.linspace(q(c['a']), q(c['b']), c['n'])
                y = numpy.linspace(0., 2., 5)
                k = c['deg']
                one, two = paired.integrate_1D_simpsons((x**k + 0. * x, -x), x)
                ctx.expect(near(one, want) and near(two, -(q(c['b'])**2 - q(c['a'])**2) / 2), 'simpson/1d', key=key, got=(one, two))
                mesh = (x[None, :]**k + 0. * x[None, :]) * (3. * y[:, None]**2)    # rows: y, columns: x
                one, two = paired.integrate_2D_simpsons((mesh, 2. * mesh), (x, y))
                ctx.expect(near(one, 8. * want) and near(two, 16. * want), 'simpson/2d', key=key, got=(one, two))
            else:
                lag = c['rule'] == 'laguerre order'
                var, mod = ('GAUSS_LAGUERRE_ORDER', gauss_laguerre) if lag else ('GAUSS_LEGENDRE_ORDER', gauss_legendre)
                os.environ[var] = str(c['n'])
                try:
                    mod.init_quadrature()
                    ctx.expect(len(mod.points) == c['n'] == len(mod.weights), 'configured order', key=key, got=len(mod.points))
                    k = c['deg']
                    g = mod.gaussian(lambda x: x**k + 0. * x) if lag else I.gaussian(lambda x: x**k + 0. * x, q(c['a']), q(c['b']))
                    ctx.expect(terms.close(g, want, 1e-9), 'configured order/exactness', key=key, got=g, want=want)
                finally:
                    del os.environ[var]
                    mod.init_quadrature()
        ctx.count(part=c['rule'])
    ctx.sample(r.emitted[5])
    ctx.sample(r.emitted[-1])
    with ctx.guard('defaults'):
        ctx.expect(len(gauss_legendre.points) == 100 and len(gauss_laguerre.points) == 100, 'default order')
        ctx.expect(near(I.gaussian(lambda x: x**199, 0., 1.), 1 / 200.), 'top exact degree')
        g = I.lambda_integrate()(lambda: (lambda y: y))()
        ctx.expect(near(g, GRID.MAX_MOMENTUM**2 / 2), 'default bounds are the momentum grid', got=g)
        ctx.count(3, part='defaults')
