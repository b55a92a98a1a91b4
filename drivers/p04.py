"""P04: the ODE steppers are the multistep rules they claim to be."""
import numpy

import pybbn
import terms

FLOOR = 1000


def q(r):
    return r[0] / r[1]


def check(ctx):
    pybbn.paths()
    from common import integrators as I
    r = ctx.tlc('Steppers', invariants=['OrderConditions', 'Stationary', 'Conserving', 'Emit'])
    for c in r.emitted:
        key = str({k: v for k, v in c.items() if k != 'want'})
        want = q(c['want'])
        h = q(c['h'])
        for vector in (False, True):
            wrap = (lambda v: numpy.array([v, -2. * v, 0.])) if vector else (lambda v: v)
            expect = numpy.array([want, -2. * want, 0.]) if vector else want
            with ctx.guard(c['rule'], key=key):
                if c['rule'] == 'explicit':
                    fs = [wrap(q(f)) for f in c['fs']]
                    n = len(fs)
                    got = I.adams_bashforth_correction(fs, h) if c['order'] == 0 else \
                        I.adams_bashforth_correction(fs, h, order=c['order'])
                    ctx.expect(len(fs) == n, 'the history belongs to the caller', key=key)
                elif c['rule'] == 'implicit':
                    fs = [wrap(q(f)) for f in c['fs']]
                    n = len(fs)
                    y, A, B = wrap(q(c['y'])), wrap(q(c['A'])), q(c['B'])
                    if vector:
                        B = numpy.array([B, B, B])
                    got = I.adams_moulton_solver(y, fs, A, B, h) if c['order'] == 0 else \
                        I.adams_moulton_solver(y, fs, A, B, h, order=c['order'])
                    ctx.expect(len(fs) == n, 'the history belongs to the caller', key=key)
                elif c['rule'] == 'implicit euler':
                    B = q(c['B'])
                    got = I.implicit_euler(wrap(q(c['y'])), 0., wrap(q(c['A'])), B, h)
                else:
                    p, s, g = (q(v) for v in c['c'])
                    if vector:
                        continue

                    def f(t, y):
                        return p + s * t + g * y
                    got = {'euler': I.euler_correction, 'heun': I.heun_correction}[c['rule']](y=q(c['y']), t=q(c['t']), f=f, h=h)
                ctx.expect(terms.close(got, expect, 1e-11, 1e-13), c['rule'], key=key, got=got, want=want)
            ctx.count(part=c['rule'])
    ctx.sample(r.emitted[0])
    ctx.sample(r.emitted[-1])
    # a rule of an order the history cannot support is refused, not silently lowered
    for f, args in ((I.adams_bashforth_correction, dict(fs=[1., 2.], h=.1, order=3)),
                    (I.adams_moulton_solver, dict(y=0., fs=[1.], A=1., B=0., h=.1, order=4))):
        try:
            f(**args)
        except Exception:
            pass
        else:
            ctx.fail('unsupported order accepted', key=f.__name__)
        ctx.count(part='refusals')
    # convergence: integrating y' = -y from exact history, the error per step shrinks like h^(k+1)
    for k in range(1, 6):
        errs = []
        for h in (0.1, 0.05):
            fs = [-numpy.exp(-(j - k + 1) * h) for j in range(k)]
            errs.append(abs(1 + I.adams_bashforth_correction(fs, h, order=k) - numpy.exp(-h)))
        rate = numpy.log2(errs[0] / errs[1])
        ctx.expect(abs(rate - (k + 1)) < 0.35, 'convergence order (explicit)', key=str(k), got=rate)
        errs = []
        for h in (0.1, 0.05):
            fs = [-numpy.exp(-(j - k + 2) * h) for j in range(k - 1)]
            errs.append(abs(I.adams_moulton_solver(1., fs, 0., -1., h, order=k) - numpy.exp(-h)))
        rate = numpy.log2(errs[0] / errs[1])
        ctx.expect(abs(rate - (k + 1)) < 0.35, 'convergence order (implicit)', key=str(k), got=rate)
        ctx.count(2, part='convergence')
