"""P17: the angular kernels of the four-particle collision integral equal their defining integrals."""
import pybbn
import terms

FLOOR = 1000


def q(r):
    return r[0] / r[1]


def check(ctx):
    I = pybbn.cpp('four_particle')
    r = ctx.tlc('DKernels', constants=dict(Q=6 if ctx.thorough else 4), workers=1,
                invariants=['Symmetric', 'PairSymmetric', 'Support', 'Vanish', 'Emit'])
    scales = (1., 0.37, 250.)
    for n, c in enumerate(r.emitted):
        for scale in scales:
            p = [v * scale for v in c['q']]
            key = 'q=%s scale=%g' % (c['q'], scale)
            with ctx.guard('kernel', key=key):
                for name, f, power in (('d1', I.D1, 1), ('d2', I.D2, 3), ('d3', I.D3, 5)):
                    want = q(c[name]) * scale**power
                    got = f(*p)
                    ctx.expect(terms.close(got, want, 1e-9, 1e-9 * (max(p) or 1)**power), name.upper(), key=key, got=got, want=want)
                if c['rest']:
                    for name, f, want in (('Db1', I.Db1, q(c['rest'][0])), ('Db2', I.Db2, q(c['rest'][1]) * scale**2)):
                        got = f(*p[1:])
                        ctx.expect(terms.close(got, want, 1e-9, 1e-9 * (1 if name == 'Db1' else (max(p) or 1)**2)), name, key=key, got=got, want=want)
            ctx.count(part='kernels')
    ctx.sample(r.emitted[333])
    r = ctx.tlc('DKernels', constants=dict(Q=1), init='InitFull', next_='NextFull', invariants=['FactorSymmetric', 'ProductSymmetric', 'EmitFull'])
    for e in r.emitted:
        c = e['c']
        order = [i - 1 for i in c['order']]
        key = str({k: c[k] for k in ('q', 'm', 'order', 'sides', 'K')})
        for unit in (1., 3.7):
            with ctx.guard('amplitude', key=key):
                args = [[float(v) * unit for v in c[k]] for k in ('q', 'E', 'm')]
                got = I.D(*args, float(c['K'][0]), float(c['K'][1]) , order, list(c['sides']))
                # both amplitudes are quadratic in products of energies: (energy)^4 per D1 ~ energy
                want = q(e['value']) * unit**5
                ctx.expect(terms.close(got, want, 1e-9, 1e-7 * unit**5), 'angular average of the amplitude', key=key, got=got, want=want)
                if e['rest']:
                    args[0][0], args[1][0] = 0., args[2][0]
                    got = I.Db(*args, float(c['K'][0]), float(c['K'][1]), order, list(c['sides']))
                    want = q(e['rest'][0]) * unit**3
                    ctx.expect(terms.close(got, want, 1e-9, 1e-7 * unit**3), 'angular average of the amplitude for a particle at rest', key=key, got=got, want=want)
            ctx.count(part='amplitudes')
    ctx.sample(r.emitted[3])
