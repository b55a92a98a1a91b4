"""P12: matrix elements keep their value through reordering, crossing and merging."""
import itertools

import pybbn
import crossing
import terms

FLOOR = 1000
ASSUMPTIONS = ['constant terms K of four-particle elements are only checked to survive, not their merging (unused by the library)']


def same(a, b):
    return set(a) == set(b) and all(
        set(a[k][i]) == set(b[k][i]) and all(terms.close(a[k][i][x], b[k][i][x], 1e-9) for x in a[k][i]) for k in a for i in (0, 1))


def check(ctx):
    pybbn.load()
    from interactions.four_particle import FourParticleM, FourParticleIntegral
    from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
    sps = [crossing.species(o) for o in ("ABCM", "MCBA", "BAMC", None)]
    for num, c in enumerate(crossing.processes(ctx, 4, 2, crossing.flags(ctx, 4))):
        key = '%s %s' % (''.join(c['sp']), ''.join('~' if a else '.' for a in c['anti']))
        with ctx.guard('amplitude', key=key):
            Ms = (FourParticleM(K1=2., order=(0, 2, 1, 3)), FourParticleM(K1=3., order=(0, 3, 1, 2)),
                  FourParticleM(K2=5., order=(2, 3, 0, 1)), FourParticleM(K1=1., K2=7., order=(0, 2, 1, 3)))
            it = crossing.build(c, sps[num % 4], 2, Ms, FourParticleIntegral)
            want, got = crossing.clean(crossing.spec_amplitude(c)), crossing.clean(crossing.impl_amplitude(it.integrals))
            ctx.expect(same(want, got), 'amplitude', key=key, got=str(got)[:400], want=str(want)[:400])
            ctx.expect([(M.K1, M.K2, M.order) for M in Ms] == [(2., 0., (0, 2, 1, 3)), (3., 0., (0, 3, 1, 2)), (0., 5., (2, 3, 0, 1)),
                                                               (1., 7., (0, 2, 1, 3))], 'the given elements are not modified', key=key)
        ctx.count(part='four-particle')
    for left in (1, 2):
        for num, c in enumerate(crossing.processes(ctx, 3, left, crossing.flags(ctx, 3))):
            key = '%s %s left=%d' % (''.join(c['sp']), ''.join('~' if a else '.' for a in c['anti']), left)
            with ctx.guard('amplitude', key=key):
                Ms = (ThreeParticleM(K=2.), ThreeParticleM(K=5.))
                it = crossing.build(c, sps[num % 4], left, Ms, ThreeParticleIntegral)
                count = {}
                for r in c['reactions']:
                    k = crossing.cls_of_spec(c, r)
                    count[k] = count.get(k, 0) + 7.
                got = {crossing.cls_of_impl(i): sum(M.K for M in i.Ms) for i in it.integrals}
                ctx.expect(set(got) == set(count) and all(terms.close(got[k], count[k], 1e-9) for k in count), 'constant amplitude', key=key,
                           got=str(got), want=str(count))
            ctx.count(part='three-particle')
    elements(ctx, FourParticleM, ThreeParticleM)


def elements(ctx, FourParticleM, ThreeParticleM):
    from library.SM import WeakM
    from library.NuMSM import SterileM
    from common import CONST
    weak = 32. * CONST.G_F**2
    perms = list(itertools.permutations(range(4)))
    for o in perms:
        with ctx.guard('element', key=str(o)):
            M = FourParticleM(K1=1., K2=2., order=o)
            ctx.expect(set(M.order[:2]) == set(o[:2]) and set(M.order[2:]) == set(o[2:]), 'order', key=str(o), got=M.order)
            for p in perms:
                Q = FourParticleM(K1=3., K2=0., order=p)
                R = FourParticleM(K1=1., K2=0., order=o)
                same_terms = {frozenset(o[:2]), frozenset(o[2:])} == {frozenset(p[:2]), frozenset(p[2:])}
                ctx.expect(bool(R.stackable(Q)) == same_terms, 'stackable', key='%s %s' % (o, p), got=R.stackable(Q))
                # with a mass term only the same pairs in the same roles can be added
                ctx.expect(bool(M.stackable(Q)) == (frozenset(o[:2]) == frozenset(p[:2])), 'stackable with mass terms', key='%s %s' % (o, p))
            W = WeakM(K1=1.5, K2=-2., order=o)
            ctx.expect(terms.close([W.K1, W.K2], [1.5 * weak, -2. * weak], 1e-12) and set(W.order[:2]) == set(o[:2]), 'weak scale', key=str(o),
                       got=(W.K1, W.K2))
            S = SterileM(theta=0.3, K1=1.5, K2=-2., order=o)
            ctx.expect(terms.close([S.K1, S.K2], [0.09 * 1.5 * weak, -0.09 * 2. * weak], 1e-12), 'mixing scale', key=str(o), got=(S.K1, S.K2))
        ctx.count(part='elements')
    for bad in ((0, 0, 1, 2), (1, 2, 3, 3), (0, 1, 0, 1)):
        try:
            FourParticleM(K1=1., order=bad)
            ctx.fail('repeated momenta are refused', key=str(bad))
        except Exception:        # noqa
            pass
    with ctx.guard('arithmetic'):
        M = FourParticleM(K1=2., K2=3., order=(0, 1, 2, 3))
        M *= 4.
        ctx.expect((M.K1, M.K2) == (8., 12.), 'scaling', got=(M.K1, M.K2))
        M += FourParticleM(K1=1., K2=-2., order=(0, 1, 2, 3))
        ctx.expect((M.K1, M.K2) == (9., 10.), 'sum', got=(M.K1, M.K2))
        T = ThreeParticleM(K=2.)
        T *= 3.
        T += ThreeParticleM(K=1.)
        ctx.expect(T.K == 7., 'three-particle arithmetic', got=T.K)
        ctx.expect(FourParticleM(K=3.).K == 3. and FourParticleM().K1 == 0., 'defaults')
        ctx.count(4, part='arithmetic')
