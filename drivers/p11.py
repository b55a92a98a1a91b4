"""P11: an interaction yields exactly the collision integrals of its crossings."""
import numpy

import pybbn
import crossing
from crossing import cls_of_impl, cls_of_spec

FLOOR = 1000
ASSUMPTIONS = ['amplitude bookkeeping is P12; charge and flavour of the library processes is P17']


def check(ctx):
    pybbn.load()
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleM, FourParticleIntegral
    from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    orders = ['ABCM', 'MCBA', 'BAMC', None]
    sps = [crossing.species(o) for o in orders]
    for n, left in ((4, 2), (4, 1), (3, 1), (3, 2)):
        if n == 4 and left == 1 and not ctx.thorough:
            flags = [(False, False, True, False)]
        else:
            flags = crossing.flags(ctx, n)
        cases = crossing.processes(ctx, n, left, flags)
        for num, c in enumerate(cases):
            key = '%s %s left=%d' % (''.join(c['sp']), ''.join('~' if a else '.' for a in c['anti']), left)
            sp = sps[num % 4]
            Ms = (FourParticleM(K1=1., order=(0, 1, 2, 3)), ) if n == 4 else (ThreeParticleM(K=1.), )
            wt = float(num % 5)
            with ctx.guard('crossing', key=key):
                it = crossing.build(c, sp, left, Ms, FourParticleIntegral if n == 4 else ThreeParticleIntegral,
                                    washout_temperature=wt, kind=(K.Full, K.F_1, K.F_decay, None)[num % 7 % 4])
                want = {}
                for r in c['reactions']:
                    want.setdefault(cls_of_spec(c, r), []).append(r)
                got = [cls_of_impl(i) for i in it.integrals]
                ctx.expect(sorted(got) == sorted(want), 'integrals', key=key, missing=sorted(set(want) - set(got)),
                           extra=sorted(set(got) - set(want)), duplicate=len(got) != len(set(got)))
                for i in it.integrals:
                    ok = [r for r in want.get(cls_of_impl(i), [])]
                    ctx.expect(matches(c, i, ok), 'reaction', key=key, got=str(i), want=ok)
                    ctx.expect(i.particle is i.reaction[0].specie and i.reaction[0].side == -1, 'evolved particle comes first', key=key, got=str(i))
                    ctx.expect(tuple(i.sides) == tuple(x.side for x in i.reaction) and
                               sorted(i.sides) == list(i.sides), 'sides', key=key, got=i.sides)
                    ctx.expect(i.kind == ((K.Full, K.F_1, K.F_decay, K.Full)[num % 7 % 4]), 'kind', key=key, got=str(i.kind))
                    ctx.expect(i.washout_temperature == wt, 'washout temperature', key=key, got=i.washout_temperature)
                # every single crossing before similar ones are merged
                rm = list(it.reactions_map())
                sig = sorted((x[0].index, tuple(sorted(y.index for y in x if y.side == -1))) for x in rm)
                wsig = sorted((r['first'] - 1, tuple(sorted(j - 1 for j in r['left']))) for r in c['reactions'])
                ctx.expect(sig == wsig, 'reactions', key=key, missing=[s for s in wsig if s not in sig], extra=[s for s in sig if s not in wsig])
            ctx.count(part='%d items, %d in' % (n, left))
        ctx.sample(dict(process=cases[0]['sp'], reactions=len(cases[0]['reactions'])))
    # an unknown kind of integral is refused
    sp = sps[0]
    try:
        CrossGeneratingInteraction(name='x', particles=((sp['A'], sp['B']), (sp['C'], sp['B'])), antiparticles=((False, True), (True, False)),
                                   Ms=(FourParticleM(K1=1.), ), integral_type=FourParticleIntegral, kind='nonsense')
        ctx.fail('unknown kind accepted')
    except ValueError:
        pass
    explicit(ctx, sps[0])
    explicit(ctx, sps[3])


def matches(c, integral, reactions):
    """ the integral shows one of the reactions of its class, items, antiparticles and crossing included """
    got = (integral.reaction[0].index, frozenset(x.index for x in integral.reaction if x.side == -1),
           frozenset(x.index for x in integral.reaction if x.antiparticle), frozenset(x.index for x in integral.reaction if x.crossed),
           tuple(c['sp'][x.index] for x in integral.reaction) == tuple(x.specie.symbol for x in integral.reaction),
           len({x.index for x in integral.reaction}) == len(integral.reaction) == len(c['sp']))
    for r in reactions:
        if got == (r['first'] - 1, frozenset(j - 1 for j in r['left']), frozenset(j - 1 for j in r['anti']),
                   frozenset(j - 1 for j in r['crossed']), True, True):
            return True
    return False


def explicit(ctx, sp):
    """ an interaction given its integrals keeps them (similar ones merged) and initialises each """
    from interactions import Interaction, IntegralItem
    from interactions.four_particle import FourParticleM

    class I(object):
        def __init__(self, first, others, K1, n=0):
            self.particle = sp[first]
            self.reaction = tuple(IntegralItem(side=-1 if k < 2 else 1, specie=sp[x], antiparticle=False, index=k, crossed=False)
                                  for k, x in enumerate([first] + others))
            self.Ms, self.calls = (FourParticleM(K1=K1, order=(0, 1, 2, 3)), ), 0

        def initialize(self):
            self.calls += 1
    with ctx.guard('explicit'):
        ints = [I('A', ['B', 'B', 'C'], 1.), I('A', ['C', 'B', 'B'], 2.), I('A', ['B', 'C', 'B'], 4.), I('B', ['A', 'B', 'C'], 8.)]
        it = Interaction(name='explicit', integrals=ints)
        ctx.expect(list(it.integrals) == [ints[0], ints[1], ints[3]], 'explicit integrals', got=len(it.integrals))
        ctx.expect(abs(sum(M.K1 for M in ints[0].Ms) - 5.) < 1e-12, 'merged amplitude', got=[M.K1 for M in ints[0].Ms])
        it.initialize()
        ctx.expect([i.calls for i in ints] == [1, 1, 0, 1], 'initialize reaches every integral', got=[i.calls for i in ints])
        # what comes out tells integrals apart, too
        outs = [I('A', ['B', 'B', 'C'], 1.), I('A', ['B', 'M', 'M'], 2.), I('A', ['B', 'C', 'M'], 4.), I('A', ['M', 'B', 'C'], 8.)]
        it = Interaction(name='outs', integrals=outs)
        ctx.expect(list(it.integrals) == outs and [M.K1 for i in outs for M in i.Ms] == [1., 2., 4., 8.], 'integrals with different products', got=len(it.integrals))
        ctx.expect('explicit' in str(Interaction(name='explicit', integrals=[])), 'name')
        a, b = Interaction(name='a', integrals=ints[:1]), Interaction(name='b')
        ctx.expect(len(b.integrals) == 0 and len(a.integrals) == 1, 'interactions do not share integrals')
    ctx.count(4, part='explicit')
