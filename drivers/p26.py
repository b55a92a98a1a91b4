"""P26: selections of integrals and species, kinds of reactions."""
from collections import defaultdict

import pybbn
from harness import quiet

FLOOR = 500
ASSUMPTIONS = ['reactions of three and four legs over three species']


class Specie(object):
    def __init__(self, name, mass=0.):
        self.name, self.mass = name, mass

    def __gt__(self, other):
        return self.name > other.name

    def __lt__(self, other):
        return self.name < other.name


NAMES = dict(A='Muon', B='Muon neutrino', C='n')       # one within the other


class Obj(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def check(ctx):
    pybbn.load()
    from common import utils
    from interactions import Interaction
    r = ctx.tlc('Filters', invariants=['Weaker', 'Union', 'Everything', 'OneKind', 'Emit'])
    species = {n: Specie(NAMES[n]) for n in 'ABC'}
    groups = defaultdict(list)
    kinds = {}
    for e in r.emitted:
        a = e['a']
        groups[(tuple(sorted(a['names'])), a['first'], tuple(sorted(a['sums'])))].append(e)
        kinds[str(e['r'])] = e
    for e in kinds.values():
        key = str([(l['name'], l['side']) for l in e['r']])
        with ctx.guard('kind of reaction', key=key):
            t = utils.reaction_type(Obj(reaction=[Obj(specie=species[l['name']], side=l['side']) for l in e['r']]))
            got = [bool(t.CREATION), bool(t.SCATTERING), bool(t.DECAY)]
            want = [e['kind'] == k for k in ('creation', 'scattering', 'decay')]
            ctx.expect(got == want, 'kind of reaction', key=key, got=got, want=want)
        ctx.count(part='kinds')
    for n, ((names, first, sums), es) in enumerate(sorted(groups.items(), key=str)):
        names = [NAMES[x] for x in names]
        key = 'names=%s first only=%s kinds=%s' % (names, first, sums)
        with ctx.guard('interaction filter', key=key):
            integrals = [Obj(reaction=[Obj(specie=species[l['name']], side=l['side']) for l in e['r']], keep=e['keep']) for e in es]
            third = len(integrals) // 3
            split = [integrals[:third], [], integrals[third:]]
            inters = [Obj(integrals=list(s), name=str(i)) for i, s in enumerate(split)]
            given = list(inters)
            kw = {}
            if sums or n % 2:
                kw['reaction_type'] = list(sums) or [None]
            if not first or n % 3:
                kw['first_only'] = first
            arg = list(names) if n % 2 else tuple(names)
            out = utils.interaction_filter(arg, inters, **kw)
            ctx.expect(len(out) == 3 and all(a is b for a, b in zip(out, given)), 'interactions are those given', key=key)
            for k, inter in enumerate(out):
                want = [i for i in split[k] if i.keep]
                same = len(inter.integrals) == len(want) and all(a is b for a, b in zip(inter.integrals, want))
                if not ctx.expect(same, 'integrals that remain, in order', key=key, got=len(inter.integrals), want=len(want),
                                  wrong=[[(l.specie.name, l.side) for l in i.reaction] for i in split[k] if (i in inter.integrals) != i.keep][:3]):
                    break
            again = [list(i.integrals) for i in out]
            utils.interaction_filter(arg, inters, **kw)
            ctx.expect(again == [list(i.integrals) for i in out], 'selecting twice is selecting once', key=key)
            # species
            pool = [Specie(NAMES[x]) for x in 'ABCABB']
            got = utils.particle_filter(arg, pool)
            want = [p for p in pool if p.name not in names]
            ctx.expect(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'species that remain, in order', key=key)
            ctx.expect([p.name for p in pool] == [NAMES[x] for x in 'ABCABB'], 'the list given stays as it is', key=key)
        ctx.count(part='selections')
    order(ctx, utils)


def order(ctx, utils):
    r = ctx.tlc('Order', constants=dict(MaxLen=5 if ctx.thorough else 4), invariants=['Descending', 'Rearranged', 'Stable', 'Emit'])
    for e in r.emitted:
        pool = [Specie(s['name'], float(s['m'])) for s in e['given']]
        with ctx.guard('order', key=str(e['given'])):
            got = utils.particle_orderer(list(pool))
            ctx.expect([p.mass for p in got] == [float(m) for m in e['masses']], 'heaviest first', key=str(e['given']), got=[p.mass for p in got])
            ctx.expect(sorted(map(id, got)) == sorted(map(id, pool)), 'the same species', key=str(e['given']))
        ctx.count(part='orders')
