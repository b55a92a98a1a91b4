"""Shared by P11 and P12: replays the processes of spec/Crossing.tla into real interactions."""
from collections import Counter, defaultdict

import pybbn

MASS = dict(A=10., B=1., C=0., M=4.)


def species(order='ABCM'):
    """ names are chosen so that several alphabetical orders of the same species are exercised; without an order they are equal """
    pybbn.load()
    from particles import Particle
    return {k: Particle(name='%02d %s' % (order.index(k), k) if order else 'Particle', symbol=k, mass=MASS[k], majorana=k == 'M', Q=0) for k in 'ABCM'}


def processes(ctx, n, left, flags):
    import tlc
    r = tlc_run(ctx, n, left, flags)
    return r.emitted


def tlc_run(ctx, n, left, flags):
    # Flags is a set of boolean tuples: goes through a set of sequences
    class Raw(frozenset):
        pass
    return ctx.tlc('Crossing', constants=dict(N=n, LeftSize=left, Flags={tuple(f) for f in flags}),
                   invariants=['ChargeConserved', 'OnShell', 'Complete', 'Involution', 'Emit'])


def build(c, sp, left, Ms, integral_type, **kw):
    from interactions import CrossGeneratingInteraction
    s = [sp[x] for x in c['sp']]
    a = list(c['anti'])
    return CrossGeneratingInteraction(name='test', particles=(tuple(s[:left]), tuple(s[left:])),
                                      antiparticles=(tuple(a[:left]), tuple(a[left:])),
                                      Ms=Ms, integral_type=integral_type, **kw)


def label(first, side, sym, is_first):
    return '%s%s%s' % (sym, '<' if side == -1 else '>', '*' if is_first else '')


def cls_of_spec(c, r):
    left = Counter(c['sp'][i - 1] for i in r['left'])
    right = Counter(c['sp'][i - 1] for i in range(1, len(c['sp']) + 1) if i not in r['left'])
    return c['sp'][r['first'] - 1], tuple(sorted(left.elements())), tuple(sorted(right.elements()))


def cls_of_impl(integral):
    left = Counter(i.specie.symbol for i in integral.reaction if i.side == -1)
    right = Counter(i.specie.symbol for i in integral.reaction if i.side == 1)
    return integral.particle.symbol, tuple(sorted(left.elements())), tuple(sorted(right.elements()))


def spec_amplitude(c):
    """ {class: ({partition: K1}, {mass pair: K2})} """
    out = defaultdict(lambda: (defaultdict(float), defaultdict(float)))
    for r in c['reactions']:
        lab = {i: label(None, -1 if i in r['left'] else 1, c['sp'][i - 1], i == r['first']) for i in range(1, len(c['sp']) + 1)}
        k = cls_of_spec(c, r)
        for t in r['terms']:
            o = [lab[i] for i in t['o']]
            add(out[k], o, t['K1'], t['K2'])
    return out


def add(pair, o, K1, K2):
    p, q = tuple(sorted(o[:2])), tuple(sorted(o[2:]))
    pair[0][tuple(sorted([p, q]))] += K1
    pair[1][(p, q)] += K2


def impl_amplitude(integrals):
    out = defaultdict(lambda: (defaultdict(float), defaultdict(float)))
    for it in integrals:
        lab = [label(None, x.side, x.specie.symbol, n == 0) for n, x in enumerate(it.reaction)]
        for M in it.Ms:
            add(out[cls_of_impl(it)], [lab[i] for i in M.order], M.K1, M.K2)
    return out


def clean(d):
    return {k: ({a: b for a, b in v[0].items() if b}, {a: b for a, b in v[1].items() if b}) for k, v in d.items()}


FLAGS4 = [(0, 0, 0, 0), (0, 1, 0, 1), (1, 0, 0, 1), (1, 1, 0, 0), (0, 0, 1, 0)]
FLAGS3 = [(0, 0, 0), (0, 1, 0), (1, 0, 1), (0, 0, 1), (1, 1, 1)]


def flags(ctx, n):
    import itertools
    if ctx.thorough:
        return list(itertools.product((False, True), repeat=n))
    return [tuple(bool(x) for x in f) for f in (FLAGS4 if n == 4 else FLAGS3)]
