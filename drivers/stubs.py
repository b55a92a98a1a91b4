"""Real particles with chosen grids and reactions made of them."""
import numpy

import pybbn


class Grid(object):
    def __init__(self, nodes):
        self.TEMPLATE = numpy.array(nodes, dtype=float)
        self.MOMENTUM_SAMPLES = len(self.TEMPLATE)
        self.MIN_MOMENTUM, self.MAX_MOMENTUM = float(self.TEMPLATE[0]), float(self.TEMPLATE[-1])
        self.BOUNDS = (self.MIN_MOMENTUM, self.MAX_MOMENTUM)


def uniform(n, top):
    return Grid(numpy.linspace(0., top, n))


def reaction(left, right, anti=None):
    from interactions import IntegralItem
    n = len(left) + len(right)
    anti = anti or [False] * n
    return tuple(IntegralItem(side=-1 if i < len(left) else 1, specie=p, antiparticle=anti[i], index=i, crossed=False)
                 for i, p in enumerate(list(left) + list(right)))


class Integral(object):
    """ what the rules look at: the particle, its reaction and the kind of the integral """
    def __init__(self, left, right, kind=None, anti=None):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind
        self.reaction = reaction(left, right, anti)
        self.particle = left[0]
        self.kind = CollisionIntegralKind.Full if kind is None else kind
