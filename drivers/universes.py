"""Universes of scripted species: real Universe, real Particle subclasses whose physics is a script."""
import numpy

import pybbn


def classes():
    pybbn.load()
    from particles import Particle

    class Scripted(Particle):
        """ A species whose densities and temperature terms follow the script, logging every call. """
        log = None
        script = staticmethod(lambda p, what: 1.)

        def note(self, kind):
            if self.log is not None:
                self.log.append(dict(kind=kind, who=self.name, gives=[]))

        def populate_methods(self):
            self.density = self.script(self, 'density')
            self.energy_density = self.script(self, 'energy_density')
            self.pressure = self.script(self, 'pressure')
            self.entropy = self.script(self, 'entropy')

            def numerator():
                self.asked = getattr(self, 'asked', set())
                self.asked.add('n')
                self.ask()
                return self.script(self, 'numerator')

            def denominator():
                self.asked = getattr(self, 'asked', set())
                self.asked.add('d')
                self.ask()
                return self.script(self, 'denominator')
            self.numerator, self.denominator = numerator, denominator

        def ask(self):
            if self.asked == {'n', 'd'}:
                self.note('terms')
                self.asked = set()

        def update(self, *a, **kw):
            self.note('update')
            return Particle.update(self, *a, **kw)

        def update_distribution(self):
            self.note('distribute')
            self.seen_integral = numpy.array(self.collision_integral, copy=True)
            return Particle.update_distribution(self)

        def integrate_collisions(self):
            self.note('collide')
            return numpy.zeros(self.grid.MOMENTUM_SAMPLES) + self.script(self, 'collision')

    class Inter(object):
        def __init__(self, name, gives, log=None):
            self.name, self.gives, self.log = name, gives, log
            self.integrals = []

        def initialize(self):
            now = self.gives()
            if self.log is not None:
                self.log.append(dict(kind='init', who=self.name, gives=[p.name for p in now]))
            for p in now:
                p.collision_integrals.append(self)

        def __str__(self):
            return self.name
    return Scripted, Inter
