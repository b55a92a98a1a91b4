"""P10: the evolution loop of a universe."""
import os

import numpy

import pybbn
import terms
from terms import ev
from harness import quiet
import universes

FLOOR = 100
ASSUMPTIONS = ['species are scripted subclasses of the real particle class; order inside a phase is left free']
COLS = ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S')


def script(amp, k):
    def f(p, what):
        a = p.params.a if p.params else 1.
        return {'density': 1e-9, 'energy_density': (2e-11 + 1e-12 * k) / a**4, 'pressure': 1e-12,
                'entropy': (3e-9 + 1e-10 * k) / a**3, 'numerator': amp * 1e-6 * (1 + k) * numpy.cos(3e1 * a + k) / max(1., a),
                'denominator': (1. + 0.3 * k) * 1e-6, 'collision': 0.}[what]
    return f


def build(ctx, seed, log_step, n_species, n_inter, log, amp=0.02, T=3., folder=None):
    from common import Params, UNITS, LinearSpacedGrid
    from evolution import Universe
    Scripted, Inter = universes.classes()
    kw = dict(dy=0.05) if log_step else dict(dx=0.02 * UNITS.MeV)
    u = Universe(params=Params(T=T * UNITS.MeV, **kw), folder=folder)
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=10 * UNITS.MeV)
    parts = []
    for k in range(n_species):
        p = Scripted(name='S%d' % k, symbol='s%d' % k, mass=k * UNITS.MeV, grid=grid,
                     decoupling_temperature=(0., 2.5 * UNITS.MeV, 100. * UNITS.MeV)[k % 3])
        p.script = script(amp, k)
        parts.append(p)
    u.add_particles(parts)
    for p in parts:
        p.log = log
    import random
    rng = random.Random(seed)
    inters = [Inter('I%d' % k, lambda: [p for p in parts if not p.in_equilibrium and rng.random() < 0.6], log) for k in range(n_inter)]
    u.interactions += inters
    return u, parts


def record(u, log):
    """ log monitor and row events of the universe """
    u.step_monitor = lambda un: log.append(dict(kind='monitor', who='universe', gives=[], fraction=un.fraction, rows=len(un.data)))
    table = u.data
    append = type(table).append

    class Logged(type(table)):
        def append(self, rec):
            r = append(self, rec)
            log.append(dict(kind='row', who='universe', gives=[]))
            return r
    table.__class__ = Logged


def rows(u):
    return [{c: float(u.data[c][i]) for c in COLS} for i in range(len(u.data))]


def check(ctx):
    pybbn.load()
    from common import UNITS, CONST
    ctx.tlc('Evolution', constants=dict(Species={'A', 'B', 'C'}, Inters={'I', 'J'}, MaxSteps=2), spec='EvSpec',
            invariants=['TypeOK', 'FreshInputs', 'CollisionsFirst', 'MovedFirst', 'OnlyActive'], properties=['Terminates'], workers=4)
    ctx.tlc('Evolution', constants=dict(Species={'A', 'B'}, Inters=set(), MaxSteps=2), spec='EvSpec',
            invariants=['TypeOK', 'FreshInputs', 'CollisionsFirst', 'MovedFirst', 'OnlyActive'], properties=['Terminates'])
    r = ctx.tlc('Advance', constants=dict(MaxRows=8), invariants=['Consistent', 'Bounded', 'Emit'])
    law = {(c['rows'], c['log'], c['multistep']): c for c in r.emitted}
    case = 0
    for log_step in (True, False):
        for multistep in (True, False):
            os.environ['LOGARITHMIC_TIMESTEP'] = str(log_step)
            os.environ['ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'] = str(multistep)
            for n_species, n_inter in ((1, 0), (1, 1), (2, 1), (3, 2)) + (((5, 4), (4, 3)) if ctx.thorough else ()):
                for amp in (0., 0.02, -0.03):
                    case += 1
                    run_one(ctx, law, case, log_step, multistep, n_species, n_inter, amp, UNITS, CONST)
            # a long run: nothing changes after many steps
            case += 1
            run_one(ctx, law, case, log_step, multistep, 2, 1, 0.02, UNITS, CONST, T_final=(1e-4 if ctx.thorough else 1e-2) if log_step else 0.2 if ctx.thorough else 0.4)
    for v in ('LOGARITHMIC_TIMESTEP', 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION'):
        os.environ.pop(v, None)
    faults(ctx, UNITS)
    isolation(ctx, UNITS)
    registry(ctx, UNITS)
    leptons(ctx, UNITS)
    flags(ctx, UNITS)


def p0(a_):
    class P(object):
        class params(object):
            a = a_
    return P


def run_one(ctx, law, case, log_step, multistep, n_species, n_inter, amp, UNITS, CONST, T_final=None):
    key = 'log=%s multistep=%s species=%d interactions=%d amp=%s%s' % (log_step, multistep, n_species, n_inter, amp, ' long' if T_final else '')
    log = []
    T_final = T_final or (1.9 if log_step else 2.2)
    with ctx.guard('evolution', key=key):
        u, parts = build(ctx, case, log_step, n_species, n_inter, log, amp)
        record(u, log)
        T_ini = u.params.T
        with quiet():
            data = u.evolve(T_final * UNITS.MeV, export=False)
        ctx.expect(data is u.data, 'history is returned', key=key)
        hist = rows(u)
        # -- stop exactly at the first temperature not above the requested one
        ctx.expect(all(h['T'] > T_final * UNITS.MeV for h in hist[:-1]), 'no step after the final temperature', key=key,
                   got=[h['T'] for h in hist][-3:])
        ctx.expect(hist[-1]['T'] <= T_final * UNITS.MeV, 'runs down to the final temperature', key=key, got=hist[-1]['T'])
        steps = len(hist) - 1
        ctx.expect(u.step == steps + 1, 'step counter', key=key, got=u.step, want=steps + 1)
        ctx.expect(terms.close(hist[0]['T'], T_ini, 1e-12) and hist[0]['fraction'] == 0, 'first row is the initial state', key=key, got=hist[0])
        tot = [sum(p.script(p0(hist[0]['a']), q) for p in parts) for q in ('energy_density', 'entropy')]
        ctx.expect(terms.close([hist[0]['rho'], hist[0]['S']], tot, 1e-9), 'first row/totals', key=key, got=hist[0], want=tot)
        monitors = [e for e in log if e['kind'] == 'monitor']
        for i in range(1, len(hist)):
            prev, cur = hist[i - 1], hist[i]
            c = law[(min(i, 8), log_step, multistep)]
            used = c['used']
            fr = [h['fraction'] for h in hist[:i + 1]][-used:]
            env = {'f%d' % (k + 1): v for k, v in enumerate(fr)}
            a_now = prev['a']

            class P(object):
                class params(object):
                    a = a_now
            num = sum(p.script(P, 'numerator') for p in parts)
            den = sum(p.script(P, 'denominator') for p in parts)
            env.update(aT0=prev['aT'], x0=prev['x'], a0=prev['a'], t0=prev['t'], dx=u.params.dx, dy=0.05, h=u.params.h, m=u.params.m,
                       rho=cur['rho'], Mp=CONST.M_p, num=num, den=den)
            for col in ('fraction', 'aT', 'x', 'a', 'T', 't'):
                want = ev(c[col], env)
                ctx.expect(terms.close(cur[col], want, 1e-9, 1e-30), 'row/' + col, key=key, step=i, got=cur[col], want=want)
            rho = sum(p.script(P, 'energy_density') for p in parts)
            S = sum(p.script(P, 'entropy') for p in parts)
            ctx.expect(terms.close(cur['rho'], rho, 1e-9) and terms.close(cur['S'], S, 1e-9), 'row/totals', key=key, step=i, got=(cur['rho'], cur['S']),
                       want=(rho, S))
            if i - 1 < len(monitors):
                ctx.expect(terms.close(monitors[i - 1]['fraction'], cur['fraction'], 1e-12), 'monitor sees this step', key=key, step=i)
                ctx.expect(monitors[i - 1]['rows'] == i, 'monitor runs before the row is written', key=key, step=i, got=monitors[i - 1]['rows'])
        # -- protocol
        first = next((k for k, e in enumerate(log) if e['kind'] == 'row'), 0)
        trace = [dict(kind=e['kind'], who=e['who'], gives=e['gives']) for e in log[first + 1:]]
        v = ctx.validate('EvolutionTrace', trace, constants=dict(
            Species={p.name for p in parts}, Inters={i.name for i in u.interactions}, MaxSteps=1000), invariants=['Emit'])
        verdict = v.emitted[-1] if v.emitted else {'bad': ['no verdict'], 'steps': -1, 'atStart': False}
        ctx.expect(not verdict['bad'], 'protocol', key=key, got=verdict)
        ctx.expect(verdict['bad'] or (verdict['steps'] == steps and verdict['atStart']), 'protocol/complete steps', key=key, got=verdict, want=steps)
        # -- nothing left to do: the history stays
        with quiet():
            u.evolve(T_final * UNITS.MeV, export=False, init_time=False)
        again = rows(u)
        ctx.expect(again[:len(hist)] == hist and u.step == steps + 1, 'a finished universe does not move', key=key)
        # -- continued: the time goes on, or starts anew from the density when asked
        T_next = u.params.T * 0.93
        for fresh in (False, True):
            before, t, k = len(u.data), u.params.t, u.step
            rho = float(u.data['rho'][-1])
            with quiet():
                u.evolve(T_next, export=False, **({} if fresh else dict(init_time=False)))
            T_next *= 0.93
            want = numpy.sqrt(3. / (32. * numpy.pi * CONST.G * rho)) if fresh else t
            ctx.expect(terms.close(float(u.data['t'][before]), want, 1e-9), 'time of a continued run', key=key, fresh=fresh, got=float(u.data['t'][before]), want=want)
            new = rows(u)
            ctx.expect(len(new) - before - 1 == u.step - k > 0 and new[-1]['T'] <= T_next / 0.93 < new[-2]['T'], 'a continued run goes on', key=key, fresh=fresh)
            for i in range(before + 1, len(new)):
                prev, cur = new[i - 1], new[i]
                env = dict(t0=prev['t'], a0=prev['a'], x0=prev['x'], m=u.params.m, dx=u.params.dx, dy=0.05, rho=cur['rho'], Mp=CONST.M_p)
                for col in ('x', 'a', 't'):
                    want = ev(law[(1, log_step, multistep)][col], env)
                    ctx.expect(terms.close(cur[col], want, 1e-9, 1e-30), 'row of a continued run/' + col, key=key, fresh=fresh, got=cur[col], want=want)
        # -- a state exactly at the requested temperature is the last one
        for k in {steps, 1 + steps // 2}:
            w, _ = build(ctx, case, log_step, n_species, n_inter, [], amp)
            with quiet():
                w.evolve(hist[k]['T'], export=False)
            k = next(j for j, h in enumerate(hist) if h['T'] <= hist[k]['T'])
            ctx.expect(rows(w) == hist[:k + 1], 'stops at the final temperature', key=key, got=len(w.data), want=k + 1)
        ctx.count(part='runs')
        ctx.count(len(hist), part='rows')
        ctx.sample(dict(key=key, rows=len(hist), events=len(trace)))


def faults(ctx, UNITS):
    """ interrupts and instabilities end the run with an error; the recorded history stays """
    for at in (1, 2, 5):
        log = []
        key = 'interrupt at step %d' % at
        u, parts = build(ctx, at, True, 2, 1, log)

        def boom(un, at=at):
            if un.step == at:
                raise KeyboardInterrupt
        u.step_monitor = boom
        code = None
        try:
            with quiet():
                u.evolve(1. * UNITS.MeV, export=False)
        except SystemExit as e:
            code = e.code
        ctx.expect(code not in (None, 0), 'interrupt/exit status', key=key, got=code)
        ctx.expect(len(u.data) == at, 'interrupt/history', key=key, got=len(u.data), want=at)
        ctx.count(part='interrupts')
    for key, value in (('negative temperature', -1.), ('undefined temperature', numpy.nan)):
        for at in (1, 3):
            log = []
            u, parts = build(ctx, 1, True, 1, 0, log, amp=0.)
            old = parts[0].script

            def bad(p, what, u=u, at=at, value=value, old=old):
                if what in ('numerator', 'denominator') and u.step >= at:
                    return value if what == 'numerator' else 1e-3
                return old(p, what)
            parts[0].script = bad
            code = None
            try:
                with quiet():
                    u.evolve(1. * UNITS.MeV, export=False)
            except SystemExit as e:
                code = e.code
            ctx.expect(code not in (None, 0), 'instability/exit status', key='%s at step %d' % (key, at), got=code)
            ctx.expect(len(u.data) == at + 1, 'instability/history', key='%s at step %d' % (key, at), got=len(u.data))
            ctx.count(part='instability')


def isolation(ctx, UNITS):
    """ two universes advanced alternately evolve as they do alone """
    with ctx.guard('isolation'), quiet():
        alone = []
        for seed, amp, n in ((1, 0.02, 2), (2, -0.03, 3)):
            u, _ = build(ctx, seed, True, n, 1, [], amp)
            u.params.update(u.total_energy_density(), u.total_entropy())
            u.save_params()
            for k in range(7):
                u.make_step()
                u.save()
            alone.append(rows(u))
        pair = [build(ctx, seed, True, n, 1, [], amp)[0] for seed, amp, n in ((1, 0.02, 2), (2, -0.03, 3))]
        for u in pair:
            u.params.update(u.total_energy_density(), u.total_entropy())
            u.save_params()
        for k in range(7):
            for u in (pair if k % 2 else pair[::-1]):
                u.make_step()
                u.save()
        for i, u in enumerate(pair):
            ctx.expect(rows(u) == alone[i], 'isolated universes', key=str(i))
            ctx.count(part='isolation')


def registry(ctx, UNITS):
    """ a species follows the clock of the universe it was last added to """
    from common import Params, LinearSpacedGrid
    from evolution import Universe
    from particles import Particle
    MeV = UNITS.MeV
    r = ctx.tlc('Registry', constants=dict(Universes={'u', 'w'}, Species={'A', 'B'}, MaxSteps=4 if ctx.thorough else 3),
                invariants=['OneHome', 'Kept', 'Emit'])
    for h in r.emitted:
        key = str([(e['kind'], e['u'], e['what']) for e in h])
        with ctx.guard('species belong to their universe', key=key):
            us = {'u': Universe(params=Params(T=3. * MeV, dy=0.05)), 'w': Universe(params=Params(T=2. * MeV, dy=0.1))}
            own = Params(T=5. * MeV, dy=0.05)
            grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=10 * MeV)
            # A is created with a clock of its own, B without any
            sp = {n: Particle(name=n, symbol=n, mass=m, majorana=True, Q=0, grid=grid, decoupling_temperature=1e-6 * MeV, **kw)
                  for n, m, kw in (('A', 0., dict(params=own)), ('B', 1. * MeV, {}))}
            for e in h:
                un = us[e['u']]
                if e['kind'] == 'add':
                    un.add_particles([sp[n] for n in e['what']])
                else:
                    un.params.x += un.params.dx
                    un.params.aT *= 1.01
                    un.params.update(1e-9, 1e-9)
                    un.update_particles()
                for n, home in e['home'].items():
                    p, params = sp[n], (own if home == 'none' else us[home].params)
                    if home == 'none' and n == 'B':
                        continue
                    ctx.expect(p.params is params, 'species follow the clock of their universe', key=key, who=n, home=home)
                    ctx.expect(terms.close([p.T, p.aT], [params.T, params.aT], 1e-12), 'species have the temperature of their universe',
                               key=key, who=n, got=[p.T, p.aT], want=[params.T, params.aT])
                    ctx.expect(terms.close(p.conformal_mass, p.mass * params.a, 1e-12), 'conformal mass', key=key, who=n)
        ctx.count(part='species moved between universes')


class Leptons(object):
    """ electron or neutrino with a distribution of its own """
    def __init__(self, params, grid, f):
        self.params, self.grid, self.f = params, grid, f

    def distribution(self, y):
        return self.f * numpy.exp(-y / self.params.aT)


def leptons(ctx, UNITS):
    """ the rates a universe records are those of the leptons it was given """
    import kawano
    from common import Params, LinearSpacedGrid
    from evolution import Universe
    MeV = UNITS.MeV
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=10 * MeV)
    r = ctx.tlc('Leptons', constants=dict(Universes={'u', 'w'}, Sets={'A', 'B'}, MaxSteps=5 if ctx.thorough else 4), invariants=['OwnRates', 'NoneBefore', 'Emit'])
    hists = [h for n, h in enumerate(sorted(r.emitted, key=str)) if ctx.thorough or (n + ctx.seed) % 3 == 0]
    for h in hists:
        key = str([(e['kind'], e['u'], e['what']) for e in h])
        with ctx.guard('leptons of a universe', key=key), quiet():
            us = {'u': Universe(params=Params(T=3. * MeV, dy=0.05)), 'w': Universe(params=Params(T=2. * MeV, dy=0.1))}
            sets = {}
            for u in us.values():
                u.params.update(1e-9, 1e-9)
            for e in h:
                un = us[e['u']]
                if e['kind'] == 'give':
                    f = dict(A=0.5, B=0.2)[e['what']]
                    sets[e['u']] = (Leptons(un.params, grid, f), Leptons(un.params, grid, 0.7 * f))
                    last = e['u']
                    un.init_kawano(electron=sets[e['u']][0], neutrino=sets[e['u']][1])
                else:
                    un.params.x += un.params.dx
                    un.params.update(1e-9, 1e-9)
                    un.save()
                for n, v in us.items():
                    rows = getattr(v, 'kawano_data', None)
                    got = len(rows) if rows is not None else 0
                    if not ctx.expect(got == len(e['rows'][n]), 'rates of every step since the leptons were given', key=key, got=got, want=len(e['rows'][n])):
                        break
                    if n == e['u'] and e['kind'] == 'step' and got:
                        row = list(rows[got - 1])[6:]
                        kawano.init_kawano(electron=sets[n][0], neutrino=sets[n][1])
                        want = kawano.baryonic_rates(v.params.a)
                        kawano.init_kawano(electron=sets[last][0], neutrino=sets[last][1])
                        ctx.expect(terms.close(row, want, 1e-12), 'rates of the leptons of this universe', key=key, got=row, want=want)
        ctx.count(part='leptons of several universes')


FLAGS = ('HNL_ENERGY', 'Relativistic_decoupling', 'STERILE_DECAYED')


def flags(ctx, UNITS):
    """ collisions of a universe do not depend on what was done in other universes """
    import libspecies
    from common import Params, LinearSpacedGrid, kinematics
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    from library.SM import interactions as SMI
    from library.NuMSM import interactions as NuI
    MeV = UNITS.MeV
    mixing = dict(warm=0.1, hot=1e-3)
    light, heavy = LinearSpacedGrid(MOMENTUM_SAMPLES=7, MAX_MOMENTUM=60 * MeV), LinearSpacedGrid(MOMENTUM_SAMPLES=11, MAX_MOMENTUM=400 * MeV)

    def create(kind):
        params = Params(T=60. * MeV, dy=0.05)
        params.x *= 30
        params.update(1e-9, 1e-9)           # cooled to 2 MeV
        nu = libspecies.particle('ne', decoupling_temperature=1e7 * MeV)
        e = libspecies.particle('e', decoupling_temperature=1e7 * MeV)
        w = [nu, e]
        if kind != 'none':
            kinematics.decoupling_temperature(50. * MeV, mixing[kind])
            N = libspecies.sterile(50. * MeV, False, decoupling_temperature=1e7 * MeV)
            N.grid = heavy
            w = [N] + w
        for p in w:
            if p.tag != 'N':
                p.grid = light
            p.params, p.T, p.aT = params, params.T, params.aT
            p._distribution = 0.5 / (numpy.exp(p.grid.TEMPLATE / (20. * MeV)) + 1)
            p.density = 5e-9
            p.data['params'].append(dict(a=params.a, t=0., T=params.T, density=p.density, energy_density=1e-12))
        inters = SMI.neutrino_interactions(leptons=[e], neutrinos=[nu], kind=K.F_1)
        if kind != 'none':
            inters = NuI.sterile_leptons_interactions(thetas=dict(electron=mixing[kind], muon=0., tau=0.), sterile=w[0], neutrinos=[nu], leptons=[e], kind=K.F_1) + inters
        return w, [it for inter in inters for it in inter.integrals]

    def collide(world):
        """ as in a step: heavier species first """
        w, integrals = world
        reach, scatters = 'usual', False
        for p in w:
            for it in integrals:
                sides = sum(i.side for i in it.reaction)
                if it.particle is not p or sides and p.tag != 'N':
                    continue
                it.initialize()
                got = numpy.asarray(it.integrate(p.grid.TEMPLATE, stepsize=p.params.h))
                if p.tag == 'N':
                    scatters = scatters or not sides and bool(numpy.any(got != 0))
                elif p.tag == 'ne' and not any(i.specie.tag == 'N' for i in it.reaction) and numpy.any(got[p.grid.TEMPLATE > 35 * MeV] != 0):
                    reach = 'heavy'
        return reach, scatters

    def clear():
        for v in FLAGS:
            os.environ.pop(v, None)

    r = ctx.tlc('Flags', constants=dict(Universes={'u', 'w'}, MaxSteps=5 if ctx.thorough else 4), invariants=['SameUniverseSameResult', 'Emit'])
    hists = [h for n, h in enumerate(sorted(r.emitted, key=str)) if (n + ctx.seed) % (2 if ctx.thorough else 5) == 0]
    try:
        for h in hists:
            clear()
            os.environ['MAX_MOMENTUM_MEV'] = '20'
            key = str([(e['what'], e['u'], e['kind']) for e in h])
            worlds = {}
            with ctx.guard('collisions of a universe', key=key), quiet():
                for n, e in enumerate(h):
                    if e['what'] == 'create':
                        worlds[e['u']] = create(e['kind'])
                        continue
                    reach, scatters = collide(worlds[e['u']])
                    others = [x for x in h[:n] if x['u'] != e['u']]
                    leak = reach == 'heavy' and any(x['what'] == 'collide' and x['kind'] != 'none' for x in others)
                    ctx.expect(reach == e['reach'], 'two universes do not influence each other', history=key, got=reach, want=e['reach'],
                               key='momenta followed for a heavy neutrino of another universe' if leak else key)
                    leak = not scatters and any(x['what'] == 'create' and x['kind'] == 'hot' for x in others)
                    ctx.expect(scatters == e['scatters'], 'two universes do not influence each other', history=key, got=scatters, want=e['scatters'],
                               key='relativistic decoupling of the heavy neutrino of another universe' if leak else key)
            ctx.count(part='what collisions depend on besides particles')
    finally:
        clear()
        os.environ.pop('MAX_MOMENTUM_MEV', None)
