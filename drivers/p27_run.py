"""One run of everything in a unit system whose electronvolt is 2**k times the usual one (k is the argument);
prints the observables as JSON.  Separate process, as units are fixed when the code is imported."""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pybbn      # noqa: E402

K = int(sys.argv[1])
WHAT = sys.argv[2]
changed = []


class Rescale(ast.NodeTransformer):
    """ the definition of the electronvolt, wherever it stands """
    def visit_Assign(self, node):
        if any(isinstance(t, ast.Name) and t.id == 'eV' or isinstance(t, ast.Attribute) and t.attr == 'eV' for t in node.targets):
            changed.append(1)
            node.value = ast.BinOp(node.value, ast.Mult(), ast.Constant(2.**K))
        return ast.fix_missing_locations(node)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):           # never compiled code from an earlier run
        path = self.get_filename(name)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, **kw):
        return compile(Rescale().visit(ast.parse(data)), path, 'exec')


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'common':
            return None
        p = os.path.join(pybbn.REPO, 'common', '__init__.py')
        return importlib.util.spec_from_file_location(name, p, loader=Loader(name, p), submodule_search_locations=[os.path.dirname(p)])


sys.meta_path.insert(0, Finder())
pybbn.load()
import numpy      # noqa: E402
from harness import quiet      # noqa: E402
out = []


def put(name, dim, value):
    value = numpy.asarray(value, dtype=float).ravel()
    out.append([name, dim, value.tolist()])


def thermodynamics():
    from common import UNITS, CONST, Params, LinearSpacedGrid, LogSpacedGrid, HeuristicGrid, GRID
    from particles import Particle
    import libspecies
    MeV = UNITS.MeV
    # units and constants themselves
    for name, dim in (('eV', 'mass'), ('keV', 'mass'), ('MeV', 'mass'), ('GeV', 'mass'), ('TeV', 'mass'), ('kg', 'mass'), ('s', 't'), ('m', 't'), ('K9', 'mass'), ('N', 'force'), ('g_cm3', 'rho')):
        put('unit ' + name, dim, getattr(UNITS, name))
    for name, dim in (('M_p', 'mass'), ('H', 'H'), ('f_K', 'mass'), ('f_eta_c', 'mass'), ('f_D', 'mass'), ('f_Ds', 'mass'), ('f_Ds_star', 'mass'), ('lambda_QCD', 'mass'), ('M_W', 'mass'),
                      ('delta_m12_sq', 'force'), ('delta_m13_sq', 'force'), ('MSW_constant', 'amplitude4'), ('G', 'newton'), ('G_F', 'newton'),
                      ('sin_theta_w_2', 'N_eff'), ('g_R', 'N_eff'), ('g_L', 'N_eff'), ('eta', 'N_eff'), ('alpha', 'N_eff'), ('rate_normalization', 'normalization')):
        put('constant ' + name, dim, getattr(CONST, name))
    put('grid', 'momentum', GRID.TEMPLATE)
    put('log grid', 'momentum', LogSpacedGrid(MOMENTUM_SAMPLES=9).TEMPLATE)
    h = HeuristicGrid(M=50 * MeV, tau=0.1 * UNITS.s)
    put('heuristic grid', 'momentum', h.TEMPLATE)
    for name, t in sorted(libspecies.templates().items()):
        put(name, 'mass', t.get('mass', 0.))
        if 'lifetime' in t:
            put(name, 'lifetime', t['lifetime'])
    for name in ('gam', 'e', 'ne', 'mu', 'pi', 'n'):
        for T in (100., 3., 0.2):
            params = Params(T=T * MeV, dy=0.05)
            p = libspecies.particle(name)
            p.set_params(params)
            for k in range(2):
                for q in ('density', 'energy_density', 'pressure', 'entropy', 'numerator', 'denominator'):
                    v = getattr(p, q)
                    put('%s %s %s' % (name, T, k), q, v() if callable(v) else v)
                put('%s %s' % (name, T), 'occupation', p.distribution(numpy.array([0., 0.3, 2.2, 7., 25.]) * MeV) if hasattr(p, 'distribution') else 0.)
                params.x *= 1.3
                params.update(1. * MeV**4, 1. * MeV**3)
                p.update()


def library():
    from common import UNITS
    import libspecies
    from collections import defaultdict
    from library import SM
    from library.SM import interactions as SMI
    from library.NuMSM import interactions as NuI
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    MeV = UNITS.MeV
    L = {n: libspecies.particle(n) for n in ('ne', 'nm', 'nt', 'e', 'mu', 'pi0', 'pi', 'eta', 'rho0', 'rho', 'n', 'p')}
    N = libspecies.sterile(300 * MeV, False)
    nus = [L[k] for k in ('ne', 'nm', 'nt')]
    sets = list(SMI.neutrino_interactions(leptons=[L['e'], L['mu']], neutrinos=nus))
    sets += NuI.sterile_leptons_interactions(thetas=defaultdict(float, {'electron': 1e-3, 'muon': 1e-4}), sterile=N, neutrinos=nus, leptons=[L['e'], L['mu']], kind=Kind.F_1_vacuum_decay)
    sets += NuI.sterile_hadrons_interactions(thetas=defaultdict(float, {'electron': 1e-3, 'muon': 1e-4}), sterile=N, neutrinos=nus, leptons=[L['e'], L['mu']],
                                             mesons=[L['pi0'], L['pi']], kind=Kind.F_1_vacuum_decay)
    mesons = [libspecies.particle(n) for n in libspecies.HADRONS if n not in ('n', 'p')]
    sets += SMI.meson_interactions(primary_mesons=mesons, mesons=mesons, leptons=[L['e'], L['mu']], neutrinos=nus, photon=[libspecies.particle('gam')], muon_tau=[0, 0], kind=None)
    for inter in sets:
        for i in inter.integrals:
            name = inter.name + ' ' + ' '.join('%s%+d' % (r.specie.name, r.side) for r in i.reaction)
            for M in i.Ms:
                if len(i.reaction) == 4:
                    put(name, 'amplitude4', M.K1)
                    put(name + ' K2', 'K2', M.K2)
                    put(name + ' K', 'amplitude4c', M.K)
                else:
                    put(name, 'amplitude3', M.K)


def run(log):
    """ a short run with neutrinos out of equilibrium, a decaying heavy neutrino, rates """
    os.environ['LOGARITHMIC_TIMESTEP'] = str(log)
    os.environ['SPLIT_COLLISION_INTEGRAL'] = ''
    from collections import defaultdict
    import libspecies
    from common import UNITS, Params, LinearSpacedGrid
    from evolution import Universe
    from library import SM
    from library.SM import interactions as SMI
    from library.NuMSM import interactions as NuI
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    MeV = UNITS.MeV
    u = Universe(params=Params(T=4. * MeV, **(dict(dy=0.01) if log else dict(dx=0.002 * MeV))))
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=21, MAX_MOMENTUM=20 * MeV)
    wide = LinearSpacedGrid(MOMENTUM_SAMPLES=25, MAX_MOMENTUM=60 * MeV)
    photon, e = libspecies.particle('gam', grid=wide), libspecies.particle('e', grid=wide)
    ne, nm, nt = [libspecies.particle(n, grid=wide) for n in ('ne', 'nm', 'nt')]
    for n in (ne, nm, nt):
        n.decoupling_temperature = 5. * MeV
    N = libspecies.sterile(150. * MeV, False, grid=grid)
    N.decoupling_temperature = 4. * MeV
    u.add_particles([photon, e, ne, nm, nt, N])
    thetas = defaultdict(float, {'electron': 1e-3})
    u.interactions += SMI.neutrino_interactions(leptons=[e], neutrinos=[ne, nm])[:3]
    u.interactions += NuI.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=[ne, nm], leptons=[e], kind=Kind.F_1_vacuum_decay)[:2]
    pi = libspecies.particle('pi0', grid=wide)
    u.interactions += NuI.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=[ne], leptons=[e], mesons=[pi], kind=Kind.F_1_vacuum_decay)
    u.add_particles([pi])
    u.init_oscillations(SM.particles.leptons.oscillations_map, (ne, nm, nt))
    u.init_kawano(electron=e, neutrino=ne)
    seen = []

    def monitor(un):
        seen.append({p.name: numpy.array(p.collision_integral, dtype=float) for p in un.particles if not p.in_equilibrium and hasattr(p, 'collision_integral')})
    u.step_monitor = monitor
    u.evolve(3.88 * MeV, export=False)
    c = 'log' if log else 'lin'
    for col in ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'S'):
        put('run', col, u.data[col])
    put('run', 'fraction_' + c, u.data['fraction'])
    for i in range(len(u.kawano_data)):
        row = list(u.kawano_data[i])
        put('rates', 'rate', row[6:])
        put('rates', 'H', row[5])
    put('step', 'step_' + c, u.params.h)
    for p in u.particles:
        if not p.in_equilibrium:
            put(p.name, 'occupation', p._distribution)
            put(p.name, 'collision_' + c, p.collision_integral)
    for v in seen:
        for k in sorted(v):
            put(k, 'collision_' + c, v[k])


def heuristics():
    from common import UNITS
    from common import kinematics as K
    MeV = UNITS.MeV
    for m in (5., 105.7, 105.9, 112., 120., 135., 135.2, 139.7, 140., 180., 300., 495., 600., 780., 1000., 1200.):
        for theta in (1e-5, 1e-3):
            for f in (K.decoupling_temperature_relativistic, K.decoupling_temperature):
                put('%s %s %s' % (f.__name__, m, theta), 'temperature', f(m * MeV, theta))
            for f in (K.grid_params_HNL, K.grid_params_neutrino, K.grid_params_meson, K.grid_params_lepton):
                put('%s %s %s' % (f.__name__, m, theta), 'momentum', f(m * MeV, theta)[1])
            put('lepton like in the standard model %s %s' % (m, theta), 'momentum', K.grid_params_lepton(m * MeV, theta, std=True)[1])
            for f in (K.grid_resolution_HNL, K.grid_resolution_neutrino, K.grid_resolution_meson, K.grid_resolution_lepton):
                put('%s %s %s' % (f.__name__, m, theta), 'momentum', f(m * MeV, theta))
    os.environ.pop('Relativistic_decoupling', None)


try:
    with quiet():
        with numpy.errstate(all='ignore'):
            {'thermodynamics': thermodynamics, 'library': library, 'log run': lambda: run(True), 'lin run': lambda: run(False), 'heuristics': heuristics}[WHAT]()
except Exception:
    import traceback
    sys.stderr.write(traceback.format_exc())
    sys.exit(3)
print(json.dumps(dict(changed=len(changed), out=out)))
