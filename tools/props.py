"""Writes properties.jsonl and MANIFEST.json (run by hand after editing this list)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, spec, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=None),
                  spec=spec, note=note))


prop('P01', 'Recorded time series are faithful, append-only tables',
     'A table of the recorded history returns exactly the rows appended to it, in order, however many were appended, in whatever chunks, and through every way of reading it '
     '(length, index from either end, slice, column, iteration, CSV export in the declared units). '
     'Appending never changes an earlier row, and truncating removes exactly the last row.',
     ['histories'], 'every sequence of append / extend / truncate / read operations on a table, across its growth boundaries',
     'The tests never look at a table after it has outgrown its first allocation, nor after a truncation, nor from the end.',
     ['common/utils.py'], [('DynamicRecArray', 'common/utils.py'), ('Dynamic2DArray', 'common/utils.py')],
     ['DynamicRecArray', 'Dynamic2DArray'], 'Series, SeriesTrace',
     'all operation histories up to 5 (quick) / 6 operations and simulated histories of 40 operations are replayed into the real tables; recorded random histories of the real tables are validated by TLC',
     [('data, length, capacity', 'allocated storage and the part of it in use', 'common/utils.py')])

prop('P02', 'Settings follow the environment and fall back to their defaults',
     'A run-time setting has its documented default while its environment variable is unset and the value of the variable, converted to the type of the default, while it is set. '
     'Every boolean setting can be switched both on and off this way, and changing one variable never changes another setting.',
     ['configurations', 'histories'], 'every setting, every sequence of setting and unsetting variables, every spelling of on and off',
     'The tests run with one fixed configuration; an override that is silently ignored or misread leaves them green.',
     ['environment.py', 'common/utils.py'], [('get', 'environment.py'), ('getboolenv', 'common/utils.py')],
     ['environment.get', 'utils.getenv', 'utils.getboolenv'], 'Config',
     'exhaustive set/unset histories up to depth 2/3 over representative settings, one operation over every setting, simulated longer ones')

prop('P03', 'The cosmological clock stays self-consistent',
     'At every step the scale factor, the plasma temperature, their product and the evolution variable describe one and the same state, the Hubble rate obeys the Friedmann equation for the '
     'current energy density, and cosmic time advances by the scale factor growth over the Hubble rate. '
     'This holds for linear and logarithmic stepping, any normalisation and any initial temperature.',
     ['inputs', 'histories', 'configurations'], 'every initial temperature and normalisation, both step modes, every sequence of temperature and density changes',
     'The tests use one normalisation and step mode and only look at the end result of whole runs, with tolerances wider than a wrong half step.',
     ['common/__init__.py'], [('Params.infer, Params.update, Params.init_time', 'common/__init__.py')],
     ['Params'], 'Expansion', 'exact rational histories replayed into the real parameters object; H, N_eff and time compared with the stated expressions')

prop('P04', 'ODE steppers are the multistep rules they claim to be',
     'An explicit or implicit multistep advance of order k is exact for every solution that is a polynomial of degree k, uses the most recent entries of the history it is given (oldest first), '
     'lowers its order only when the history is too short, and leaves the history unchanged. The one-step rules (Euler, implicit Euler, Heun) equal their definitions.',
     ['inputs', 'histories'], 'every order, history length, step size and right-hand side (scalar or vector)',
     'A wrong weight only lowers the convergence order; a handful of sampled tolerances cannot tell.',
     ['common/integrators/__init__.py'], [('adams_bashforth_correction, adams_moulton_solver, euler_correction, heun_correction, implicit_euler', 'common/integrators/__init__.py')],
     ['the steppers of common.integrators'], 'Steppers, Multistep', 'order conditions verified exactly by TLC; every emitted case replayed on scalars and arrays')

prop('P05', 'Quadrature rules integrate over exactly the bounds given',
     'The one and two dimensional quadratures return the value of the integral of the given function between the given bounds, including variable, reversed and degenerate bounds, '
     'and the semi-infinite rule that of the weighted integrand. Fixed-order and adaptive modes agree, and paired integration returns both integrals.',
     ['inputs', 'configurations'], 'every polynomial integrand up to the degree of the rule and every pair of bounds, both modes',
     'The tests sample two or three smooth integrands over fixed bounds.',
     ['common/integrators'], [('gaussian, double_gaussian, integrate_1D, integrate_2D', 'common/integrators/__init__.py'), ('paired rules', 'common/integrators/paired.py'),
                              ('Gauss-Laguerre', 'common/integrators/gauss_laguerre.py')],
     ['the quadratures of common.integrators'], 'Quadrature', 'exact polynomial integrals enumerated by TLC and replayed into every rule')

prop('P06', 'Momentum grids are increasing and searched correctly',
     'A momentum grid has the requested number of strictly increasing nodes from its declared minimum to its declared maximum, in the declared spacing. '
     'The bracket search returns, for every momentum, the node that equals it or the two neighbouring nodes around it, and reports momenta outside the grid as such.',
     ['inputs'], 'every increasing grid and every momentum on, between, below and above its nodes',
     'Off-by-one errors of a bisection show only for particular grid sizes and positions.',
     ['common/__init__.py', 'interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp'],
     [('LinearSpacedGrid, LogSpacedGrid, HeuristicGrid, binary_find', 'common/__init__.py'), ('binary_find', 'interactions/*/cpp/integral.cpp')],
     ['grid classes', 'binary_find (Python and both C++ extensions)'], 'Grids', 'all sub-grids of an abstract line and all query positions, replayed into the three implementations')

prop('P07', 'Interpolated distributions agree with the sampled ones',
     'The value of a sampled distribution function equals the sample on a node, lies between the neighbouring samples in between, is exact for equilibrium distributions, falls off exponentially '
     'above the grid, and is the analytic one while the species is in equilibrium. All implementations agree, and table interpolation is exact for polynomials of its order.',
     ['inputs'], 'every grid, samples, momentum, mass, statistics and temperature',
     'The tests sample one equilibrium function; cells with vanishing or saturated samples and the region above the grid are never reached.',
     ['common/__init__.py', 'interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'particles/__init__.py'],
     [('distribution_interpolation', 'interactions/*/cpp/integral.cpp'), ('linear/cubic interpolation, interp', 'common/__init__.py'), ('distribution', 'particles/__init__.py')],
     ['distribution_interpolation', 'Particle.distribution', 'table interpolation'], 'Interpolation', 'cell/position cases enumerated by TLC over node values including 0, 1 and above')

prop('P08', 'A species follows the plasma and decouples exactly once',
     'While its temperature is above its decoupling temperature a species shares the plasma temperature, its regime follows from the ratio of temperature and mass, and its distribution is the thermal one; '
     'when the temperature first falls to the decoupling temperature it leaves equilibrium with the distribution of that moment. '
     'From then on it never returns, its comoving temperature stays fixed while its temperature redshifts with the expansion, and every update is recorded.',
     ['histories', 'inputs'], 'every mass, decoupling temperature, statistics and every sequence of expansion steps',
     'Tests follow a few species through a couple of temperatures; an error at the switching step or in the frozen state needs a particular history.',
     ['particles/__init__.py'], [('regime, in_equilibrium, update, init_distribution', 'particles/__init__.py')],
     ['Particle.update', 'Particle.regime', 'Particle.in_equilibrium'], 'Species', 'all expansion histories up to 3-6 steps on dyadic temperatures, replayed step by step into real particles',
     [('T, aT, _distribution, t_decoupling', 'own temperature and distribution', 'particles/__init__.py')])

prop('P09', 'Thermodynamic quantities match their definition in every regime',
     'Number and energy density, pressure, entropy and the two terms of the temperature equation of a species equal the momentum integrals of its distribution function in the regime it is in, '
     'for fermions and bosons, and the approximations used in neighbouring regimes agree with each other at the switching points. '
     'Out of equilibrium they are the integrals of the sampled distribution and of its collision integral.',
     ['inputs', 'configurations'], 'every mass, temperature, statistics, number of states and sampled distribution',
     'The tests compare a few numbers at one temperature; wrong powers of the scale factor or a missing statistics factor need other inputs.',
     ['particles/RadiationParticle.py', 'particles/IntermediateParticle.py', 'particles/DustParticle.py', 'particles/NonEqParticle.py'],
     [('density, energy_density, pressure, entropy, numerator, denominator', 'particles/*Particle.py')],
     ['Particle attributes after update'], 'Thermo', 'definitions as integral expressions evaluated by an independent quadrature')

prop('P10', 'Evolution steps run completely, in order, and are recorded',
     'Every step updates all species before any interaction is prepared, integrates the collisions of exactly the species that have some, applies them, and advances temperature, scale factor and time '
     'by the multistep rule from the terms of all species; every step adds one row with the new state to the history. '
     'Integration stops at the first state at or below the final temperature, a species follows the clock of the universe it was last added to, and two universes of one process do not influence each other.',
     ['histories', 'schedules', 'configurations'], 'every set of species and interactions, number of steps, stepping mode and correction order',
     'The tests only run whole cosmologies; omission of one species in one phase shifts results within their tolerance.',
     ['evolution.py'], [('Universe.integrate, step, update_particles, init_interactions, calculate_collisions, update_distributions, calculate_temperature_terms, save_params', 'evolution.py')],
     ['Universe with scripted species', 'Universe.data', 'Universe.kawano_data'], 'Evolution, EvolutionTrace, Advance, Registry, Leptons, Flags',
     'event traces of real universes validated by TLC; recorded rows compared with the row-to-row relation',
     [('Universe.params, Universe.data', 'current state and recorded history', 'evolution.py')])

prop('P11', 'An interaction yields exactly the integrals of its crossings',
     'From one process the integrals of all kinematically possible crossings are generated, each exactly once per evolved species, particles that change side becoming antiparticles; '
     'charges are conserved in every one of them if they are in the process. No integral is generated for antiparticles as evolved species or for decays of a lighter into heavier particles.',
     ['programs', 'inputs'], 'every three and four particle process: masses, Majorana flags, particle/antiparticle assignments and repeated species',
     'The tests list the integrals of two or three library processes.',
     ['interactions/__init__.py'], [('reactions_map, cross_particle, IntegralDeduplicator', 'interactions/__init__.py')],
     ['CrossGeneratingInteraction.integrals'], 'Crossing', 'all processes over small sets of species enumerated by TLC and replayed')

prop('P12', 'Matrix elements survive reordering, crossing and merging',
     'In every generated integral the squared amplitude, as a function of the momenta of the participating particles, is the amplitude of the original process: factors stay attached to their particles, '
     'mass terms change sign exactly when one of their two particles has crossed, and equal processes add up their amplitudes once each.',
     ['programs', 'inputs'], 'every process, every order of its amplitude terms and every crossing',
     'A misplaced factor changes numerical rates only slightly; tests compare a few orders of library processes.',
     ['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
     [('init_integrals, IntegralDeduplicator.append', 'interactions/__init__.py'), ('FourParticleM.apply_order, stackable', 'interactions/four_particle/__init__.py')],
     ['Ms of the generated integrals'], 'Crossing', 'amplitudes of the generated integrals compared, term by term, with those of the specification')

prop('P13', 'Collision integrals cover every reachable momentum',
     'A collision integral is evaluated at every grid momentum that the kinematics of its reaction can reach (at most one node beyond) and is zero on the rest of the grid, '
     'and the pieces together have the length of the grid. The kinematic limits contain every momentum a decay of the parent can produce.',
     ['inputs', 'configurations'], 'every grid, reaction, masses, parent momentum range and cutoff setting',
     'A dropped boundary node or a swapped limit needs a particular relation of bound and grid.',
     ['common/kinematics.py'], [('grid_cutoff_3p, grid_cutoff_4p, three_particle_bounds_creation, four_particle_bounds_creation', 'common/kinematics.py')],
     ['kinematics.grid_cutoff_3p/4p', 'bounds'], 'Cutoffs', 'all sub-grids and bounds of an abstract line; kinematic reach against two-body kinematics')

prop('P14', 'Reactions are skipped only when they cannot contribute',
     'A reaction contributes nothing exactly in the documented circumstances (its parent has vanished or none has been created, both sides are diluted away, or the heavy neutrino\'s reactions are out of '
     'their temperature range); otherwise its contribution is the phase-space integral times the coupling, divided by the Hubble rate and by the states of the evolved species, counted once per identical copy. '
     'It is evaluated on the current distributions, masses and temperatures of the participating species, and products of an instantly decaying parent appear as often as the branching ratio and their multiplicity in the decay say.',
     ['inputs', 'configurations', 'histories'], 'every reaction type, kind of integral, combination of vanished, diluted, instantly decaying, Majorana, charged and repeated species, and both step modes',
     'The tests evaluate none of these circumstances: they need the compiled kernels and long runs.',
     ['common/kinematics.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/__init__.py'],
     [('Neglect3pInteraction, Neglect4pInteraction, CollisionMultiplier3p/4p, scaling, return_function', 'common/kinematics.py'), ('integrate', 'interactions/*_particle/__init__.py')],
     ['ThreeParticleIntegral.integrate', 'FourParticleIntegral.integrate'], 'Integrals',
     'the circumstances are enumerated by TLC and replayed into the real integrals with a recording stand-in for the compiled kernel')

prop('P15', 'Collision integrals advance distributions consistently',
     'Each step the distribution of a species out of equilibrium changes by the step size times the implicit multistep combination of this step\'s integrals and the recorded ones, never becomes negative, '
     'and both are recorded; undefined values count as zero, and a vanished species stays vanished. '
     'Instantly decaying species keep their balance: what is created in a step decays in the same step in the proportions of the branching ratios, and thermalisation keeps the number.',
     ['histories', 'inputs'], 'every sequence of steps with any combination of integrals, dilution and undefined values',
     'The order of the rule and the latch depend on the history; tests take single steps at most.',
     ['particles/__init__.py', 'common/kinematics.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py'],
     [('calculate_collision_integral, update_distribution', 'particles/__init__.py'), ('has_decayed, Icoll_fast_decay', 'common/kinematics.py'), ('initialize', 'interactions/*_particle/__init__.py')],
     ['Particle.collision_integral, Particle._distribution, Particle.data'], 'Kinetics, Multistep', 'all two-step histories and simulated eight-step ones',
     [('decayed', 'the species has vanished', 'particles/__init__.py')])

exec(open(os.path.join(VERIF, 'tools', 'props_more.py'), encoding='utf-8').read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k not in ('spec', 'note')}, ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'],
                           technique='TLA+ specification (%s) checked with TLC; conformance of the real code by replay of its behaviours%s' % (
                               p['spec'], ' and trace validation' if 'Trace' in p['spec'] else ''),
                           level='model_checking',
                           level_note='Exhaustive on the bounded model; on the code: ' + p['note'] + '.'))
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id']
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=NA,
             notes='No hooks in /repo; C++ extensions are compiled from /repo against the minimal binding headers in shim/. See DESIGN.md.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
