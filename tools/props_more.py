NA = []

prop('P16', 'Flavour oscillations mix the integrals of one step and conserve their sum',
     'In every step in which at least one oscillating neutrino is below its decoupling temperature, each of them receives the mixture of the collision integrals of all of them, all of this same step, '
     'with the transition probabilities of the current plasma; otherwise, and for all other species, nothing changes. '
     'The transition probabilities are symmetric, between 0 and 1 and sum to one, so that the total collision integral of the neutrinos is conserved, '
     'and they follow the matter-modified mixing angles with every angle modified separately.',
     ['histories', 'inputs'], 'every schedule of decouplings and integrals, every momentum and temperature, every choice of angles',
     'Whether stale or already mixed integrals are used depends on the order of steps; the probabilities are continuous functions.',
     ['evolution.py', 'library/SM.py'],
     [('oscillation_parameters, calculate_collisions', 'evolution.py'), ('oscillations_map', 'library/SM.py')],
     ['Particle.collision_integral after Universe.calculate_collisions', 'oscillation matrix'], 'Oscillation', 'all histories of decouplings and integrals of the bounds; probabilities against the formula of the specification',
     [('on', 'oscillations initialised', 'evolution.py')])

prop('P17', 'Angular kernels of four-particle collisions equal their defining integrals',
     'The functions D1, D2 and D3, their limits at zero momenta and the combined kernel of an amplitude equal the definite integrals that define them, for every order of momenta. '
     'They are symmetric as those are, vanish when one momentum exceeds the sum of the others, and are continuous at every zero and degenerate momentum.',
     ['inputs'], 'all momenta, including zero, equal and degenerate ones, and all orders of the legs and sides',
     'The implementation branches on the order and on exact zeros of momenta; a test samples few branches.',
     ['interactions/four_particle/cpp/integral.cpp'], [('D1, D2, D3, Db1, Db2, D', 'interactions/four_particle/cpp/integral.cpp')],
     ['exported functions D1, D2, D3, D, Db'], 'DKernels', 'exact rational kernels on a lattice of momenta against the compiled functions')

prop('P18', 'Compiled collision kernels are phase-space integrals of the balance functional',
     'For every reaction of three or four particles the compiled kernel equals the phase-space integral, over exactly the momenta the kinematics allows, of the amplitude and the balance of gain and loss '
     'with Pauli blocking or Bose enhancement, at any momentum of the evolved particle including zero, whatever other momenta are asked for in the same call and however threads share them. The balance vanishes in chemical and kinetic equilibrium; the requested kind selects its total, '
     'its part independent of the evolved distribution, or its coefficient, which add up to the total.',
     ['inputs', 'configurations', 'schedules'], 'all kinds, sides, statistics, masses, momenta, equilibrium states of the participants; lists of momenta and schedules of the threads',
     'The integrals are continuous functions of many parameters with thresholds; the compiled code is not covered by unit tests at all.',
     ['interactions/four_particle/cpp/integral.cpp', 'interactions/three_particle/cpp/integral.cpp', 'interactions/cpp/*.h'],
     [('integration, integrand, F_A, F_B, in_bounds', 'interactions/*_particle/cpp/integral.cpp')],
     ['integration(...) of the compiled modules'], 'Collisions, Threads', 'terms of the specification evaluated by independent quadrature against the compiled kernels; lists of momenta over numbers of threads replayed on the kernels built with threads')

prop('P19', 'The particle library offers exactly the interactions of its model',
     'For any set of species and mixings, each builder of the library offers exactly the processes of the model, each once, with the amplitude that the couplings, masses and mixing angles determine, '
     'with the kind that the treatment of the species asks for, and as a set of collision integrals for every participant. '
     'Every process conserves charge, baryon number and lepton flavour up to neutrino mixing, and every amplitude with a heavy neutrino is proportional to its mixing squared. '
     'The species templates have the charges, statistics, masses and degrees of freedom of the model.',
     ['inputs', 'configurations'], 'all sets of leptons, neutrinos, quarks and mesons, Majorana or Dirac, all mixing angles and kinds',
     'The tests cover a few amplitudes; a wrong flavour, an omitted or repeated channel needs a particular set of species.',
     ['library/SM.py', 'library/NuMSM.py'], [('interactions', 'library/SM.py'), ('interactions', 'library/NuMSM.py'), ('particles', 'library/SM.py')],
     ['integrals of the interactions returned by the builders'], 'Library', 'all species sets in the bounds; integrals and amplitudes as polynomials in the momenta')

prop('P20', 'Everything unstable that is produced decays, each channel once and in proportion',
     'Whatever muons and unstable mesons the primary interactions produce and in whatever order they are named, every one of their decays, and those of the products in turn, is listed exactly once, '
     'with gain and loss treated as asked for, and nothing else. '
     'Every decay is kinematically allowed and conserves charge and lepton number, its amplitude reproduces the lifetime times the branching ratio of the parent, '
     'and each product is created as often as the branching ratio and its multiplicity say, shared by particle and antiparticle.',
     ['inputs', 'configurations'], 'all sets and orders of primary unstable species, all kinds, muon decays given or not',
     'The closure depends on order and overlap of cascades; tests build one muon cascade.',
     ['library/SM.py', 'library/NuMSM.py', 'common/kinematics.py'], [('meson_interactions', 'library/SM.py'), ('interactions_decay_products', 'library/NuMSM.py'), ('scaling', 'common/kinematics.py')],
     ['integrals returned for the decay products, and their values'], 'Cascade, Library', 'all primary sets of the bounds in several orders; numbers and widths of every channel',
     [('done', 'species whose decays are listed', 'library/SM.py'), ('pending', 'species still to be expanded', 'library/SM.py')])

prop('P21', 'Decays create what they destroy, in number and in energy',
     'For every decay of a heavy neutrino, a muon or a meson that is energetically open, and for any momentum distribution of the parent, the collision integrals of all participants describe the same events: '
     'as many of each product appear as parents disappear times its multiplicity, and the energy of the products is the energy of the parents. '
     'Exactly the open channels decay, and every product of an open channel is created.',
     ['inputs', 'configurations'], 'all heavy neutrino masses, mixings, Dirac or Majorana, all unstable species of the library, spectra of the parent from at rest to relativistic',
     'It relates several integrals of different particles over whole spectra; tests look at one integral at one momentum, if at all.',
     ['library/NuMSM.py', 'library/SM.py', 'interactions/four_particle/__init__.py', 'interactions/three_particle/__init__.py', 'interactions/four_particle/cpp/integral.cpp',
      'interactions/three_particle/cpp/integral.cpp', 'common/kinematics.py'],
     [('CollisionMultiplier3p, CollisionMultiplier4p', 'common/kinematics.py'), ('integration', 'interactions/*_particle/cpp/integral.cpp')],
     ['collision integrals of all participants in the vacuum kinds, integrated over the spectra'], 'Balance, Cascade', 'open channels from the specification; totals of the real integrals with the real compiled kernels')

prop('P22', 'What a run writes down is what it computed',
     'Every run, interrupted or not, repeated or not, records its initial state and each completed step once and in order, and the rates of nucleosynthesis for exactly the steps at or below its temperature. '
     'The exported tables are a prefix of that record in the declared units, brought up to date every given number of steps and completely at the end, where the nucleosynthesis code is given its complete input; '
     'the log, limited in its rate, shows the same on screen and in its file.',
     ['histories', 'crash_points', 'configurations'], 'every number of steps and runs, export frequency, point of interruption, with or without folder and nucleosynthesis',
     'Tests write no output; what is on disk depends on when the run stops relative to the export frequency.',
     ['evolution.py', 'kawano.py', 'common/utils.py'],
     [('evolve, export, save, save_params, log', 'evolution.py'), ('run, baryonic_rates', 'kawano.py'), ('Throttler, Logger', 'common/utils.py')],
     ['files in the output folder, Universe.data, Universe.kawano_data, standard output'], 'Output, Throttle',
     'all behaviours of the bounds on the model; a large sample of them replayed into real universes (kawano executable replaced by a recording stub), all throttle histories',
     [('data, kawano_data', 'record of the run', 'evolution.py'), ('step', 'step counter', 'evolution.py')])

prop('P23', 'The hadronisation of quarks conserves entropy and continues the run',
     'At the transition the quarks and gluons, and no others, are replaced by the given hadrons and their interactions by the given ones, heaviest species first. '
     'The scale factor and the time stay, the temperature changes so that the comoving entropy of the relativistic plasma is conserved, and every species and total follows. '
     'The record of the run continues from the state before the transition.',
     ['inputs', 'histories'], 'all sets of quarks, hadrons and other species, temperatures relative to their masses, sets of interactions',
     'The transition has no test; which species count depends on the temperature, their masses and their decoupling.',
     ['evolution.py', 'common/utils.py'], [('QCD_transition', 'evolution.py'), ('particle_filter, particle_orderer', 'common/utils.py')],
     ['Universe after QCD_transition and in the following run'], 'Transition', 'exact entropy ratios over the sets of the bounds, replayed into real universes',
     [('particles, interactions', 'content of the universe', 'evolution.py')])

prop('P26', 'Selections of integrals and species keep exactly what was asked for',
     'Filtering interactions removes exactly the integrals whose evolved particle, or any particle, carries one of the given names, or whose kind is one of the given ones, and leaves the others in order. '
     'Filtering species removes exactly those with a given name and leaves the list given alone, ordering puts the heaviest first, and every reaction is of the one kind that its numbers of incoming and outgoing particles say.',
     ['inputs'], 'all reactions of three and four particles over a set of species, all sets of names and kinds',
     'There are no tests; a wrong selection silently drops or keeps physics.',
     ['common/utils.py'], [('interaction_filter, particle_filter, particle_orderer, reaction_type', 'common/utils.py')],
     ['the return values and the integrals of the interactions'], 'Filters, Order', 'all reactions and arguments of the bounds against the real functions')

prop('P24', 'The semi-analytic helium estimate uses the right moments of the run',
     'In any run, neutron freeze-out is the first step at which, once rates are recorded, the conversion of neutrons and that of protons differ by more than a factor of ten in either direction, '
     'and the deuterium bottleneck the first step at which the temperature is at or below that of deuterium. '
     'As soon as both are known, in whatever order they come, the helium fraction is estimated once, from the equilibrium ratio at freeze-out and the decays of free neutrons until deuterium, and nothing is estimated before or again.',
     ['histories', 'inputs'], 'all histories of temperatures and rates, with and without recorded rates, in any order of the two moments',
     'The monitor keeps state between steps; a test samples one history, here the order of events matters.',
     ['semianalytic.py'], [('step_monitor', 'semianalytic.py')], ['what the monitor keeps and prints in scripted and in real runs'], 'Estimates',
     'all histories of five (six) steps over nine rows of rates and four temperature bands; the estimate as a term',
     [('neutron_decoupling_parameters, deuterium_energy_parameters, helium_fraction', 'events seen', 'semianalytic.py')])

prop('P25', 'Heavy neutrinos start in time and fit, with their products, on their grids',
     'The decoupling and starting temperatures of a heavy neutrino follow from equating its weak rate with the expansion, with the relativistic species of the plasma for its mass, and the start is never below decoupling. '
     'The grid suggested for it reaches to where it is unoccupied, and the grids for neutrinos, mesons and leptons contain every momentum that its decays can reach until the declared scale factor '
     'and resolve the narrowest line its open decays put on them.',
     ['inputs', 'configurations'], 'all masses around and between the thresholds of every decay, all mixings, all settings of resolution and range',
     'The choice is piecewise in the mass with many thresholds; no test covers it, and a grid too short silently loses energy.',
     ['common/kinematics.py', 'common/__init__.py'],
     [('decoupling_temperature, grid_params_*, grid_resolution_*', 'common/kinematics.py'), ('HeuristicGrid', 'common/__init__.py')],
     ['temperatures and grids returned'], 'Sterile', 'all thresholds and a mass every 5 MeV (thorough) × mixings × settings; bounds and temperatures as terms')

prop('P27', 'Units and constants are right; results scale with the unit of energy',
     'Every unit is the power of the electronvolt that its dimensions and the values of hbar, c, e and k_B give, and every constant has its physical value. '
     'Whatever size the electronvolt is given, thermodynamics, grids, library amplitudes, rates and complete runs give the same results, times the power of it that their dimension says.',
     ['inputs', 'configurations'], 'all sizes of the unit; all species, amplitudes, suggested grids, runs in both kinds of steps',
     'A literal with a forgotten unit is right in the one unit every test uses.',
     ['common/__init__.py', 'particles', 'interactions', 'library', 'common/kinematics.py', 'evolution.py', 'kawano.py'],
     [('UNITS, CONST', 'common/__init__.py')], ['units, constants; thermodynamics, amplitudes, grids, runs in rescaled units'], 'Units',
     'units from their dimensions as terms; powers of every observable for all sequences of changes of unit; whole code run in each')

prop('P28', 'Neutron-proton conversion rates are weak rates in detailed balance',
     'For any distributions of neutrinos and electrons and any scale factor, each of the six rates handed to nucleosynthesis is the phase-space integral of its own reaction, '
     'over exactly the momenta the energies allow, with the occupation of what comes in and the blocking of what goes out. '
     'The reverse of a reaction has the exchanged occupations, so that in equilibrium with one temperature the rates balance in detail, and in vacuum the rate is that of the free neutron.',
     ['inputs'], 'all lepton distributions, masses and scale factors, real and given ones',
     'Six similar integrals with different signs and limits, which equilibrium at one temperature does not tell apart; no test computes them.',
     ['kawano.py'], [('baryonic_rates', 'kawano.py')], ['the six rates'], 'Weak', 'channels by sign; detailed balance exactly on a lattice of energies; rates as integral terms')

prop('P29', 'A run is the same in whatever coordinates it is computed',
     'Runs in steps of the logarithm of the scale factor and in steps of x that follow each other are the same history: every physical quantity, distribution, rate and record agrees, '
     'and rates per step differ by the factor x; with independent steps they agree to first order of the step. '
     'The normalisation of the scale factor is arbitrary: with momenta scaled along, results change by their weight in it only.',
     ['configurations', 'histories'], 'both kinds of steps, all normalisations and sequences of steps, runs with decoupling, scattering, oscillations and decays',
     'The tests run logarithmic steps with m = 1 MeV only, where missing or repeated factors of x or m do not show.',
     ['evolution.py', 'common/__init__.py', 'particles', 'interactions', 'kawano.py'],
     [('integrand, make_step, save', 'evolution.py'), ('Params', 'common/__init__.py'), ('integrate', 'interactions/*_particle/__init__.py'), ('numerator', 'particles/*.py')],
     ['every recorded quantity of real runs'], 'Coordinates', 'all sequences of three steps in all coordinates at once on an exact model; real runs in every coordinate',
     [('x, aT', 'scale factor and comoving temperature', 'common/__init__.py'), ('fraction', 'rate of the temperature', 'evolution.py')])

prop('P30', 'Energy is conserved in the expansion, whatever is exchanged',
     'The energy of everything in a comoving volume changes by the work of the expansion only, d(rho a^3) = -P d(a^3), for any set of species in and out of equilibrium, massive or massless, '
     'and whatever they exchange in collisions and decays; what is lacking is of the order of the step and vanishes with it. '
     'Species without collisions leave the temperature alone, and the entropy of a plasma that is all in equilibrium is conserved.',
     ['configurations', 'histories', 'inputs'], 'all sets of species in and out of equilibrium, both kinds of steps, both temperature schemes, given and real interactions',
     'Every term of the temperature equation can be wrong by a factor in a set of species the tests do not combine; tests of whole runs have tolerances of percents.',
     ['evolution.py', 'particles', 'interactions'],
     [('calculate_temperature_terms, integrand, make_step', 'evolution.py'), ('numerator, denominator, energy_density, pressure, entropy', 'particles/*.py')],
     ['energy density, pressure and entropy of every species in every step'], 'Conservation', 'identity of the temperature equation exactly for all worlds on a lattice; real runs of the worlds and of the library',
     [('aT', 'comoving temperature', 'common/__init__.py'), ('distribution', 'occupations', 'particles/__init__.py')])

prop('P31', 'Scatterings conserve numbers and energy and never lower the entropy',
     'Whatever the momentum distributions of the participants, the collision integrals of all of them describe the same events: in every two-to-two process of the library the numbers of the participants '
     'change in the proportion of the process, elastic scattering changes none, and the energy that some receive is the energy that others lose. '
     'The entropy of all participants together does not decrease, and every participant of every process has its collision integral.',
     ['inputs', 'configurations'], 'all sets of neutrinos and charged leptons, heavy neutrinos, relativistic and massive, thermal and distorted distributions',
     'It relates integrals of different particles over whole spectra, away from equilibrium; the tests look at single integrals, mostly in equilibrium where everything vanishes.',
     ['interactions/__init__.py', 'interactions/four_particle/__init__.py', 'interactions/four_particle/cpp/integral.cpp', 'library/SM.py', 'library/NuMSM.py'],
     [('CrossGeneratingInteraction', 'interactions/__init__.py'), ('FourParticleIntegral.integrate', 'interactions/four_particle/__init__.py'), ('CollisionMultiplier4p', 'common/kinematics.py')],
     ['BoltzmannIntegral.integrate of every participant over the whole grid'], 'Scattering', 'balance of numbers, energy and entropy exactly for all occupations on a lattice; the integrals of the library in the worlds of the specification')
