From 94505b8f434e9258079c9890446c82ae7a65ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:18 +0000
Subject: [PATCH 01/38] fix: drop imports of integrators that do not exist, so
 that the particles package can be imported

---
 particles/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 75db7ed..28a10a8 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -12,8 +12,8 @@ import os
 import environment
 from common import GRID, UNITS, kinematics, statistics as STATISTICS
 from common.integrators import (
-    adams_bashforth_correction, adams_moulton_solver, implicit_euler, backward_differentiation, heun_method,
-    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER, MAX_BACKWARD_DIFF_ORDER
+    adams_bashforth_correction, adams_moulton_solver, implicit_euler,
+    MAX_ADAMS_BASHFORTH_ORDER, MAX_ADAMS_MOULTON_ORDER
 )
 from common.utils import Dynamic2DArray, DynamicRecArray
 from scipy.integrate import simps
-- 
2.43.0


From c0d8b22c525e7aba18d841c9c802e105fd4109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 02/38] fix: use the Adams-Moulton increment, not the new
 distribution, as the collision integral

---
 particles/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 28a10a8..4ae31a9 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -320,8 +320,9 @@ class DistributionParticle(AbstractParticle):
             # Adams-Moulton method
             fs = list(self.data['collision_integral'][-MAX_ADAMS_MOULTON_ORDER:])
 
-            I_coll = adams_moulton_solver(y=self.distribution(ps), fs=fs,
-                                            A=AB, B=B, h=self.params.h)
+            # The full integral `AB` already contains the contribution of the current distribution,
+            # so the solver is applied to the increment of the distribution function
+            I_coll = adams_moulton_solver(y=0., fs=fs, A=AB, B=B, h=self.params.h) / self.params.h
 
             # # Backward differentiation method
             # ys = list(self.data['distribution'][-MAX_BACKWARD_DIFF_ORDER:])
-- 
2.43.0


From e269193380622b8b0460609c82213557aad968c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 03/38] fix: let the first order Adams-Moulton step discard the
 history

---
 common/integrators/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index 1860899..b450066 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -104,7 +104,7 @@ def adams_moulton_solver(y, fs, A, B, h, order=None):
         order = min(MAX_ADAMS_MOULTON_ORDER, len(fs) + 1)
 
     bs, divider = ADAMS_MOULTON_COEFFICIENTS[order]
-    fs = fs[-(order-1):] + [A]
+    fs = (fs + [A])[-order:]
     assert len(fs) == order, (len(fs), order)
 
     return (
-- 
2.43.0


From 6026f29c9e2231fb0520d30a9d32bb3f7bd901ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 04/38] fix: boolean settings can be switched off (and on)
 through the environment

---
 environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/environment.py b/environment.py
index 730d871..d279250 100755
--- a/environment.py
+++ b/environment.py
@@ -61,7 +61,10 @@ def get(name):
     default = defaults.get(name)
     val = os.environ.get(name, default)
 
-    if default:
+    if isinstance(default, bool):
+        if isinstance(val, str):
+            val = val.strip().lower() not in ('', '0', 'f', 'false', 'n', 'no', 'off', 'none')
+    elif default:
         typ = type(default)
         val = typ(val)
 
-- 
2.43.0


From 7a3a11b090932c6ec77246bcc0d1c92eb1416b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 05/38] fix: index the records of DynamicRecArray from the end
 and within its length

---
 common/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 2d602ab..07e032b 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -247,10 +247,7 @@ class DynamicRecArray(object):
     def __getitem__(self, index):
         if index in self.columns:
             return self._data[index][:self.length]
-        index = int(index)
-        if index < 0:
-            index = self.length+1-index
-        return self._data[:][index]
+        return self.data[int(index)]
 
     def append(self, rec):
         if isinstance(rec, dict):
-- 
2.43.0


From 04b521e89de8e2a8cbf9f5a104621ac4d8cf5d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 06/38] fix: give every Universe its own evolution history

---
 evolution.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/evolution.py b/evolution.py
index c0506af..7df2126 100755
--- a/evolution.py
+++ b/evolution.py
@@ -33,17 +33,7 @@ class Universe(object):
 
     step_monitor = None
 
-    data = utils.DynamicRecArray([
-        ['aT', 'MeV', UNITS.MeV],
-        ['T', 'MeV', UNITS.MeV],
-        ['a', None, 1],
-        ['x', 'MeV', UNITS.MeV],
-        ['t', 's', UNITS.s],
-        ['rho', 'MeV^4', UNITS.MeV**4],
-        ['N_eff', None, 1],
-        ['fraction', None, 1],
-        ['S', 'MeV^3', UNITS.MeV**3]
-    ])
+    data = None
 
     def __init__(self, folder=None, params=None, max_log_rate=2):
         """
@@ -53,6 +43,18 @@ class Universe(object):
         self.particles = []
         self.interactions = []
 
+        self.data = utils.DynamicRecArray([
+            ['aT', 'MeV', UNITS.MeV],
+            ['T', 'MeV', UNITS.MeV],
+            ['a', None, 1],
+            ['x', 'MeV', UNITS.MeV],
+            ['t', 's', UNITS.s],
+            ['rho', 'MeV^4', UNITS.MeV**4],
+            ['N_eff', None, 1],
+            ['fraction', None, 1],
+            ['S', 'MeV^3', UNITS.MeV**3]
+        ])
+
         self.clock_start = time.time()
         self.log_throttler = utils.Throttler(max_log_rate)
 
-- 
2.43.0


From 05277a37142396323447dfa23b93ffb1cf704568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 07/38] fix: interpolate inside the grid cell that contains the
 point

---
 common/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index cff3255..d3809cf 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -310,12 +310,15 @@ def linear_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # `searchsorted` returns the upper edge of the cell that contains `x`
+        index = max(index - 1, 0)
+
         # Determine the closest grid points
         i_low = index
         x_low = grid[i_low]
@@ -336,12 +339,15 @@ def cubic_interpolation(function, grid):
     def interpolation(x):
         index = numpy.searchsorted(grid, x)
 
-        if index >= len(grid) - 1:
+        if index >= len(grid):
             return function[len(grid) - 1]
 
         if x == grid[index]:
             return function[index]
 
+        # `searchsorted` returns the upper edge of the cell that contains `x`
+        index = max(index - 1, 0)
+
         if index == 0 or index == len(grid) - 2:
             # Determine the closest grid points
             i_low = index
-- 
2.43.0


From 6dcd9f44c257e8ce33bc3eaee99c7264fddec154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 08/38] fix: restore numpy print options when the body of
 printoptions raises

---
 common/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/utils.py b/common/utils.py
index 07e032b..83fc9a7 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -95,8 +95,10 @@ class benchmark(object):
 def printoptions(*args, **kwargs):
     original = numpy.get_printoptions()
     numpy.set_printoptions(*args, **kwargs)
-    yield
-    numpy.set_printoptions(**original)
+    try:
+        yield
+    finally:
+        numpy.set_printoptions(**original)
 
 
 def getenv(var, default=None):
-- 
2.43.0


From 92ddf41edc4d3bdc183d0d89e5b702ed0e1452a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 09/38] fix: recognise capitalised 'False' in boolean
 environment variables

---
 common/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/utils.py b/common/utils.py
index 83fc9a7..f8e049c 100755
--- a/common/utils.py
+++ b/common/utils.py
@@ -107,7 +107,7 @@ def getenv(var, default=None):
 
 def getboolenv(var, default=None):
     value = getenv(var, default)
-    return (value is not False and value is not None and value not in ['false', 'f', '0', '-1'])
+    return (value is not False and value is not None and str(value).lower() not in ['false', 'f', '0', '-1'])
 
 
 def ensure_path(*chunks):
-- 
2.43.0


From a1985e2d0a3f0cdeac977c2800166026174b4b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 10/38] fix: an Interaction keeps the integrals it is created
 with

---
 interactions/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/__init__.py b/interactions/__init__.py
index a8981ae..ad55b0f 100755
--- a/interactions/__init__.py
+++ b/interactions/__init__.py
@@ -35,7 +35,7 @@ class Interaction:
 
     def __init__(self, name=None, integrals=None):
         self.name = name
-        self.integrals = IntegralDeduplicator(self.integrals).integrals
+        self.integrals = IntegralDeduplicator(integrals or self.integrals or []).integrals
 
     def __str__(self):
         """ String-like representation of the interaction and all its integral """
-- 
2.43.0


From 497b247093befdfe01f63c2b878a492d2c69b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 11/38] fix: do not write the Kawano log when the Universe has
 no output folder

---
 evolution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 7df2126..25c26cd 100755
--- a/evolution.py
+++ b/evolution.py
@@ -349,7 +349,8 @@ class Universe(object):
 
             if self.log_throttler.output:
                 print("KAWANO", self.kawano_data.row_repr(-1, names=True))
-            self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
+            if self.kawano_log:
+                self.kawano_log.write(self.kawano_data.row_repr(-1) + "\n")
 
     def init_log(self, folder=''):
         self.logfile = utils.ensure_path(os.path.join(self.folder, 'log.txt'))
-- 
2.43.0


From 5d91939da1a6e38a8a35e1686f8fa911d3022bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 12/38] fix: use the quark plasma degrees of freedom for masses
 above the QCD scale

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index eb87f66..3134ac9 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    if muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass < CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From 320ffbb6f91d32f86e5a8b772c82c14478b90a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 13/38] fix: pass an integer number of samples when coarsening
 the four-particle grid

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 3134ac9..874fd5d 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -352,7 +352,7 @@ def interpolation_4p(interaction, ps, slice_1):
     interpolate = False
     grid = interaction.particle.grid
     if grid.MAX_MOMENTUM / (grid.MOMENTUM_SAMPLES - 1) < environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV:
-        steps = np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV))
+        steps = int(np.ceil(slice_1[-1] / (environment.get('FOUR_PARTICLE_GRID_RESOLUTION') * UNITS.MeV)))
         interp_pos = np.searchsorted(ps, np.linspace(ps[0], ps[-1], steps))
         ps = ps[interp_pos]
         interpolate = True
-- 
2.43.0


From ed85dceb20b494664dc034723bacbecd69401ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 14/38] fix: do not evaluate the truth of the rescaled
 four-particle integral array

---
 interactions/four_particle/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 186f4ef..31734da 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -188,7 +188,7 @@ class FourParticleIntegral(BoltzmannIntegral):
         fullstack = numpy.append(fullstack, slice_2)
 
         scaled_output = kinematics.scaling(self, fullstack, constant)
-        if not scaled_output:
+        if scaled_output is False:
             return kinematics.return_function(self, fullstack)
         else:
             fullstack = scaled_output
-- 
2.43.0


From abdb7d2b884ea7e726e3525255b732d84db65de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 15/38] fix: classify the integral, not its tuple of reactants,
 in Icoll_fast_decay

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index 874fd5d..b32dc56 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -411,7 +411,7 @@ def Icoll_fast_decay(particle, ps):
 
     for index, Ff in enumerate(Ffs_temp):
         integral = particle.collision_integrals[index]
-        if utils.reaction_type(integral.reaction).DECAY: # line not necessary
+        if utils.reaction_type(integral).DECAY: # line not necessary
             sym = ''.join([item.specie.symbol for item in integral.reaction[1:]])
             for key in integral.reaction[0].specie.BR:
                 if Counter(sym) == Counter(key):
-- 
2.43.0


From 0f051505af9059eea24afbb311b252ac1d7bc753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 16/38] fix: mix charged vector mesons through the flavour of
 their lepton

---
 library/NuMSM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/NuMSM.py b/library/NuMSM.py
index d124624..9fde38b 100755
--- a/library/NuMSM.py
+++ b/library/NuMSM.py
@@ -322,7 +322,7 @@ class interactions(object):
                                                                kind=kind)
 
                         if particle.type == "vector":
-                            inters += cls.charged_vector_meson(theta=thetas[neutrino.flavour],
+                            inters += cls.charged_vector_meson(theta=thetas[lepton.flavour],
                                                                sterile=sterile,
                                                                lepton=lepton,
                                                                meson=particle,
-- 
2.43.0


From f169a3e452c78913b7b9f7b6de5bb6d2ccfd2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 17/38] fix: oscillation pattern without matter parameters is
 the vacuum one

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 8c60e28..8be0c29 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -346,7 +346,7 @@ class particles(object):
         }
 
         @staticmethod
-        def oscillations_map(MSW_12=None, MSW_13=None, matter_effects=True):
+        def oscillations_map(MSW_12=0., MSW_13=0., matter_effects=True):
 
             # angles=(0.5905, 0., 0.152346) # theta_12, theta_23, theta_13
             theta_12 = 0.57636
-- 
2.43.0


From a8f83b0c82414d240b0c2c9cf982710a791d8202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 18/38] fix: read the six reaction rates of the last Kawano
 record

---
 semianalytic.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/semianalytic.py b/semianalytic.py
index 640e4c1..6079888 100644
--- a/semianalytic.py
+++ b/semianalytic.py
@@ -8,10 +8,8 @@ def step_monitor(universe):
     from copy import deepcopy
 
     if not hasattr(universe, 'neutron_decoupling_parameters') and len(universe.kawano_data):
-        print([field[0] for field in universe.kawano_data.data.dtype[-6:]])
-        rates = universe.kawano_data.data[-1][
-            [field[0] for field in universe.kawano_data.data.dtype[-6:]]
-        ]
+        row = universe.kawano_data[-1]
+        rates = [row[column] for column in universe.kawano_data.columns[-6:]]
         neutron_equilibration = (sum(rates[0::2]) / sum(rates[1::2]))
         if neutron_equilibration > 10 or neutron_equilibration < 0.1:
             universe.neutron_decoupling_parameters = deepcopy(universe.params)
-- 
2.43.0


From c032fb82eb86cec2d27d96014900093200c724f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:25 +0000
Subject: [PATCH 19/38] fix: thermalising the created particles keeps their
 number

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index b32dc56..d51a7a4 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -400,7 +400,7 @@ def Icoll_fast_decay(particle, ps):
 
     if hasattr(particle, 'thermalization'):
         distr_ini = distr_backg + sum(F1s) * particle.params.h
-        distr_bef = distr_backg + simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
+        distr_bef = distr_backg + 4 * np.pi * simps(sum(F1s) * particle.grid.TEMPLATE**2, particle.grid.TEMPLATE) * particle.params.h \
                     / (2 * np.pi * particle.conformal_mass * particle.aT)**(3/2) \
                     * np.exp(-particle.grid.TEMPLATE**2 / (2 * particle.conformal_mass * particle.aT))
 
-- 
2.43.0


From bca1d16cca1cb9ec61b0554c69d54304d6b3cf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:57 +0000
Subject: [PATCH 20/38] fix: the mass term of a massless particle at rest
 vanishes

---
 interactions/four_particle/cpp/Ds.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interactions/four_particle/cpp/Ds.cpp b/interactions/four_particle/cpp/Ds.cpp
index 8b521e1..c782beb 100644
--- a/interactions/four_particle/cpp/Ds.cpp
+++ b/interactions/four_particle/cpp/Ds.cpp
@@ -277,7 +277,8 @@ dbl Db(const std::array<dbl, 4> &p, const std::array<dbl, 4> &E, const std::arra
     if (K2 != 0.) {
         dbl subresult = 0.;
 
-        if (i * j == 0.) {
+        // m_0 / E_0 is 1 at rest, unless the particle is massless
+        if (i * j == 0. && m[0] != 0.) {
             subresult += m[i+j] * (E[k] * E[l] * Db1(p[1], p[2], p[3]) + sksl * Db2(p[i+j], p[k], p[l]));
         }
         else if (k * l == 0.) {
-- 
2.43.0


From 4101cd682be0548a9d2f76509358953876c47d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:46 +0000
Subject: [PATCH 21/38] fix: the charge of the proton is +1

---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 8be0c29..676a670 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -82,7 +82,7 @@ class particles(object):
             'mass': 938.272046 * UNITS.MeV,
             'dof': 4,
             'majorana': False,
-            'Q': -1
+            'Q': 1
         }
         neutral_pion = {
             'name': 'Neutral pion',
-- 
2.43.0


From fdb3901f9a0baefdc2991ef88fb0d9c7982dd07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:57 +0000
Subject: [PATCH 22/38] fix: identical products of an instant decay were
 counted once

The creation integral of a product is normalised to the branching ratio times
the number of decays, which removed the multiplicity the integral constant
contains: a kaon decaying into two neutral pions created one.
---
 common/kinematics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index d51a7a4..bebf60b 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -369,7 +369,9 @@ def scaling(interaction, fullstack, constant):
         created = simps(fullstack * constant * dof * grid.TEMPLATE**2, grid.TEMPLATE)
         if created == 0.:
             return False
-        scaling = BR * interaction.reaction[-1].specie.num_creation / created
+        # `constant` counts identical products; so must the number of created particles
+        multiplier = CollisionMultiplier3p(interaction) if len(interaction.reaction) == 3 else CollisionMultiplier4p(interaction)
+        scaling = BR * multiplier * interaction.reaction[-1].specie.num_creation / created
         fullstack *= scaling
     return fullstack
 
-- 
2.43.0


From 6a86d48ad4db1f7018462e005f7b6eb1c2fd7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:13 +0000
Subject: [PATCH 23/38] fix: charged kaon and long kaon decays conserve charge

The second particle stands on the left of the arrow, so that it is produced as
its antiparticle: K- pi+ -> pi- pi- and K0L pi+ -> l- nubar described decays
K- -> pi- pi- pi- and K0L -> pi- l- nubar.
---
 library/SM.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/SM.py b/library/SM.py
index 676a670..7000bd7 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -777,7 +777,7 @@ class interactions(object):
                                                     ME=matrix_elements['KaonMinPi0ElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[charged_kaon, charged_pion, charged_pion, charged_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonMinPiPlusTwoPiMin'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[charged_kaon, muon, neutrino_mu],
@@ -802,11 +802,11 @@ class interactions(object):
                                                 kind=kind)
 
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, electron, neutrino_e],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusElecNue'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, charged_pion, muon, neutrino_mu],
-                                                    antiparts=[False, True, False, True],
+                                                    antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonLPiPlusMuonNumu'],
                                                     kind=kind)
             inters += cls.four_particle_meson_decay(parts=[kaon_long, neutral_pion, neutral_pion, neutral_pion],
-- 
2.43.0


From 2f2e612e4deb522e1b3595aa84b688b75c328364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:26 +0000
Subject: [PATCH 24/38] fix: decays of charged kaons and rho mesons create
 their charged products

A charge eigenstate and its antiparticle share one distribution: with one of
the conjugate decays only, electrons, muons and charged pions were never
created and half of the neutral pions were missing. List both, as the decay
of the charged pion does.
---
 library/SM.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/library/SM.py b/library/SM.py
index 7000bd7..c8b8193 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -776,6 +776,10 @@ class interactions(object):
                                                     antiparts=[False, False, False, True],
                                                     ME=matrix_elements['KaonMinPi0ElecNue'],
                                                     kind=kind)
+            inters += cls.four_particle_meson_decay(parts=[charged_kaon, neutral_pion, electron, neutrino_e],
+                                                    antiparts=[True, False, True, False],
+                                                    ME=matrix_elements['KaonMinPi0ElecNue'],
+                                                    kind=kind)
             inters += cls.four_particle_meson_decay(parts=[charged_kaon, charged_pion, charged_pion, charged_pion],
                                                     antiparts=[False, False, False, False],
                                                     ME=matrix_elements['KaonMinPiPlusTwoPiMin'],
@@ -784,10 +788,18 @@ class interactions(object):
                                                     antiparts=[False, False, True],
                                                     ME=matrix_elements['KaonMinMuonNumu'],
                                                     kind=kind)
+            inters += cls.three_particle_meson_decay(parts=[charged_kaon, muon, neutrino_mu],
+                                                    antiparts=[True, True, False],
+                                                    ME=matrix_elements['KaonMinMuonNumu'],
+                                                    kind=kind)
             inters += cls.three_particle_meson_decay(parts=[charged_kaon, charged_pion, neutral_pion],
                                                     antiparts=[False, False, False],
                                                     ME=matrix_elements['KaonMinPiMinPi0'],
                                                     kind=kind)
+            inters += cls.three_particle_meson_decay(parts=[charged_kaon, charged_pion, neutral_pion],
+                                                    antiparts=[True, True, False],
+                                                    ME=matrix_elements['KaonMinPiMinPi0'],
+                                                    kind=kind)
 
         def kaon_long_decay(inters=None):
             if not already_there(inters, 'Charged pion'):
@@ -878,6 +890,10 @@ class interactions(object):
                                                     antiparts=[False, False, False],
                                                     ME=matrix_elements['RhoPlusPiPlusPi0'],
                                                     kind=kind)
+            inters += cls.three_particle_meson_decay(parts=[charged_rho, charged_pion, neutral_pion],
+                                                    antiparts=[True, True, False],
+                                                    ME=matrix_elements['RhoPlusPiPlusPi0'],
+                                                    kind=kind)
 
         def omega_decay(inters=None):
             if not already_there(inters, 'Charged pion'):
-- 
2.43.0


From 74a358530b758f7b72009c306190c7a777690945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:18 +0000
Subject: [PATCH 25/38] fix: list the decays of a meson once

A meson which is both primary and a decay product of another one had its
decays listed twice, depending on the order of the mesons.
---
 library/SM.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/library/SM.py b/library/SM.py
index c8b8193..72f3147 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -967,6 +967,10 @@ class interactions(object):
                                                     kind=kind)
 
         for meson in primary_mesons:
+            # It may be a product of another meson
+            if already_there(inters, meson.name):
+                continue
+
             if meson.name == 'Neutral pion':
                 neutral_pion_decay(inters)
 
-- 
2.43.0


From d75c9ac34f173bac3aee4d118a3f7ddf67b2d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:11 +0000
Subject: [PATCH 26/38] fix: the decay of the omega meson conserves charge

omega pi+ -> pi- pi0 described the decay omega -> pi- pi- pi0.
---
 library/SM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/SM.py b/library/SM.py
index 72f3147..e5aee8d 100755
--- a/library/SM.py
+++ b/library/SM.py
@@ -903,7 +903,7 @@ class interactions(object):
                 neutral_pion_decay(inters)
 
             inters += cls.four_particle_meson_decay(parts=[omega, charged_pion, charged_pion, neutral_pion],
-                                                    antiparts=[False, True, False, False],
+                                                    antiparts=[False, False, False, False],
                                                     ME=matrix_elements['OmegaPiPlusPiMinPi0'],
                                                     kind=kind)
             inters += cls.three_particle_meson_decay(parts=[omega, neutral_pion, photon],
-- 
2.43.0


From 8ca52fe2ff0c0ea27fba5214d36671fdceff6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:51 +0000
Subject: [PATCH 27/38] fix: a constant matrix element is integrated over the
 directions of the momenta

The constant amplitude entered the integrand of four-particle collision
integrals as a bare weight instead of K * D1 (Db1 for a particle at rest),
which distorted the spectra of the products of three-body meson decays:
they carried 3-16% more energy than the meson lost.
---
 interactions/four_particle/cpp/integral.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index 8390b80..f0aa65b 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -297,8 +297,13 @@ dbl integrand_full(
 
     dbl ds = 0.;
 
+    // Constant matrix element
     if (Ms[0].K != 0.) {
-        ds += Ms[0].K;
+        if (p[0] != 0.) {
+            ds += Ms[0].K * D1(p[0], p[1], p[2], p[3]) / (p[0] * E[0]);
+        } else if (E[0] != 0.) {
+            ds += Ms[0].K * Db1(p[1], p[2], p[3]) / E[0];
+        }
     }
 
     else {
-- 
2.43.0


From 041ffac523ee054a6976e0e467388eb4b043f11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:19 +0000
Subject: [PATCH 28/38] fix: decays at rest are integrated up to the largest
 momentum of the product

The range of the first momentum reached beyond it, and its middle fell
exactly on the edge of the allowed region for massless products, where
rounding errors decided between zero and a finite integrand: the
integrator then failed to converge and raised.
---
 interactions/four_particle/cpp/integral.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index f0aa65b..f06dc43 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -628,6 +628,15 @@ std::vector<dbl> integration(
                 pow(energy(p0, reaction[0].specie.m) - reaction[2].specie.m - reaction[3].specie.m, 2)
                 - pow(reaction[1].specie.m, 2)
             );
+            // Decay at rest: beyond the largest momentum of particle 1 the integrand is either zero or,
+            // right at it, decided by rounding errors
+            if (p0 == 0. && reaction[0].specie.m > reaction[1].specie.m + reaction[2].specie.m + reaction[3].specie.m) {
+                dbl max_E = (
+                    pow(reaction[0].specie.m, 2) + pow(reaction[1].specie.m, 2)
+                    - pow(reaction[2].specie.m + reaction[3].specie.m, 2)
+                ) / (2 * reaction[0].specie.m);
+                max_1 = sqrt(pow(max_E, 2) - pow(reaction[1].specie.m, 2));
+            }
         }
         if (reaction_type == Kinematics::SCATTERING) {
             dbl min = reaction[2].specie.m + reaction[3].specie.m - energy(p0, reaction[0].specie.m);
-- 
2.43.0


From 91a382f90db2124b4e36053d2a38a5152df8bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 29/38] fix: heavy neutrinos of exactly the QCD scale decouple
 in a plasma with muons

---
 common/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/kinematics.py b/common/kinematics.py
index bebf60b..4634a8a 100755
--- a/common/kinematics.py
+++ b/common/kinematics.py
@@ -159,7 +159,7 @@ def decoupling_temperature_relativistic(mass, mixing_angle):
 
     if mass > CONST.lambda_QCD:
         g_star = 61.75
-    elif muon_mass < mass < CONST.lambda_QCD:
+    elif muon_mass < mass <= CONST.lambda_QCD:
         g_star = 14.25
     else:
         g_star = 10.75
-- 
2.43.0


From abc6f7c8ad1abed5b7d590f4d2efec8b54e50367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 30/38] fix: adaptive quadrature ignored its relative accuracy,
 as integrals in powers of GeV are below the default absolute one

---
 common/integrators/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/integrators/__init__.py b/common/integrators/__init__.py
index b450066..3a3ba76 100644
--- a/common/integrators/__init__.py
+++ b/common/integrators/__init__.py
@@ -116,7 +116,8 @@ def integrate_1D(integrand, bounds):
     if not environment.get('FIXED_ORDER_1D_QUADRATURE'):
         integral, error = integrate.quad(
             integrand,
-            bounds[0], bounds[1]
+            bounds[0], bounds[1],
+            epsabs=0.
         )
     else:
         integral = gaussian(
-- 
2.43.0


From 22571c939cc2aa65d65266c3cec5972df9ff0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 31/38] fix: QCD transition without hadrons given

---
 evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evolution.py b/evolution.py
index 25c26cd..fedab7b 100755
--- a/evolution.py
+++ b/evolution.py
@@ -387,7 +387,7 @@ class Universe(object):
                             'Strange quark', 'Top quark', 'Bottom quark', 'Gluon'],
                             self.particles
                             )
-        self.add_particles(hadrons)
+        self.add_particles(hadrons or [])
 
         dof_after_qcd = Params.entropic_dof_eq(self)
 
-- 
2.43.0


From 1b96234e9b820374de7796acaa9e034ff61135c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:26 +0000
Subject: [PATCH 32/38] fix: metre and newton in natural units (h c was taken
 for hbar c)

---
 common/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/__init__.py b/common/__init__.py
index d3809cf..d771c92 100755
--- a/common/__init__.py
+++ b/common/__init__.py
@@ -28,8 +28,8 @@ class UNITS(object):
         UNITS.TeV = UNITS.GeV * 1e3
         UNITS.s = 1e22 / 6.582119 / UNITS.MeV
         UNITS.kg = 1e27 / 1.782662 * UNITS.GeV
-        UNITS.m = 1e15 / 1.239842 / UNITS.GeV
-        UNITS.N = 1e-5 / 8.19 * UNITS.GeV**2
+        UNITS.m = 1e16 / 1.973270 / UNITS.GeV
+        UNITS.N = 1e-5 / 8.119400 * UNITS.GeV**2
 
         # Temperature: $10^9 K$
         UNITS.K9 = UNITS.MeV / 11.6045
-- 
2.43.0


From 3fb6c404befb7b73e96bb918477a92edb5657833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:51 +0000
Subject: [PATCH 33/38] fix: energy exchange of decoupled species in linear
 steps was divided by x twice

---
 particles/NonEqParticle.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/particles/NonEqParticle.py b/particles/NonEqParticle.py
index 792f093..a507bb0 100755
--- a/particles/NonEqParticle.py
+++ b/particles/NonEqParticle.py
@@ -14,6 +14,15 @@ from common.integrators import lambda_integrate
 name = 'non-equilibrium'
 aT = 0
 adec = 0
+
+
+def collision_integral_per_x(particle):
+    """ The collision integral per unit of `x` (it is per unit of `log(a)` in logarithmic steps) """
+    if environment.get('LOGARITHMIC_TIMESTEP'):
+        return particle.collision_integral / particle.params.x
+    return particle.collision_integral
+
+
 if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
     def density(particle):
@@ -111,7 +120,7 @@ if not environment.get('SIMPSONS_NONEQ_PARTICLES'):
 
 
     def numerator(particle):
-        integral = linear_interpolation(particle.collision_integral / particle.params.x,
+        integral = linear_interpolation(collision_integral_per_x(particle),
                                         particle.grid.TEMPLATE)
         return lambda_integrate(particle.grid.BOUNDS)(lambda particle: numpy.vectorize(lambda y: (
             -1. * particle.dof / 2. / numpy.pi**2
@@ -201,7 +210,7 @@ else:
         return simps((
             -1. * particle.dof / 2. / numpy.pi**2
             * temp**2 * particle.conformal_energy(temp)
-            * particle.collision_integral / particle.params.x), temp
+            * collision_integral_per_x(particle)), temp
         )
 
 
-- 
2.43.0


From 909d1e55ea5b7e16aadaefe230318d16b6ec9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:51 +0000
Subject: [PATCH 34/38] fix: accuracy goal of four-particle integrals in linear
 steps depended on the unit of energy

---
 interactions/four_particle/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/interactions/four_particle/__init__.py b/interactions/four_particle/__init__.py
index 31734da..ca5b3c7 100755
--- a/interactions/four_particle/__init__.py
+++ b/interactions/four_particle/__init__.py
@@ -121,9 +121,6 @@ class FourParticleIntegral(BoltzmannIntegral):
         if stepsize is None:
             stepsize = params.h
 
-        if not environment.get('LOGARITHMIC_TIMESTEP'):
-            stepsize /= params.aT
-
         if not self.creaction:
             self.creaction = [
                 reaction_t(
-- 
2.43.0


From f89a5b2ef4900ca404e4f7e1290467d3409f5c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 35/38] fix: records of a species follow the grid set after its
 creation

---
 particles/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/particles/__init__.py b/particles/__init__.py
index 4ae31a9..9014fd0 100755
--- a/particles/__init__.py
+++ b/particles/__init__.py
@@ -68,13 +68,10 @@ class AbstractParticle:
 
         self.eta = 1. if self.statistics == STATISTICS.FERMION else -1.
         self.equilibrium_distribution_function = self.statistics
-        self.set_grid(self.grid)
         self.decayed= False
 
         self.collision_integrals = []
         self.data = {
-            'distribution': Dynamic2DArray(self.grid.TEMPLATE),
-            'collision_integral': Dynamic2DArray(self.grid.TEMPLATE),
             'params': DynamicRecArray([
                 ['a', '', 1],
                 ['t', 's', UNITS.s],
@@ -83,6 +80,7 @@ class AbstractParticle:
                 ['energy_density', 'MeV^4', UNITS.MeV**4]
             ])
         }
+        self.set_grid(self.grid)
 
         if self.params:
             self.set_params(self.params)
@@ -211,6 +209,9 @@ class DistributionParticle(AbstractParticle):
         self._distribution = numpy.zeros(self.grid.MOMENTUM_SAMPLES, dtype=numpy.float_)
         """ Particle collision integral is not effective in the equilibrium as well """
         self.collision_integral = numpy.zeros(self.grid.MOMENTUM_SAMPLES, dtype=numpy.float_)
+        # Both are recorded at the momenta of the grid
+        self.data['distribution'] = Dynamic2DArray(self.grid.TEMPLATE)
+        self.data['collision_integral'] = Dynamic2DArray(self.grid.TEMPLATE)
 
     def update(self, force_print=False):
         """ Update the particle parameters according to the new state of the system """
-- 
2.43.0


From 2ef7cfef05d995d1840120f071d0472ae8f79d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 36/38] fix: processes of different species that share a name
 got duplicate integrals with mixed amplitudes

---
 interactions/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/interactions/__init__.py b/interactions/__init__.py
index ad55b0f..4eee0ce 100755
--- a/interactions/__init__.py
+++ b/interactions/__init__.py
@@ -173,6 +173,12 @@ class CrossGeneratingInteraction(Interaction):
         #     perms = itertools.chain(perms,
         #                             self.permutations(self.particles, conjugated_antiparticles))
 
+        # Sort items by the name of their species; different species may share it, though
+        species = list(itertools.chain.from_iterable(self.particles))
+
+        def key(item):
+            return item.specie.name, species.index(item.specie), item.antiparticle, item.index
+
         # Generate all possible permutations of particles
         for perm in perms:
             # Generate possible reactions by inserting an arrow at every position
@@ -189,8 +195,8 @@ class CrossGeneratingInteraction(Interaction):
                 lhs = [item for item in reaction if item.side == -1]
                 rhs = [item for item in reaction if item.side == 1]
 
-                lhs = lhs[0:1] + sorted(lhs[1:])
-                rhs = sorted(rhs)
+                lhs = lhs[0:1] + sorted(lhs[1:], key=key)
+                rhs = sorted(rhs, key=key)
 
                 if lhs[0].antiparticle:
                     continue
-- 
2.43.0


From 0b9b5f8a933a4286bed0d80209f24eae4e97369d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:52 +0000
Subject: [PATCH 37/38] fix: nucleosynthesis rates of a universe were those of
 the leptons given last to any universe

---
 evolution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evolution.py b/evolution.py
index fedab7b..08d2d16 100755
--- a/evolution.py
+++ b/evolution.py
@@ -28,6 +28,7 @@ class Universe(object):
 
     kawano = None
     kawano_log = None
+    kawano_species = None
 
     oscillations = None
 
@@ -73,6 +74,7 @@ class Universe(object):
         self.step = 1
 
     def init_kawano(self, datafile='s4.dat', **kwargs):
+        self.kawano_species = kwargs
         kawano.init_kawano(**kwargs)
         if self.folder:
             self.kawano_log = open(os.path.join(self.folder, datafile), 'w')
@@ -326,6 +328,9 @@ class Universe(object):
             #     t[s]         x    Tg[10^9K]   dTg/dt[10^9K/s] rho_tot[g cm^-3]     H[s^-1]
             # n nue->p e  p e->n nue  n->p e nue  p e nue->n  n e->p nue  p nue->n e
 
+            # Another universe could have chosen its own leptons meanwhile
+            if self.kawano_species is not None:
+                self.kawano.init_kawano(**self.kawano_species)
             rates = self.kawano.baryonic_rates(self.params.a)
 
             if environment.get('LOGARITHMIC_TIMESTEP'):
-- 
2.43.0


From 8c2e8eb76592a1e33d276f5ec0716bc6b1336a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:13 +0000
Subject: [PATCH 38/38] fix: upper bound of a scattering integral was that of
 an earlier momentum of the thread

---
 interactions/four_particle/cpp/integral.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/interactions/four_particle/cpp/integral.cpp b/interactions/four_particle/cpp/integral.cpp
index f06dc43..5f52a9c 100644
--- a/interactions/four_particle/cpp/integral.cpp
+++ b/interactions/four_particle/cpp/integral.cpp
@@ -617,9 +617,10 @@ std::vector<dbl> integration(
 
     // Determine the integration bounds
     auto reaction_type = get_reaction_type(reaction);
+    const dbl grid_max_1 = max_1;
 
     // Note firstprivate() clause: those variables will be copied for each thread
-    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type) firstprivate(min_1, max_1, min_2, max_2, max_3)
+    #pragma omp parallel for default(none) shared(std::cout,ps, Ms, reaction, integral, stepsize, kind, reaction_type, grid_max_1) firstprivate(min_1, max_1, min_2, max_2, max_3)
     for (size_t i = 0; i < ps.size(); ++i) {
         dbl p0 = ps[i];
 
@@ -647,12 +648,8 @@ std::vector<dbl> integration(
             else {
                 min_1 = sqrt(min2);
             }
-            if (max_1 > 3. * min_1) {
-                max_1 = max_1;
-            }
-            else {
-                max_1 = 3. * min_1;
-            }
+            // Not the bound of the previous momentum of this thread
+            max_1 = std::max(grid_max_1, 3. * min_1);
         }
         if (reaction_type == Kinematics::CREATION) {
             if (reaction[3].specie.m == 0.) {continue; }
-- 
2.43.0

