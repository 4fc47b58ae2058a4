From b3e1fd36a3865b38eb730f12652c0f42a5a8c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:39 +0000
Subject: [PATCH 01/59] hooks: let verification builds (SLIDE_VERIF_HOOKS)
 choose thermal model and storage levels

---
 src/settings/settings.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/settings/settings.hpp b/src/settings/settings.hpp
index edb4e0b..7fc1218 100644
--- a/src/settings/settings.hpp
+++ b/src/settings/settings.hpp
@@ -48,20 +48,31 @@ constexpr bool overwrite_data = true; //!< if this is false then folder overwrit
 //!< Data storage  //!< from slidepack
 constexpr int DATASTORE_NHIST = 100; //!< length of the arrays with the histograms (if 1)
 
+#if defined(SLIDE_VERIF_HOOKS) && defined(SLIDE_VERIF_DATASTORE_CELL) //!< verification builds may choose another storage level.
+constexpr auto DATASTORE_CELL = cellDataStorageLevel::SLIDE_VERIF_DATASTORE_CELL;
+#else
 constexpr auto DATASTORE_CELL = cellDataStorageLevel::storeTimeData; //!< if 0, no cell-level data is stored
                                                                      //!< if 1, statistics about I, V and T are stored, as well as overall utilisation (throughput)
                                                                      //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
+#endif
 
-
+#if defined(SLIDE_VERIF_HOOKS) && defined(SLIDE_VERIF_DATASTORE_MODULE)
+constexpr auto DATASTORE_MODULE = moduleDataStorageLevel::SLIDE_VERIF_DATASTORE_MODULE;
+#else
 constexpr auto DATASTORE_MODULE = moduleDataStorageLevel::noStorage; //!< See moduleDataStorageLevel for different options.
+#endif
 
 //!< constexpr int DATASTORE_MODULE = 0; //!< if 0, no module-level data is stored
 //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 //!< constexpr int DATASTORE_BATT = 0; //!< if 0, no module-level data is stored
 //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
+#if defined(SLIDE_VERIF_HOOKS) && defined(SLIDE_VERIF_DATASTORE_COOL)
+constexpr int DATASTORE_COOL = SLIDE_VERIF_DATASTORE_COOL;
+#else
 constexpr int DATASTORE_COOL = 0; //!< if 0, no data is stored
                                   //!< if 1, statistics about the cooling system is stored
                                   //!< if 2, operating power etc is stored every time step
+#endif
 
 constexpr int MODULE_NSUs_MAX = 100; //!< #TODO eliminate but recursive static does not solve the situation since it is recursive.
                                      //!< maximum number of cells in a base module
@@ -89,12 +100,16 @@ constexpr size_t CELL_NSTATE_MAX{ 30 }; //!< maximum number of states of all typ
                          //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
 
 //!< temperature
+#if defined(SLIDE_VERIF_HOOKS) && defined(SLIDE_VERIF_T_MODEL)
+constexpr int T_MODEL{ SLIDE_VERIF_T_MODEL };
+#else
 constexpr int T_MODEL{ 0 }; //!< which thermal model to use
                             //!< 	0 no thermal model
                             //!< 	1 individual cell bulk thermal model
                             //!< 	2 coupled cell thermal model with cooling from modules
                             //!< if 1, statistics about the cooling system is stored
                             //!< if 2, operating power etc is stored every time step
+#endif
 
 //!< Choose how much messages should be printed to the terminal
 constexpr int verbose{ printLevel::printCrit };
-- 
2.43.0


From dcc7f1b589c6d6f1ba196b798b6a4c6cafe619d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 02/59] fix: Module_s::setCurrent restores the first child too
 when a child refuses the current

---
 src/modules/Module_s.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 1d8e466..b38c3a3 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -106,7 +106,7 @@ Status Module_s::setCurrent(double Inew, bool checkV, bool print)
                   << getStatusMessage(status) << '\n';
 
 
-      for (int j{ i }; j > 0; j--)
+      for (int j{ i }; j >= 0; j--)
         SUs[j]->setCurrent(Iolds[j], false, false); // #TODO this can start from j{i-1} since probably SUs[i] failed to assign any currents.
 
       return status; // #TODO setCurrent here may be costly.
-- 
2.43.0


From 29fc8cbe0e6bc65b697b7392e938e91256cc18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 03/59] fix: Module::getVhigh/getVlow start from a cell
 voltage, not from the module's own limits

---
 src/modules/Module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 511d075..c46a251 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -141,7 +141,7 @@ double Module::getVhigh()
 {
   //!< return the voltage of the cell with the highest voltage
   //!< 	note CELL not child SU
-  double Vhigh = Vmin(); // #TODO
+  double Vhigh = SUs.empty() ? Vmin() : SUs.front()->getVhigh();
   for (const auto &SU : SUs)
     Vhigh = std::max(Vhigh, SU->getVhigh()); //!< will be called recursively to the cell levels
 
@@ -151,7 +151,7 @@ double Module::getVhigh()
 double Module::getVlow()
 {
   //!< return the voltage of the cell with the lowest voltage note CELL not child SU
-  double Vlow = Vmax(); // #TODO
+  double Vlow = SUs.empty() ? Vmax() : SUs.front()->getVlow();
   for (const auto &SU : SUs)
     Vlow = std::min(Vlow, SU->getVlow()); //!< will be called recursively to the cell levels
 
-- 
2.43.0


From a943f2ab183dd4f6d8366227450da4e39febe036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:04 +0000
Subject: [PATCH 04/59] fix: Module_p keeps the total current when balancing
 and restores the old currents when a set-point fails

The balancing updates used the plain mean voltage while their gain is the
child's capacity, so with children of different capacity every iteration
changed the sum of the currents. A refused or unbalanced set-point left the
children with half-applied currents and, without convergence, reported
success.
---
 src/modules/Module_p.cpp | 57 ++++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 612d1bf..a0fa65c 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -103,7 +103,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 {
   // New redistributeCurrent without PI control:
   //!< get cell voltages
-  std::array<double, settings::MODULE_NSUs_MAX> Va, Vb, Ia, Ib; //!< #TODO if we should make them vector.
+  std::array<double, settings::MODULE_NSUs_MAX> Va, Ia, Ib; //!< #TODO if we should make them vector.
 
   //!< voltage and initial current of each cell //!< #TODO it is a constant value SU.
   constexpr int maxIteration = 2500;
@@ -113,18 +113,20 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 
   if (nSU <= 1) return Status::Success;
 
-  double Itot{ 0 };
+  double Captot{ 0 };
   getVall(Va, print);
   for (size_t i = 0; i < nSU; i++) {
-    Ia[i] = SUs[i]->I();
-    Itot += Ia[i]; // We also need to preserve sum of the currents!
+    Ia[i] = Ib[i] = SUs[i]->I();
+    Captot += SUs[i]->Cap();
   }
 
   int iter{ 0 };
   for (; iter < maxIteration; iter++) {
     double error{ 0 };
 
-    const auto Vmean = std::accumulate(Va.begin(), Va.begin() + nSU, 0.0) / nSU; // Compute the mean voltage
+    double Vmean{ 0 }; // Capacity-weighted mean voltage: the updates below then preserve the sum of the currents.
+    for (size_t i = 0; i < nSU; i++)
+      Vmean += Va[i] * SUs[i]->Cap() / Captot;
 
     for (size_t i = 0; i < nSU; i++) // Compute the error between mean voltage and individual cell voltages
       error += std::abs(Vmean - Va[i]);
@@ -136,7 +138,13 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      SUs[i]->setCurrent(Ia[i]);
+      const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
+      if (isStatusBad(status)) {
+        for (size_t j = 0; j < nSU; j++)
+          SUs[j]->setCurrent(Ib[j], false, false); // restore the original currents.
+
+        return status;
+      }
     }
 
     getVall(Va, print);
@@ -145,6 +153,9 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
   if constexpr (settings::printNumIterations)
     std::cout << "redistributeCurrent iterations: " << iter << '\n';
 
+  for (size_t i = 0; i < nSU; i++)
+    SUs[i]->setCurrent(Ib[i], false, false); // did not converge, restore the original currents.
+
   return StatusNow;
 }
 
@@ -206,24 +217,33 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   constexpr int maxIteration = 10550;
   const auto nSU = getNSUs();
 
-  auto StatusNow = Status::Success;
+  auto StatusNow = Status::RedistributeCurrent_failed;
 
   std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
 
-  double Itot{ 0 };
+  double Itot{ 0 }, Captot{ 0 };
 
   //!< get the old currents so we can revert if needed
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] = Iolds[i] = SUs[i]->I();
     Itot += Iolds[i];
+    Captot += SUs[i]->Cap();
   }
 
+  auto restoreCurrents = [&]() {
+    for (size_t i{}; i < SUs.size(); i++)
+      SUs[i]->setCurrent(Iolds[i], false, false);
+  };
+
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
 
   for (size_t i{}; i < SUs.size(); i++) {
     Ia[i] += dI;
-    StatusNow = SUs[i]->setCurrent(Ia[i]); // #TODO worse status should be here.
-    if (!isStatusOK(StatusNow)) return StatusNow;
+    const auto status = SUs[i]->setCurrent(Ia[i], checkV, print); // #TODO worse status should be here.
+    if (isStatusBad(status)) {
+      restoreCurrents();
+      return status;
+    }
   }
 
   getVall(Va, print);
@@ -232,10 +252,8 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
   for (; iter < maxIteration; iter++) {
     double Vmean{ 0 }, error{ 0 };
 
-    for (size_t i = 0; i < nSU; i++)
-      Vmean += Va[i];
-
-    Vmean /= nSU;
+    for (size_t i = 0; i < nSU; i++) // Capacity-weighted: the updates below then preserve the sum of the currents.
+      Vmean += Va[i] * SUs[i]->Cap() / Captot;
 
     for (size_t i = 0; i < nSU; i++)
       error += std::abs(Vmean - Va[i]);
@@ -247,8 +265,11 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
     for (size_t i = 0; i < nSU; i++) {
       Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
-      if (!isStatusSuccessful(SUs[i]->setCurrent(Ia[i])))
-        std::cout << "This should not happen!!" << std::endl; // #TODO
+      const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
+      if (isStatusBad(status)) {
+        restoreCurrents();
+        return status;
+      }
     }
     getVall(Va, print);
   }
@@ -272,7 +293,9 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
 
   if constexpr (settings::printNumIterations)
     if (iter != 0) std::cout << "setCurrent iterations: " << iter << '\n';
-  // #TODO set old currents back here!
+  if (isStatusBad(StatusNow)) //!< the currents could not be balanced
+    restoreCurrents();
+
   return StatusNow; //!< #TODO problem
 }
 
-- 
2.43.0


From 2fb61c32f5dd1adb2694678d8f7dd660ead4bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 05/59] fix: iterative voltage set-points stop when a trial
 current is refused and restore the old current on failure

A refused trial current left two equal voltages, so the next estimate was
inf or NaN and was applied to the unit.
---
 src/utility/free_functions.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index a37613c..2c44e6b 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -27,7 +27,8 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
   // New redistributeCurrent without PI control:
   //!< get cell voltages
   constexpr int maxIteration = 50;
-  double Ia{ su->I() };
+  const double Iold{ su->I() };
+  double Ia{ Iold };
 
   for (int iter{ 0 }; iter < maxIteration; iter++) {
     const auto Va = su->V();
@@ -35,14 +36,20 @@ inline Status setVoltage_iterative(Tsu *su, double Vset)
       return Status::Success;
 
     const auto Ib = (Vset > Va) ? Ia - 0.01 * su->Cap() : Ia + 0.01 * su->Cap();
-    su->setCurrent(Ib);
+    if (isStatusBad(su->setCurrent(Ib)))
+      break;
+
     const auto Vb = su->V();
+    if (Va == Vb) // the voltage does not respond to the current.
+      break;
 
     const double slope = (Ia - Ib) / (Va - Vb);
     Ia = Ib - (Vb - Vset) * slope; //!< False-Position method.
-    su->setCurrent(Ia);
+    if (isStatusBad(su->setCurrent(Ia)))
+      break;
   }
 
+  su->setCurrent(Iold, false, false); // the voltage is not reached, restore the old current.
   return Status::RedistributeCurrent_failed; // #TODO change to setVoltage failed.
 }
 
-- 
2.43.0


From 1253fd2730c71696fceeb1e67f9ac0db8934d811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 06/59] fix: degradation models read the anode entropic
 coefficient at the anode's lithium fraction

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 6239d8b..65c7852 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -186,7 +186,7 @@ void Cell_SPM::dState_degradation(bool print, State_SPM &d_state)
 
   const bool bound = true;
   //!< calculate the anode potential (needed for various degradation models)
-  const double dOCVn = OCV_curves.dOCV_neg.interp(zp_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
+  const double dOCVn = OCV_curves.dOCV_neg.interp(zn_surf, print, bound); //!< entropic coefficient of the anode potential [V K-1]
   const double OCV_n = OCV_curves.OCV_neg.interp(zn_surf, print, bound);  //!< anode potential [V]
   const double OCVnt = OCV_n + (st.T() - T_ref) * dOCVn;                  //!< anode potential at the cell's temperature [V]
 
-- 
2.43.0


From 0ac32152187146fc11ff9e34b66cb2b94aa2c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 07/59] fix: tangential stress (Dai) uses the concentration of
 the node it is evaluated at

---
 src/cells/Cell_SPM/Cell_SPM_degradation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
index 6ebd624..6e49ad3 100644
--- a/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_degradation.cpp
@@ -598,8 +598,8 @@ void Cell_SPM::getDaiStress(double *sigma_p, double *sigma_n, sigma_type &sigma_
       sigma_r_p[i_rev] = 2 * sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (ap - bp_x); //!< ap = int (c x^2, x=0..R), bp = int (c x^2 , x=0..r)
       sigma_r_n[i_rev] = 2 * sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (an - bn_x);
 
-      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - cp[i]);
-      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - cn[i]);
+      sigma_t_p[i_rev] = sparam.omegap * sparam.Ep / (3 * (1 - sparam.nup)) * (2 * ap + bp_x - CP[nch + 1 + i]);
+      sigma_t_n[i_rev] = sparam.omegan * sparam.En / (3 * (1 - sparam.nun)) * (2 * an + bn_x - CN[nch + 1 + i]);
     }
 
     //!< Make the hydrostatic stress sh = (sr + 2sp)/3
-- 
2.43.0


From c7ef007464b6716b66d9538f4d4c78deee1af025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 08/59] fix: a zero-length time step of Cell_SPM leaves
 temperature and degradation untouched (was 0/0 for stress models)

---
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 65c7852..680a4a8 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -302,7 +302,7 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
   }
 
   //!< **************************************************** Calculate the thermal model once for the nstep * dt time period *****************************************************************
-  if (!blockDegAndTherm) {
+  if (!blockDegAndTherm && dt * nstep > 0) {
 
     //!< Calculate the internal heat generation of the cell
     double dQgen;
-- 
2.43.0


From 5950273a8b9b7fd81fc1f0019eebf88c374c04a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 09/59] fix: Cell_SPM recomputes its voltage after a change of
 temperature, degradation or parameters

---
 src/cells/Cell_SPM/Cell_SPM.cpp         | 1 +
 src/cells/Cell_SPM/Cell_SPM.hpp         | 2 ++
 src/cells/Cell_SPM/Cell_SPM_dstate.cpp  | 2 ++
 src/cells/Cell_SPM/Cell_SPM_fitting.cpp | 4 ++++
 4 files changed, 9 insertions(+)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index ce31e03..6dcefcf 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -553,6 +553,7 @@ void Cell_SPM::setT(double Ti)
    */
 
   st.T() = Ti; //!< #TODO if we need to check if we are in limits.  if T is in limits.
+  Vcell_valid = false; //!< the voltage depends on the temperature
 
   //!< the stress values stored in the class variables for stress are no longer valid because the state has changed
   sparam.s_dai_update = false;
diff --git a/src/cells/Cell_SPM/Cell_SPM.hpp b/src/cells/Cell_SPM/Cell_SPM.hpp
index b2f18c4..138f019 100644
--- a/src/cells/Cell_SPM/Cell_SPM.hpp
+++ b/src/cells/Cell_SPM/Cell_SPM.hpp
@@ -240,6 +240,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteCharacterisationStates(Dpi, Dni, ri);
     s_ini.overwriteCharacterisationStates(Dpi, Dni, ri);
+    Vcell_valid = false;
   }
 
   void overwriteGeometricStates(double thickpi, double thickni, double epi, double eni, double api, double ani)
@@ -247,6 +248,7 @@ public:
     //!< Overwrite both current and initial states.
     st.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
     s_ini.overwriteGeometricStates(thickpi, thickni, epi, eni, api, ani);
+    Vcell_valid = false;
   }
 
   //!< time integration
diff --git a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
index 680a4a8..37c7940 100644
--- a/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_dstate.cpp
@@ -358,6 +358,8 @@ void Cell_SPM::timeStep_CC(double dt, int nstep)
     //!< degradation accumulation
     for (size_t i = 0; i < st.size(); i++)
       st[i] += d_st[i] * dt * nstep;
+
+    Vcell_valid = false; //!< degradation changed the states the voltage is calculated from
   }
 }
 
diff --git a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
index e7c32e6..a001a64 100644
--- a/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM_fitting.cpp
@@ -229,6 +229,8 @@ void Cell_SPM::setOCVcurve(const std::string &namepos, const std::string &namene
 
     throw e;
   }
+
+  Vcell_valid = false;
 }
 
 void Cell_SPM::setInitialConcentration(double cmaxp, double cmaxn, double lifracp, double lifracn)
@@ -307,6 +309,8 @@ void Cell_SPM::setCharacterisationParam(double Dp, double Dn, double kpi, double
 
   //!< overwrite the cycling related parameters
   overwriteCharacterisationStates(Dp, Dn, r);
+
+  Vcell_valid = false;
 }
 
 //!< void Cell_SPM::setRamping(double Istep, double tstep)
-- 
2.43.0


From cd90f14d68c8e95eebf63fa4b11c20f123720107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 10/59] fix: cell-to-cell factors passed to the Cell_SPM
 constructor are stored and scale the degradation rates

---
 src/cells/Cell_SPM/Cell_SPM.cpp       | 10 +++++++++-
 src/cells/Cell_SPM/param/CSparam.hpp  |  6 +++---
 src/cells/Cell_SPM/param/LAMparam.hpp |  6 +++---
 src/cells/Cell_SPM/param/PLparam.hpp  |  6 +++---
 src/cells/Cell_SPM/param/SEIparam.hpp |  6 +++---
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 6dcefcf..0c10287 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -632,6 +632,12 @@ void Cell_SPM::setC(double cp0, double cn0)
 Cell_SPM::Cell_SPM(std::string IDi, const DEG_ID &degid, double capf, double resf, double degfsei, double degflam) : Cell_SPM()
 {
   ID = IDi;
+  //!< Store the cell-to-cell variations
+  var_cap = capf;
+  var_R = resf;
+  var_degSEI = degfsei;
+  var_degLAM = degflam;
+
   //!< Set the resistance
 
   st.rDCcc() *= resf; //!< current collector
@@ -641,6 +647,9 @@ Cell_SPM::Cell_SPM(std::string IDi, const DEG_ID &degid, double capf, double res
   //!< set the capacity
   setCapacity(Cap() * capf); //!< nominal capacity
   geo.elec_surf *= capf;     //!< surface area of the electrodes (current to current density)
+  st.CS() *= capf;           //!< initial crack surface is a fraction of the real surface area
+  csparam.CS4Amax *= capf;   //!< and so is the maximum crack surface
+  s_ini = st;
 
   //!< set the degradation factor
   sei_p *= var_degSEI;
@@ -648,7 +657,6 @@ Cell_SPM::Cell_SPM(std::string IDi, const DEG_ID &degid, double capf, double res
   lam_p *= var_degLAM;
   pl_p *= var_degSEI;
 
-
   //!< set the degradation ID and related settings
   deg_id = degid;
 
diff --git a/src/cells/Cell_SPM/param/CSparam.hpp b/src/cells/Cell_SPM/param/CSparam.hpp
index 3a7a35a..3a2cd95 100644
--- a/src/cells/Cell_SPM/param/CSparam.hpp
+++ b/src/cells/Cell_SPM/param/CSparam.hpp
@@ -29,10 +29,10 @@ struct CSparam
   [[nodiscard]] constexpr auto begin() noexcept { return &CS1alpha; }
   [[nodiscard]] constexpr auto end() noexcept { return &CS_diffusion + 1; }
 
-  auto &operator*=(double a)
+  auto &operator*=(double a) //!< speeds up (or slows down) all models, activation energies, the maximum crack surface and the effect on the diffusion are no rates
   {
-    for (auto &item : *this)
-      item *= a;
+    for (auto *item : { &CS1alpha, &CS2alpha, &CS3alpha, &CS4alpha, &CS5k })
+      *item *= a;
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/LAMparam.hpp b/src/cells/Cell_SPM/param/LAMparam.hpp
index 09f5cac..6e9eece 100644
--- a/src/cells/Cell_SPM/param/LAMparam.hpp
+++ b/src/cells/Cell_SPM/param/LAMparam.hpp
@@ -32,10 +32,10 @@ struct LAMparam //!< #TODO if begin and end is ok for alignment.
   [[nodiscard]] constexpr auto begin() noexcept { return &lam1p; }
   [[nodiscard]] constexpr auto end() noexcept { return &lam4n + 1; }
 
-  auto &operator*=(double a)
+  auto &operator*=(double a) //!< speeds up (or slows down) all models, activation energies are no rates
   {
-    for (auto &item : *this)
-      item *= a;
+    for (auto *item : { &lam1p, &lam1n, &lam2ap, &lam2bp, &lam2an, &lam2bn, &lam3k, &lam4p, &lam4n })
+      *item *= a;
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/PLparam.hpp b/src/cells/Cell_SPM/param/PLparam.hpp
index 5428bce..06fac97 100644
--- a/src/cells/Cell_SPM/param/PLparam.hpp
+++ b/src/cells/Cell_SPM/param/PLparam.hpp
@@ -20,10 +20,10 @@ struct PLparam
   [[nodiscard]] constexpr auto begin() noexcept { return &pl1k; }
   [[nodiscard]] constexpr auto end() noexcept { return &pl1k_T + 1; }
 
-  auto &operator*=(double a)
+  auto &operator*=(double a) //!< speeds up (or slows down) all models, the activation energy is no rate
   {
-    for (auto &item : *this)
-      item *= a;
+    for (auto *item : { &pl1k })
+      *item *= a;
 
     return *this;
   }
diff --git a/src/cells/Cell_SPM/param/SEIparam.hpp b/src/cells/Cell_SPM/param/SEIparam.hpp
index dc886b4..00ca0b4 100644
--- a/src/cells/Cell_SPM/param/SEIparam.hpp
+++ b/src/cells/Cell_SPM/param/SEIparam.hpp
@@ -38,10 +38,10 @@ struct SEIparam
   auto begin() noexcept { return &sei_porosity; }
   auto end() noexcept { return &sei4D_T + 1; }
 
-  auto &operator*=(double a)
+  auto &operator*=(double a) //!< speeds up (or slows down) all models, activation energies and the porosity coefficient are no rates
   {
-    for (auto &item : *this)
-      item *= a;
+    for (auto *item : { &sei1k, &sei2k, &sei2D, &sei3k, &sei3D, &sei4k, &sei4D })
+      *item *= a;
 
     return *this;
   }
-- 
2.43.0


From 5fac7ffb17f3d4db88d5127f540631bd013921bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:08 +0000
Subject: [PATCH 11/59] fix: Cell_SPM::validStates refuses a negative LLI
 instead of throwing and accepts surfaces reduced by LAM

---
 src/cells/Cell_SPM/Cell_SPM.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 0c10287..2d38a32 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -384,7 +384,7 @@ bool Cell_SPM::validStates(bool print)
    * 		//todo calculate SoC based on the uniform concentration
    * 		Tmin < T < Tmax
    * 		0 < surface concentration < maximum concentration
-   * 		a = 3e/R
+   * 		0 < a <= 3e/R
    * 		all other values (except I) > 0
    *
    * note: does NOT check the voltage, only whether all fields are in the allowed range
@@ -434,12 +434,12 @@ bool Cell_SPM::validStates(bool print)
   if (st.LLI() < 0) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
-    throw 15;
+    range = false;
   }
 
   const double app = 3 * st.ep() / geo.Rp;
 
-  if (std::abs(st.ap() - app) / st.ap() > tol) {
+  if (!(st.ap() > 0) || (st.ap() - app) / st.ap() > tol) { //!< loss of active material can leave a smaller surface
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -447,7 +447,7 @@ bool Cell_SPM::validStates(bool print)
 
   const double ann = 3 * st.en() / geo.Rn;
 
-  if (std::abs(st.an() - ann) / st.an() > tol) {
+  if (!(st.an() > 0) || (st.an() - ann) / st.an() > tol) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
-- 
2.43.0


From ddfa3b3151eca37bf91d691ae60d0864574c379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 12/59] fix: Module_s recomputes its voltage from the children
 instead of returning a stale stored value

---
 src/modules/Module_s.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index b38c3a3..64639f7 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -55,11 +55,8 @@ double Module_s::V()
   //!< sum of the voltage of all cells
   //!< bool verb = print && (settings::printBool::printCrit); //!< print if the (global) verbose-setting is above the threshold
 
-  //!< if the stored value is up to date, return that one
-  if (Vmodule_valid)
-    return Vmodule;
-
-  //!< else calculate the voltage
+  //!< Always calculate the voltage: the children can change without this module knowing (e.g. a temperature or
+  //!< current set directly on a child), and they remember their own voltages.
   Vmodule = 0;
   for (size_t i = 0; i < getNSUs(); i++) {
     const auto v_i = SUs[i]->V();
-- 
2.43.0


From a07e953449752512e63ed3248a7e1c953f8656b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 13/59] fix: blocking degradation of a nested module or through
 a StorageUnit pointer reaches every cell

---
 src/StorageUnit.hpp    | 2 +-
 src/modules/Module.hpp | 2 +-
 src/system/Battery.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 2bd8e99..0e0f373 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -61,7 +61,7 @@ public:
 
   virtual void getStates(getStates_t s) = 0;       //!< returns one long array with the states
   virtual viewStates_t viewStates() { return {}; } //!< Only for cells to see individual states.
-  void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
+  virtual void setBlockDegAndTherm(bool block) { blockDegAndTherm = block; }
   virtual void setParent(StorageUnit *p) { parent = p; }                             //!< set the parent
   virtual Status setCurrent(double Inew, bool checkV = true, bool print = true) = 0; //
   virtual Status setVoltage(double Vnew, bool checkI = true, bool print = true)
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 731d1f7..cf04b5f 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -170,7 +170,7 @@ public:
 #endif
   }
 
-  void setBlockDegAndTherm(bool block)
+  void setBlockDegAndTherm(bool block) override
   {
     for (auto &SU : SUs)
       SU->setBlockDegAndTherm(block);
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 12673f4..507eed6 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -54,7 +54,7 @@ public:
   Module *getCells() { return cells.get(); }
   //!< int getNstates() { return cells->getNstates() + 1; } //!< +1 for the temperature of this battery
   void getStates(getStates_t &s) override; //!< returns one long array with the states
-  void setBlockDegAndTherm(bool block);
+  void setBlockDegAndTherm(bool block) override;
 
   Status setCurrent(double Inew, bool checkV = true, bool print = true) override
   {
-- 
2.43.0


From 1d8904cbc85eb05e87ca11566fe41857fb816f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 14/59] fix: Module::setSUs names the parent of the refused
 unit instead of dereferencing its own (possibly null) parent

---
 src/modules/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index c46a251..82b0b3d 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -84,7 +84,7 @@ void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
     {
       if (verb)
         std::cerr << "ERROR in Module::setCells, SU " << i << ", already has a parent "
-                  << "with full ID: " << parent->getFullID() << ". Throwing 10.\n";
+                  << "with full ID: " << p->getFullID() << ". Throwing 10.\n";
       std::cout << "Throwed in File: " << __FILE__ << ", line: " << __LINE__ << '\n';
       throw 10;
     }
-- 
2.43.0


From 2fe49923c718d4190e38b5afb8d8fbe98f129bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 15/59] fix: contact heat of a parallel module uses the current
 through each resistance, not the running sum over all

---
 src/modules/Module_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index a0fa65c..3cf44ce 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -337,9 +337,9 @@ void Module_p::timeStep_CC(double dt, int nstep)
     therm.time += nstep * dt;
 
     //!< Increase the heat from the contact resistances
-    double Ii = 0; //!< current through resistor I
     for (size_t i = 0; i < SUs.size(); i++) {
-      for (size_t j = i; j < SUs.size(); j++) // #TODO very important! Not calculating current for Rcontact properly!!!!!!!!!!
+      double Ii = 0;                          //!< current through resistor I
+      for (size_t j = i; j < SUs.size(); j++)
         Ii += SUs[j]->I();                    //!< resistor i sees the currents through the cells 'behind' them
 
       therm.Qcontact += Rcontact[i] * sqr(Ii) * nstep * dt;
-- 
2.43.0


From 5fe081a20b0e1207e869c1b9a66481b19dbd3823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 16/59] fix: Module::setStates restores every child when
 refusing, and refuses an invalid module temperature

---
 src/modules/Module.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index 82b0b3d..de4dcca 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -234,7 +234,7 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
                   << ". Restoring the old states, status: " << getStatusMessage(status) << '\n';
 
       for (size_t j = 0; j <= i; j++)
-        SUs[i]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
+        SUs[j]->setStates(spn_orig, false, print); //!< restore the original states without checking validity (they should be valid)
 
       return status;
     }
@@ -242,7 +242,17 @@ Status Module::setStates(setStates_t s, bool checkV, bool print)
   } //!< end loop to set the cell states
 
   //!< set the module temperature
-  assert(s[0] >= PhyConst::Kelvin); //!< #TODO here we are checking but should we?
+  if (!(s[0] >= PhyConst::Kelvin && s[0] <= PhyConst::Kelvin + 75.0)) { //!< same range as in the thermal model, refuses NaN
+    if (verb)
+      std::cerr << "ERROR in Module::setStates, the temperature " << s[0] << " of module " << getFullID()
+                << " is outside the allowed range. Restoring the old states.\n";
+
+    for (auto &SU : SUs)
+      SU->setStates(spn_orig, false, print);
+
+    return Status::Invalid_states;
+  }
+
   setT(s[0]);
   s = s.last(s.size() - 1);
 
-- 
2.43.0


From a1e940d2d5e592b6eac2c1e93fd0963a701cf825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 17/59] fix: Battery::setStates consumes its own temperature,
 refuses an invalid one and leaves a refused state unset

---
 src/system/Battery.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 0581721..ad10b91 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -105,8 +105,21 @@ void Battery::setBlockDegAndTherm(bool block)
 
 Status Battery::setStates(setStates_t s, bool checkStates, bool print)
 {
-  auto status = cells->setStates(s, checkStates, print);
-  setT(s.back()); //!< #TODO probably here we need to check?
+  std::vector<double> sorig;
+  cells->getStates(sorig);
+
+  const auto status = cells->setStates(s, checkStates, print);
+  if (isStatusBad(status)) //!< the module has restored its old states
+    return status;
+
+  if (!(s[0] >= PhyConst::Kelvin && s[0] <= PhyConst::Kelvin + 75.0)) { //!< same range as in the thermal model, refuses NaN
+    std::span<double> spn_orig{ sorig };
+    cells->setStates(spn_orig, false, print);
+    return Status::Invalid_states;
+  }
+
+  setT(s[0]); //!< the temperature of the battery follows the states of its module
+  s = s.last(s.size() - 1);
   return status;
 }
 
-- 
2.43.0


From 14b929720e3fcd5155891420e42dbf7c36b3b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 18/59] fix: copy assignment of Deep_ptr compiles and deep
 copies

---
 src/types/Deep_ptr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/Deep_ptr.hpp b/src/types/Deep_ptr.hpp
index 2b7d8ed..d14f9fc 100644
--- a/src/types/Deep_ptr.hpp
+++ b/src/types/Deep_ptr.hpp
@@ -58,7 +58,7 @@ public:
   /// Copy assignment operator
   Deep_ptr &operator=(const Deep_ptr &other)
   {
-    if (this != &other) ptr = other ? other->copy() : nullptr;
+    if (this != &other) ptr.reset(other ? other->copy() : nullptr);
 
     return *this;
   }
-- 
2.43.0


From 389dd44a29d5742aaaa7b846a8964f46a28cf714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 19/59] fix: copies of units are self-contained: children of a
 copied pack belong to the copy, a copy has no parent

---
 src/StorageUnit.hpp    |  9 +++++++++
 src/modules/Module.cpp | 30 ++++++++++++++++++++++++++++++
 src/modules/Module.hpp |  2 ++
 src/system/Battery.cpp | 32 ++++++++++++++++++++++++++++++++
 src/system/Battery.hpp |  2 ++
 5 files changed, 75 insertions(+)

diff --git a/src/StorageUnit.hpp b/src/StorageUnit.hpp
index 0e0f373..4893226 100644
--- a/src/StorageUnit.hpp
+++ b/src/StorageUnit.hpp
@@ -42,6 +42,15 @@ public:
     : ID(ID_), parent(parent_), blockDegAndTherm(blockDegAndTherm_) {}
 
   virtual ~StorageUnit() = default;
+
+  //!< A copy is a unit on its own: it does not belong to the parent of the original until it is connected.
+  StorageUnit(const StorageUnit &other) : ID(other.ID), blockDegAndTherm(other.blockDegAndTherm) {}
+  StorageUnit &operator=(const StorageUnit &other) //!< note: keeps its own place in the hierarchy
+  {
+    ID = other.ID;
+    blockDegAndTherm = other.blockDegAndTherm;
+    return *this;
+  }
   const std::string &getID() { return ID; }
   void setID(std::string IDi) { ID = std::move(IDi); }
 
diff --git a/src/modules/Module.cpp b/src/modules/Module.cpp
index de4dcca..39b7106 100644
--- a/src/modules/Module.cpp
+++ b/src/modules/Module.cpp
@@ -63,6 +63,36 @@ Module::Module(std::string_view ID_, double Ti, bool print, bool pari, int Ncell
 }
 
 
+Module::Module(const Module &other)
+  : StorageUnit(other), SUs(other.SUs), Rcontact(other.Rcontact), cool(other.cool), therm(other.therm), Ncells(other.Ncells),
+    Vmodule(other.Vmodule), Vmodule_valid(other.Vmodule_valid), par(other.par), st_module(other.st_module), data(other.data)
+{
+  for (auto &SU : SUs)
+    SU->setParent(this);
+}
+
+Module &Module::operator=(const Module &other)
+{
+  if (this == &other) return *this;
+
+  StorageUnit::operator=(other);
+  SUs = other.SUs;
+  Rcontact = other.Rcontact;
+  cool = other.cool;
+  therm = other.therm;
+  Ncells = other.Ncells;
+  Vmodule = other.Vmodule;
+  Vmodule_valid = other.Vmodule_valid;
+  par = other.par;
+  st_module = other.st_module;
+  data = other.data;
+
+  for (auto &SU : SUs)
+    SU->setParent(this);
+
+  return *this;
+}
+
 void Module::setSUs(SUs_span_t c, bool checkCells, bool print)
 {
   /*
diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index cf04b5f..8b3a3a3 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -75,6 +75,8 @@ protected:
 public:
   Module() : StorageUnit("Module") {}
   Module(std::string_view ID_) : StorageUnit(ID_) {}
+  Module(const Module &other); //!< the copied children belong to the copy
+  Module &operator=(const Module &other);
   Module(std::string_view ID_, double Ti, bool print, bool pari, int Ncells, int coolControl, int cooltype);
   Module(std::string_view ID_, double Ti, bool print, bool pari, int Ncells, CoolSystem_t &&coolControlPtr, int cooltype);
 
diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index ad10b91..46e17f0 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -19,6 +19,38 @@ namespace slide {
 Battery::Battery() : StorageUnit("Battery") {}
 Battery::Battery(std::string IDi) : Battery() { ID = std::move(IDi); }
 
+Battery::Battery(const Battery &other)
+  : StorageUnit(other), cells(other.cells), cool(other.cool), conv(other.conv), nseries(other.nseries), nparallel(other.nparallel),
+    convlosses(other.convlosses), convlosses_tot(other.convlosses_tot)
+#if DATASTORE_BATT > 1
+    ,
+    timetot(other.timetot), batData(other.batData)
+#endif
+{
+  if (cells) cells->setParent(this);
+}
+
+Battery &Battery::operator=(const Battery &other)
+{
+  if (this == &other) return *this;
+
+  StorageUnit::operator=(other);
+  cells = other.cells;
+  cool = other.cool;
+  conv = other.conv;
+  nseries = other.nseries;
+  nparallel = other.nparallel;
+  convlosses = other.convlosses;
+  convlosses_tot = other.convlosses_tot;
+#if DATASTORE_BATT > 1
+  timetot = other.timetot;
+  batData = other.batData;
+#endif
+
+  if (cells) cells->setParent(this);
+  return *this;
+}
+
 void Battery::setSeriesandParallel(unsigned int ser, unsigned int par)
 {
   nseries = ser;
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 507eed6..1677950 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -38,6 +38,8 @@ protected:
 public:
   Battery();
   Battery(std::string IDi);
+  Battery(const Battery &other); //!< the copied module belongs to the copy
+  Battery &operator=(const Battery &other);
   void setModule(Deep_ptr<Module> &&module);
   void setSeriesandParallel(unsigned int ser, unsigned int par);
 
-- 
2.43.0


From 204fc33eef712d9802bc21b6d63a1a686785bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 20/59] fix: check-up owns its copies of the cells (they
 leaked) and names the original cells

---
 src/procedures/Procedure.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6eaf862..3547c28 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -444,11 +444,14 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   checkUp_prep(su); //!< bring to correct voltage
 
   //!< get a vector with pointers to the cells
-  std::vector<Cell *> cells;
+  std::vector<std::unique_ptr<Cell>> cells;
+  std::vector<std::string> cellIDs; //!< full IDs of the original cells, a copy does not belong to a module
 
-  auto copyCells = [&cells](auto *su_now) {
-    if (auto c = dynamic_cast<Cell *>(su_now))
-      cells.push_back(static_cast<Cell *>(c->copy()));
+  auto copyCells = [&](auto *su_now) {
+    if (auto c = dynamic_cast<Cell *>(su_now)) {
+      cells.emplace_back(static_cast<Cell *>(c->copy()));
+      cellIDs.push_back(c->getFullID());
+    }
   };
 
   visit_SUs(su, copyCells);
@@ -469,8 +472,9 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber";
   file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
 
-  for (auto &cell : cells) {
-    file << cell->getFullID() << ','; //!< first column is cell IDs
+  for (size_t k{}; k < cells.size(); k++) {
+    auto *cell = cells[k].get();
+    file << cellIDs[k] << ','; //!< first column is cell IDs
 
     //!< columns 2-5 is are the variation-parameter (capacity, resistance, SEI degradation rate, LAM degradation rate spread)
     for (auto var : cell->getVariations())
-- 
2.43.0


From 0f2b4f4d9cdd92a3e1a50df0ce91968343609c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 21/59] fix: an exception thrown by a task of run() reaches the
 caller instead of terminating the program

---
 src/utility/parallelisation.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/utility/parallelisation.hpp b/src/utility/parallelisation.hpp
index 42ef21e..f8af458 100644
--- a/src/utility/parallelisation.hpp
+++ b/src/utility/parallelisation.hpp
@@ -12,6 +12,8 @@
 
 #include "../settings/settings.hpp"
 
+#include <algorithm>
+#include <exception>
 #include <thread>
 #include <vector>
 
@@ -35,22 +37,34 @@ void run(Tfun task_indv, int i_end, unsigned int numMaxParallelWorkers = setting
       if (numMaxParallelWorkers < 1)
         numMaxParallelWorkers = std::thread::hardware_concurrency();
 
-      const unsigned int N_th_max = std::min(numMaxParallelWorkers, std::thread::hardware_concurrency());
+      const unsigned int N_th_max = std::max(1u, std::min(numMaxParallelWorkers, std::thread::hardware_concurrency()));
 
       std::vector<std::thread> threads;
       threads.reserve(N_th_max);
 
+      std::vector<std::exception_ptr> errors(N_th_max); //!< an exception leaving a thread would terminate the program
+      auto task_guarded = [&](int i_begin, int i_end_, int Nth) {
+        try {
+          task_par(i_begin, i_end_, Nth);
+        } catch (...) {
+          errors[i_begin] = std::current_exception();
+        }
+      };
+
       for (unsigned int i_begin = 0; i_begin < N_th_max; i_begin++) //!< indices for the threads
       {
         //!< Multi threaded simul:
 
-        threads.emplace_back(task_par, i_begin, i_end, N_th_max);
+        threads.emplace_back(task_guarded, i_begin, i_end, N_th_max);
       }
 
       for (auto &th : threads) {
         if (th.joinable())
           th.join();
       }
+
+      for (auto &error : errors) //!< pass the first one on to the caller
+        if (error) std::rethrow_exception(error);
     }
   } else {
     task_par(0, i_end, 1);
-- 
2.43.0


From 96a420e7fc71cbb713aead88e51019a87c265f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:55 +0000
Subject: [PATCH 22/59] fix: validity checks refuse NaN and non-positive
 thicknesses and diffusion constants

---
 src/cells/Cell_ECM/Cell_ECM.hpp |  2 +-
 src/cells/Cell_SPM/Cell_SPM.cpp | 25 ++++++++++++++++---------
 src/utility/free_functions.hpp  |  2 +-
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/cells/Cell_ECM/Cell_ECM.hpp b/src/cells/Cell_ECM/Cell_ECM.hpp
index 0ee305b..b0e25f0 100644
--- a/src/cells/Cell_ECM/Cell_ECM.hpp
+++ b/src/cells/Cell_ECM/Cell_ECM.hpp
@@ -318,7 +318,7 @@ inline bool Cell_ECM<N_RC>::validStates(bool print)
 
   bool range = free::check_SOC(SOC());
 
-  if (T() < Tmin() || T() > Tmax()) {
+  if (!(T() >= Tmin() && T() <= Tmax())) { //!< also refuses NaN
     if (verb)
       std::cerr << "ERROR in Cell_ECM::validState, T is outside of the range, "
                 << Tmin() << " <= T <= " << Tmax()
diff --git a/src/cells/Cell_SPM/Cell_SPM.cpp b/src/cells/Cell_SPM/Cell_SPM.cpp
index 2d38a32..1194cf0 100644
--- a/src/cells/Cell_SPM/Cell_SPM.cpp
+++ b/src/cells/Cell_SPM/Cell_SPM.cpp
@@ -141,7 +141,7 @@ bool Cell_SPM::getCSurf(double &cps, double &cns, bool print)
 
   //!< check if the surface concentration is within the allowed range
   //!< 	0 < cp < Cmaxpos  &&  0 < cn < Cmaxneg
-  const auto flag = !(cps <= 0 || cns <= 0 || cps >= Cmaxpos || cns >= Cmaxneg);
+  const auto flag = cps > 0 && cns > 0 && cps < Cmaxpos && cns < Cmaxneg; //!< also false for NaN
 
   return flag;
 }
@@ -402,7 +402,7 @@ bool Cell_SPM::validStates(bool print)
 
   bool range = free::check_SOC(SOC()); //!< check whether SoC in the allowed range
 
-  if (T() < Tmin() || T() > Tmax()) {
+  if (!(T() >= Tmin() && T() <= Tmax())) { //!< also refuses NaN
     if (verb)
       std::cerr << "ERROR in Cell_SPM::validState, T is outside of the range, " << Tmin()
                 << " <= T <= " << Tmax() << ", value is " << T() << '\n';
@@ -424,14 +424,14 @@ bool Cell_SPM::validStates(bool print)
   //!< a negative value might lead to a further decrease in SEI thickness,
   //!< so it will keep getting more and more negative
 
-  if (st.delta() <= 0) {
+  if (!(st.delta() > 0)) {
     std::cerr << "Error in State::validState. The SEI thickness delta is " << st.delta()
               << ", which is too low. Only strictly positive values are allowed.\n";
     range = false;
   }
 
   //!< lost lithium  a value of 0 is allowed (it won't lead to errors in the code)
-  if (st.LLI() < 0) {
+  if (!(st.LLI() >= 0)) {
     std::cerr << "Error in State::validState. The lost lithium LLI is " << st.LLI()
               << ", which is too low. Only non-negative values are allowed.\n";
     range = false;
@@ -439,7 +439,7 @@ bool Cell_SPM::validStates(bool print)
 
   const double app = 3 * st.ep() / geo.Rp;
 
-  if (!(st.ap() > 0) || (st.ap() - app) / st.ap() > tol) { //!< loss of active material can leave a smaller surface
+  if (!(st.ap() > 0) || !((st.ap() - app) / st.ap() <= tol)) { //!< loss of active material can leave a smaller surface
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
@@ -447,25 +447,32 @@ bool Cell_SPM::validStates(bool print)
 
   const double ann = 3 * st.en() / geo.Rn;
 
-  if (!(st.an() > 0) || (st.an() - ann) / st.an() > tol) {
+  if (!(st.an() > 0) || !((st.an() - ann) / st.an() <= tol)) {
     if (verb)
       std::cerr << "SOME ERROR #TODO!\n";
     range = false;
   }
 
+  //!< geometry and diffusion constants appear in denominators
+  if (!(st.thickp() > 0 && st.thickn() > 0 && st.Dp() > 0 && st.Dn() > 0)) {
+    if (verb)
+      std::cerr << "ERROR in Cell_SPM::validState: the electrode thicknesses and diffusion constants must be strictly positive.\n";
+    range = false;
+  }
+
   //!< surface area of the cracks growing at the particle surface
   //!< don't allow 0 because it might give problems in some of the equations,
   //!< which might grow CS proportional to the existing CS (so a value of 0 gives 0 increase)
   //!< a negative value might lead to a further decrease in CS, so it will keep getting more
   //!< and more negative
-  if (st.CS() < 0) {
+  if (!(st.CS() >= 0)) {
     std::cerr << "Error in State::validState. The crack surface area is " << st.CS()
               << ", which is too low. It must be strictly positive.\n";
     range = false;
   }
 
   //!< specific resistance of the electrodes (one value for both electrodes combined)
-  if (st.rDCp() < 0 || st.rDCn() < 0 || st.rDCcc() < 0) {
+  if (!(st.rDCp() >= 0 && st.rDCn() >= 0 && st.rDCcc() >= 0)) {
     std::cerr << "Error in State::validState. The specific resistance is "
               << "too low, it must be strictly positive.\n";
     range = false;
@@ -476,7 +483,7 @@ bool Cell_SPM::validStates(bool print)
   //!< so it will keep getting more and more negative
 
   const bool delpl = st.delta_pl() < 0;
-  if (st.delta_pl() < 0) {
+  if (!(st.delta_pl() >= 0)) {
     std::cerr << "Error in State::validState. The thickness of the plated lithium is "
               << st.delta_pl() << ", which is too low. Only positive values are allowed.\n";
     range = false;
diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 2c44e6b..176052b 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -110,7 +110,7 @@ auto get_I(const T &SU) { return SU->I(); }
 template <bool Print = settings::printBool::printCrit>
 auto inline check_SOC(double SOCnew, double SOC_min = 0, double SOC_max = 1)
 {
-  if (SOCnew < SOC_min || SOCnew > SOC_max) //!< check that the input argument is valid
+  if (!(SOCnew >= SOC_min && SOCnew <= SOC_max)) //!< check that the input argument is valid, also refuses NaN
   {
     if constexpr (Print)
       std::cerr << "ERROR in some Cell, illegal input value of SOC: "
-- 
2.43.0


From 8ba3cb9862a7d4dac7dcb3500dc85b4e613744a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 23/59] fix: interpolation of nearly equally spaced tables uses
 the interval that contains the point; tables of one point are not read beyond

---
 src/types/XYdata.hpp          | 3 +++
 src/utility/interpolation.hpp | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types/XYdata.hpp b/src/types/XYdata.hpp
index 0f535ef..12f6724 100644
--- a/src/types/XYdata.hpp
+++ b/src/types/XYdata.hpp
@@ -25,6 +25,9 @@ namespace slide {
 template <typename Tx>
 bool check_is_fixed(Tx &xdat) //!< Checks if steps are fixed length. #TODO should not be here.
 {
+  if (xdat.size() < 2) //!< there are no steps.
+    return false;
+
   const double dt = xdat[1] - xdat[0];
   const double tol = 0.01 * dt; //!< Tolerance.
 
diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 955c146..2d86918 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -68,7 +68,13 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
 
     if (is_fixed) {
       double dt = xdat[1] - xdat[0];
-      i_low = static_cast<int>((x - xdat[0]) / dt) + 1;
+      i_low = static_cast<int>(std::min((x - xdat[0]) / dt, nin - 2.0)) + 1;
+
+      //!< the steps are only equal within a tolerance, so the point can be in another interval:
+      while (i_low > 1 && x <= xdat[i_low - 1])
+        i_low--;
+      while (i_low < nin - 1 && x > xdat[i_low])
+        i_low++;
     } else {
       //!< binary search algorithm:
       //!< i_low will be the first index which compares greater than x;
-- 
2.43.0


From 2edc4040e31a0088ab9f03e4b6bb38a51a0e0284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:59 +0000
Subject: [PATCH 24/59] fix: histograms count far outside samples in the end
 bins, ignore samples when empty and list every edge

---
 src/types/Histogram.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/types/Histogram.hpp b/src/types/Histogram.hpp
index 3db1312..37508c6 100644
--- a/src/types/Histogram.hpp
+++ b/src/types/Histogram.hpp
@@ -31,7 +31,7 @@ class Histogram
 {
   std::vector<size_t> bins;
   Tdata x_min{}, x_max{}, dx{ 1 };
-  int Nbins;
+  int Nbins{};
 
 public:
   Histogram() = default;
@@ -49,10 +49,12 @@ public:
      * bins[0] is number of elements less than x_min
      * bins[end] is number of elements more than x_max
      * */
-    auto i = static_cast<int>(1 + (x - x_min) / dx);
+    if (bins.empty())
+      return;
 
-    const auto ssize = static_cast<int>(bins.size());
-    i = std::max(0, std::min(i, ssize - 1)); // #TODO what happens if container is empty?
+    const auto position = 1 + (x - x_min) / dx; //!< limited before conversion, it can be outside of the range of integers.
+    const auto i_max = static_cast<Tdata>(bins.size() - 1);
+    const auto i = static_cast<size_t>(std::max(Tdata{ 0 }, std::min(position, i_max)));
     bins[i]++;
   }
 
@@ -61,7 +63,7 @@ public:
   [[nodiscard]] constexpr auto begin() noexcept { return bins.begin(); }
   [[nodiscard]] constexpr auto end() noexcept { return bins.end(); }
 
-  auto getEdgeValues() const noexcept { return range_fix(x_min, x_max, dx); }
+  auto getEdgeValues() const noexcept { return linstep_fix(x_min, dx, bins.empty() ? 0 : Nbins + 1); }
 
   auto size() const noexcept { return bins.size(); }
 
-- 
2.43.0


From af0dd097fe60c378cfae162adc73c7dafd5d3b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 25/59] fix: range_fix includes its end point when rounding
 leaves it just below a whole step

---
 src/utility/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/util.hpp b/src/utility/util.hpp
index 4d54d41..5687561 100644
--- a/src/utility/util.hpp
+++ b/src/utility/util.hpp
@@ -89,7 +89,8 @@ namespace slide {
 
 inline FixedData<double> range_fix(double x_min, double x_max, double x_step)
 {
-  int Nstep = static_cast<int>((x_max - x_min) / x_step) + 1;
+  const double steps = (x_max - x_min) / x_step;
+  const int Nstep = (steps < 0) ? 0 : static_cast<int>(steps * (1 + 1e-12) + 1e-9) + 1; //!< x_max belongs to the range, also if rounding leaves it just below a step.
   return FixedData<double>(x_min, x_step, Nstep);
 }
 
-- 
2.43.0


From cb56bc3ea22a84aaf919516605dd7d688f6141ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 26/59] fix: SmallVector refuses an element when it is full (it
 wrote one beyond its array)

---
 src/types/SmallVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/SmallVector.hpp b/src/types/SmallVector.hpp
index 1930d47..4f5b33e 100644
--- a/src/types/SmallVector.hpp
+++ b/src/types/SmallVector.hpp
@@ -28,7 +28,7 @@ public:
 
   inline void push_back(const T &&elem)
   {
-    if (N > Nmax) {
+    if (N >= Nmax) {
       std::cerr << "Array is very small! Please increase its size from settings!\n";
       throw 1234;
     }
-- 
2.43.0


From 6cea55d53bd01feff1f2f2861f305b9efd6e1fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 27/59] fix: an Interval of a whole container includes its last
 element

---
 src/types/Interval.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/Interval.hpp b/src/types/Interval.hpp
index 5f9d1ad..ee8a86b 100644
--- a/src/types/Interval.hpp
+++ b/src/types/Interval.hpp
@@ -23,7 +23,7 @@ class Interval
 public:
   Interval() = default;
 
-  Interval(Tcontainer &data) : root(&data), en(data.size() - 1) {}
+  Interval(Tcontainer &data) : root(&data), en(data.size()) {}
 
   Interval(Tcontainer &data, int begin_, int end_) : root(&data), beg(begin_), en(end_) {}
 
-- 
2.43.0


From 7f823c272a64060fad6c9f9b763494ce82c929ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 28/59] fix: rank-one Cholesky update divides the whole entry
 by c

---
 src/types/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/matrix.hpp b/src/types/matrix.hpp
index 69e8121..d623131 100644
--- a/src/types/matrix.hpp
+++ b/src/types/matrix.hpp
@@ -68,9 +68,9 @@ void cholUpdate(slide::Matrix<double, N, N> &L, std::array<double, N> x, bool is
 
     for (int j = k + 1; (k != (N - 1) && (j < N)); j++) {
       if (isDowndate)
-        L[j][k] -= s * x[j] / c;
+        L[j][k] = (L[j][k] - s * x[j]) / c;
       else
-        L[j][k] += s * x[j] / c;
+        L[j][k] = (L[j][k] + s * x[j]) / c;
       x[j] = c * x[j] - s * L[j][k];
     }
   }
-- 
2.43.0


From 47288c2712e09eb90e731c08a9ea35a9b3c56cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 29/59] fix: interpolating at not-a-number is an error or
 not-a-number instead of a read outside of the table

---
 src/utility/interpolation.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utility/interpolation.hpp b/src/utility/interpolation.hpp
index 2d86918..bd5cf70 100644
--- a/src/utility/interpolation.hpp
+++ b/src/utility/interpolation.hpp
@@ -47,6 +47,13 @@ auto linInt_noexcept(bool bound, Tx &xdat, Ty &ydat, int nin, double x, bool is_
   int status = 0;   //!< Set the status as inverse of bound. So that first two branches of if are invalid if bound is true.
   //!< check that x is within the limits of the data points
 
+  if (std::isnan(x)) { //!< not a number is never within the limits.
+    if (!bound)
+      yy = x;
+
+    return std::make_pair(yy, bound ? -1 : 0);
+  }
+
   if (bound) {
     if (x < xdat[0]) {
       status = -1;
-- 
2.43.0


From c7b78e346187ddc9b69f498b2c2c4818a69b91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 30/59] fix: readers of numeric files accept a byte-order mark
 and blank trailing lines, end on empty files and refuse directories

---
 src/utility/io/read_CSVfiles.hpp | 38 +++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index b62717e..dd24ddb 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -53,6 +53,23 @@ inline auto getFile(std::string name)
   static std::map<std::string, std::string> fileMap;
 }
 
+inline void ignoreBOM(std::ifstream &in)
+{
+  in.peek(); //!< a directory can be opened as a file but not read.
+  if (in.bad()) {
+    std::cerr << "Error in ReadCSVfiles::ignoreBOM. The file could not be read.\n";
+    throw 2;
+  }
+
+  char c = '.';
+
+  while ((in >> c) && c < 45) //!< Ignore byte order mark (BOM) at the beginning
+    ;
+
+  if (in)
+    in.putback(c);
+}
+
 template <typename Tpath, typename T, size_t ROW, size_t COL>
 void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 {
@@ -76,8 +93,7 @@ void loadCSV_mat(const Tpath &name, Matrix<T, ROW, COL> &x)
 
   char c = '.';
 
-  while (in.peek() <= 32) //!< Ignore byte order mark (BOM) at the beginning
-    in >> c;
+  ignoreBOM(in);
 
   for (size_t i = 0; i < ROW; i++) {
     //!< read all but the last column
@@ -99,17 +115,6 @@ void loadCSV_1col(const Tpath &name, std::array<T, ROW> &x)
   std::memcpy(&x, &temp, sizeof temp);
 }
 
-inline void ignoreBOM(std::ifstream &in)
-{
-  char c = '.';
-
-  do {
-    in >> c;
-  } while (c < 45); //!< Ignore byte order mark (BOM) at the beginning
-
-  in.putback(c);
-}
-
 template <typename Tpath, typename Tx, typename Ty>
 void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
 {
@@ -194,17 +199,20 @@ void loadCSV_Ncol(const Tpath &name, DynamicMatrix<Tx> &x, int n = 0)
   int n_rows{ 0 };
   while ((n == 0 || n_rows < n) && std::getline(in, line)) //!< Read file.
   {
-    n_rows++;
     std::istringstream in_line(line);
     double x_i;
     char c;
+    const auto n_before = x.data.size();
     while (in_line >> x_i) {
       x.data.push_back(x_i);
       in_line >> c;
     }
+
+    if (x.data.size() > n_before) //!< blank lines are not rows.
+      n_rows++;
   }
 
-  int n_cols = x.data.size() / n_rows;
+  const int n_cols = (n_rows == 0) ? 0 : x.data.size() / n_rows;
 
   x.reshape(n_cols, n_rows);
 
-- 
2.43.0


From 43fa2f7ef026fec749b15df37b2ebf5b18499ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:47 +0000
Subject: [PATCH 31/59] fix: reading a long file into arrays stops at the end
 of the arrays

---
 src/utility/io/read_CSVfiles.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utility/io/read_CSVfiles.hpp b/src/utility/io/read_CSVfiles.hpp
index dd24ddb..c2b725b 100644
--- a/src/utility/io/read_CSVfiles.hpp
+++ b/src/utility/io/read_CSVfiles.hpp
@@ -13,6 +13,8 @@
 #include "../../types/matrix.hpp"
 #include "../util_debug.hpp"
 
+#include <algorithm>
+#include <iterator>
 #include <string>
 #include <iostream>
 #include <fstream>
@@ -157,8 +159,9 @@ void loadCSV_2col(const Tpath &name, Tx &x, Ty &y, int n = 0)
       y.push_back(y_i);
       j++;
     }
-  } else {                                                 //!< It must be a std::array, then just read without clear.
-    while ((n == 0 || j < n) && (in >> x[j] >> c >> y[j])) //!< Read file.
+  } else { //!< It must be a std::array, then just read without clear and not more than it can hold.
+    const int n_max = static_cast<int>(std::min(std::size(x), std::size(y)));
+    while ((n == 0 || j < n) && j < n_max && (in >> x[j] >> c >> y[j])) //!< Read file.
       j++;
   }
 }
-- 
2.43.0


From e98b7b3f35c7655a7f5505bf301a453fb7160eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 32/59] fix: voltage set-points of parallel modules converge
 for any resistance and restore the currents when they fail

---
 src/modules/Module_p.cpp | 37 +++----------------------------------
 1 file changed, 3 insertions(+), 34 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 3cf44ce..d91a60b 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -161,40 +161,9 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 
 Status Module_p::setVoltage(double Vnew, bool checkI, bool print)
 {
-  constexpr int maxIteration = 50;
-  const auto nSU = getNSUs();
-
-  auto StatusNow = Status::RedistributeCurrent_failed;
-
-  std::array<double, settings::MODULE_NSUs_MAX> Iolds, Ia, Va;
-
-  //!< get the old currents so we can revert if needed
-  for (size_t i{}; i < SUs.size(); i++)
-    Ia[i] = Iolds[i] = SUs[i]->I();
-
-  int iter{ 0 };
-  for (; iter < maxIteration; iter++) {
-    getVall(Va, print);
-
-    double error{ 0 };
-    for (size_t i = 0; i < nSU; i++)
-      error += std::abs(Vnew - Va[i]);
-
-    if (error < 1e-10) {
-      StatusNow = Status::Success;
-      break;
-    }
-
-    for (size_t i = 0; i < nSU; i++) {
-      Ia[i] += -0.2 * (Vnew - Va[i]) / 0.001;
-      SUs[i]->setCurrent(Ia[i]);
-    }
-  }
-
-  if constexpr (settings::printNumIterations)
-    std::cout << "setVoltage iterations: " << iter << '\n';
-
-  return StatusNow; // #TODO add some voltage/current etc. check
+  //!< search for the total current at which the module has this voltage: every trial balances the cells
+  //!< and the old currents are restored if the voltage cannot be reached.
+  return free::setVoltage_iterative(this, Vnew);
 }
 
 Status Module_p::setCurrent(double Inew, bool checkV, bool print)
-- 
2.43.0


From a0aa8f7416d5237675b01c37c31e1d21383c85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 33/59] fix: a constant-current phase reports the step after
 which it stopped for a cell limit or a missing voltage

---
 src/procedures/Cycler.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 7aab5d5..e9b23b6 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -284,6 +284,14 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       return Status::timeStep_CC_failed;
     }
 
+    //!< Increase the throughput
+    const auto dt_now = dti * nOnce;
+    th.time() += dt_now;
+    ttot += dt_now;
+    th.Ah() += std::abs(I) * dt_now / 3600.0;
+    idat += nOnce;
+    th.Wh() += std::abs(I) * dt_now / 3600 * su->V();
+
     //!< get the voltage
     if (diagnostic) {
       const auto status = su->checkVoltage(vi, true);
@@ -304,15 +312,6 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       }
     }
 
-    auto myVnow = su->V();
-    //!< Increase the throughput
-    const auto dt_now = dti * nOnce;
-    th.time() += dt_now;
-    ttot += dt_now;
-    th.Ah() += std::abs(I) * dt_now / 3600.0;
-    idat += nOnce;
-    th.Wh() += std::abs(I) * dt_now / 3600 * vi;
-
     //!< Store a data point if needed
     if (boolStoreData && idat >= ndt_data) {
       storeData();
-- 
2.43.0


From 79841f4a26e085968ab8830949458dd054e3784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 34/59] fix: charging at a lower current is not stopped because
 the voltage drops below the limit

---
 src/procedures/Cycler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index e9b23b6..27dbe15 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -204,9 +204,8 @@ Status Cycler::setCurrent(double I, double vlim)
   //!< check if the voltage limit was exceeded while setting the current
   if (I < 0 && Vini <= vlim && Vnew > vlim) //!< charging -> exceeded if Vini < vlim  & Vnew > vlim
     return Status::ReachedVoltageLimit;
-  else {
-    if (Vini >= vlim && Vnew < vlim) return Status::ReachedVoltageLimit; //!< #TODO why Vini check?
-  }
+  else if (I > 0 && Vini >= vlim && Vnew < vlim) //!< discharging -> exceeded if Vini > vlim & Vnew < vlim
+    return Status::ReachedVoltageLimit;          //!< #TODO why Vini check?
 
   return Status::Success; //!< if none of the above, we could set the current without exceeding any voltage limit
 }
-- 
2.43.0


From 764e0540100310c2b2136d4a712b573474e1da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 35/59] fix: a constant-voltage phase reports the time it took

---
 src/procedures/Cycler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 27dbe15..8ba11ab 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -459,6 +459,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
     const auto dAh = std::abs(su->I() * dti / 3600.0);
     vi = su->V();
     ttot += dti;
+    th.time() += dti;
     th.Ah() += dAh;
     th.Wh() += dAh * vi;
 
-- 
2.43.0


From 011102f96bbe1f2b9de7f13b7117cedf1d54a239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 36/59] fix: a constant-current phase ends at the safety
 voltage limits, as documented

---
 src/procedures/Cycler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 8ba11ab..f9b4b4d 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -323,6 +323,11 @@ Status Cycler::CC(double I, double vlim, double tlim, double dt, int ndt_data, T
       break;
     }
 
+    //!< check the safety limit of the cycler
+    const auto safetyStatus = free::check_safety(vi, *this);
+    if ((I < 0 && safetyStatus == Status::VMAXsafety_violation) || (I > 0 && safetyStatus == Status::VMINsafety_violation))
+      return safetyStatus;
+
     //!< #TODO this is pretty much unnecessary.
     // Check if the given limit at the beginning inside voltage limits.
     // Otherwise clamp!
-- 
2.43.0


From ea578525b7d03dbe05963eb0dc3ca3c6d2731326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:57 +0000
Subject: [PATCH 37/59] fix: a constant-voltage phase whose steps add up to
 just below the time limit reports the time limit instead of throwing

---
 src/procedures/Cycler.cpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index f9b4b4d..d31186a 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -499,22 +499,12 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   //!< *********************************************************** TERMINATE ******************************************************************************
   //!< check why we stopped the time integration
   Status succ;
-  if (ttot >= tlim)
+  if (ttot >= tlim || !Itot)         //!< all time steps were taken (their sum may be slightly below tlim due to rounding)
     succ = Status::ReachedTimeLimit; //!< time limit
-  else if (Itot)                     //!< #TODO why a bool named Itot? It looks like double.
-  {
-    if (Vtolerance)
-      succ = Status::ReachedCurrentLimit; //!< current limit
-    else
-      succ = Status::ReachedSmallCurrent; //!< #TODO is this ever possible? current became way too small, but voltage limit still not reached
-  } else {
-    if constexpr (settings::printBool::printCrit)
-      std::cerr << "Error in Cycler::CV, stopped time integration for unclear reason after "
-                << ttot << "s and voltage " << vi << "V, we were running with time limit " << tlim
-                << " and current limit " << Ilim << "V and set voltage " << Vset << '\n';
-
-    throw 100;
-  }
+  else if (Vtolerance)
+    succ = Status::ReachedCurrentLimit; //!< current limit
+  else
+    succ = Status::ReachedSmallCurrent; //!< #TODO is this ever possible? current became way too small, but voltage limit still not reached
 
   //!< store data point
   if (boolStoreData)
-- 
2.43.0


From dce2cc582056ede1c5e1263e6b1e45ff2c831923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 38/59] fix: a constant-voltage phase stops when the voltage
 cannot be held instead of stepping on at another voltage

---
 src/procedures/Cycler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index d31186a..2c90ee0 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -444,7 +444,9 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
   bool reach;
 
   for (size_t i = 0; i < nt; i++) {
-    su->setVoltage(Vset);
+    const auto voltageStatus = su->setVoltage(Vset);
+    if (isStatusBad(voltageStatus)) //!< the voltage cannot be held
+      return voltageStatus;
 
     //!< change length of the time step in the last iteration to get exactly tlim seconds
     if (i + 1 == nt)
-- 
2.43.0


From fdf513e336bdd54a5bca0648b828363e11efb227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 39/59] fix: the capacity test measures a copy without
 degradation, so the unit is as before the test (as documented)

---
 src/procedures/Cycler.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index 2c90ee0..aa71d45 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -594,12 +594,11 @@ double Cycler::testCapacity(double &Ah, double &ttot)
   constexpr double crate = 1.0 / 25.0;
   ThroughputData th1{}, th2{};
 
-  std::vector<double> sini; //!< #TODO if it is avoidable.
-  sini.clear();
-
-  su->getStates(sini);
-
-  std::span<double> sini_span{ sini };
+  //!< measure a copy without degradation, so the connected SU keeps its states, settings, statistics and history
+  std::unique_ptr<StorageUnit> su_copy{ su->copy() };
+  su_copy->setBlockDegAndTherm(true);
+  Cycler cyc(su_copy.get(), ID);
+  cyc.setDiagnostic(diagnostic);
   //!< #TODO once we introduce a different temperature, set T to Tref
 
   //!< *********************************************************** 2 full charge / discharge cycle ***********************************************************************
@@ -607,22 +606,19 @@ double Cycler::testCapacity(double &Ah, double &ttot)
   //!< fully charge and discharge the cell
   const auto cap = su->Cap();
   //!< fully charge battery to its specified maximum voltage )
-  auto status = CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
-  ttot += th1.time();
+  auto status = cyc.CC(-crate * cap, su->Vmax(), TIME_INF, dt, 0, th1);
+  ttot = th1.time();
 
   if (status != Status::ReachedVoltageLimit) {
     if constexpr (settings::printBool::printCrit)
       std::cout << "Error in a subfunction of Cycler::getCapacity "
                 << getStatusMessage(status) << ".\n";
 
-    //!< restore the original states
-    su->setStates(sini_span, false, true);
-
     return 0;
   }
 
   //!< fully discharge the battery
-  status = CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
+  status = cyc.CC(crate * cap, su->Vmin(), TIME_INF, dt, 0, th2);
   ttot += th2.time();
 
   if (status != Status::ReachedVoltageLimit) {
@@ -630,8 +626,6 @@ double Cycler::testCapacity(double &Ah, double &ttot)
       std::cout << "Error in a subfunction of Cycler::getCapacity "
                 << getStatusMessage(status) << ".\n";
 
-    //!< restore the original states
-    su->setStates(sini_span, false, true);
     return 0;
   }
 
-- 
2.43.0


From 4ddfbed956d7d45cf8518b546228baf401b1ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 40/59] fix: the converter's switching losses are the same for
 charging and discharging

---
 src/power_conversion/Converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/power_conversion/Converter.cpp b/src/power_conversion/Converter.cpp
index 01d546b..0943b80 100644
--- a/src/power_conversion/Converter.cpp
+++ b/src/power_conversion/Converter.cpp
@@ -88,7 +88,7 @@ double Converter::getLosses(double Vin, double Iin)
   double Vce = a + b * (std::abs(Iin) - c);            //!< voltage across the diode (i.e. resistive voltage drop across it, random guess about 0.1%)
   double D = 1 + 2 * Vin / Vdc;                        //!< modulation ratio
   double Eon = 0;                                      //!< switch-on loss. 0 since this is a diode
-  double Eoff = (as + bs * std::abs(Iin - cs)) * 1e-3; //!< energy loss for switch off
+  double Eoff = (as + bs * std::abs(std::abs(Iin) - cs)) * 1e-3; //!< energy loss for switch off
   double DC_cond = Iin * Vce * D;                      //!< conduction losses
   double DC_switch = f * (Eoff + Eon);                 //!< switching losses
   const double Idc = Iin * Vin / Vdc;                  //!< current on the DC bus (ignoring losses)
@@ -105,7 +105,7 @@ double Converter::getLosses(double Vin, double Iin)
   }
   Vce = a + b * (std::abs(Idc) - c);
   D = 1 + 2 * Vdc / Vac; //!< modulation ratio
-  Eon = (as + bs * (std::abs(Idc - cs))) * 1e-3;
+  Eon = (as + bs * (std::abs(std::abs(Idc) - cs))) * 1e-3;
   Eoff = Eon + 1e-3;                       //!< https://www.infineon.com/dgdl/Infineon-FS150R12KE3-DS-v03_01-en_de.pdf?fileId=db3a304412b407950112b4311d745388
   double AC_cond = Idc * Vce * D;          //!< conduction losses (already has full current so already account for all 6 IGBTs)
   double AC_switch = 6 * f * (Eoff + Eon); //!< switching losses: 6 IGBTs for 3 phase full bridge converter
-- 
2.43.0


From d09591fc2fb5ca5a704273a0d2f10856cb419f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 41/59] fix: a battery reports the highest and lowest cell
 voltage, not multiples of them

---
 src/system/Battery.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 1677950..2e0588f 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -72,8 +72,8 @@ public:
   double getOCV() override { return cells->getOCV() * nseries; }
   double V() override { return cells->V() * nseries; }
   Status checkVoltage(double &v, bool print) noexcept override;      //!< get the voltage and check if it is valid
-  double getVhigh() override { return cells->getVhigh() * nseries; } //!< return the voltage of the cell with the highest voltage
-  double getVlow() override { return cells->getVlow() * nseries; }   //!< return the voltage of the cell with the lowest voltage
+  double getVhigh() override { return cells->getVhigh(); } //!< return the voltage of the cell with the highest voltage
+  double getVlow() override { return cells->getVlow(); }   //!< return the voltage of the cell with the lowest voltage
 
   //!< thermal model
   double T() override { return cool->T(); }
-- 
2.43.0


From 0e9576060548a4ac9aad70fc68348df0e2b143e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 42/59] fix: a battery container takes up the heat of every
 copy of its module

---
 src/system/Battery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 46e17f0..61e2901 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -182,7 +182,7 @@ double Battery::thermalModel(int Nneighb, double Tneighb[], double Kneighb[], do
     double Tcells = cells->thermalModel(1, Tsu, Ksu, Asu, tim);
 
     //!< The battery heats up from cooling all cells
-    double Echildren = Ksu[0] * Asu[0] * (cells->T() - T()) * tim; //!< cooling energy extracted from the children
+    double Echildren = Ksu[0] * Asu[0] * (cells->T() - T()) * tim * nseries * nparallel; //!< cooling energy extracted from the children (all copies of the module)
     //!< double Qcells = Echildren;
 
     //!< and from the losses in the converter
-- 
2.43.0


From e952a15d48e717139e17556f9c5a51a7446f4e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 43/59] fix: rows of data files written in several goes are not
 merged into one line

---
 src/utility/free_functions.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility/free_functions.hpp b/src/utility/free_functions.hpp
index 176052b..b36470d 100644
--- a/src/utility/free_functions.hpp
+++ b/src/utility/free_functions.hpp
@@ -65,6 +65,9 @@ inline void write_data(std::ofstream &file, std::vector<double> &data, size_t N
     file << data[i];
   }
 
+  if (!data.empty())
+    file << '\n'; //!< what is written next starts on a new line.
+
   data.clear(); //!< reset the index to 0 since we can overwrite the stored data
 }
 
-- 
2.43.0


From a35457c4b27c639aea7076addfbc0232ae16351b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 44/59] fix: histograms of cells can be written (the storage
 level did not compile)

---
 src/types/data_storage/CellDataWriter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/types/data_storage/CellDataWriter.hpp b/src/types/data_storage/CellDataWriter.hpp
index 546cd25..61c688d 100644
--- a/src/types/data_storage/CellDataWriter.hpp
+++ b/src/types/data_storage/CellDataWriter.hpp
@@ -43,7 +43,9 @@ void writeDataImpl(std::ofstream &file, auto &cell, auto &dataStorage)
   if constexpr (settings::data::writeCumulativeData)
     writeVarAndStates(file, cell);
 
-  if constexpr (N >= settings::cellDataStorageLevel::storeHistogramData)
+  if constexpr (N == settings::cellDataStorageLevel::storeHistogramData)
+    writeData(file, std::span<Histogram<>>{ dataStorage.data });
+  else if constexpr (N >= settings::cellDataStorageLevel::storeTimeData)
     free::write_data(file, dataStorage.data, 7);
   //!< else write nothing.
 }
-- 
2.43.0


From f55c98a1f9a85dbd3c6be8a90b4a5d604d8d273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 45/59] fix: air-conditioning data is stored, and mean cooling
 powers are those since the previous sample

---
 src/cooling/data_storage/CoolSystemData.cpp      | 5 +++++
 src/cooling/data_storage/CoolSystem_HVACData.cpp | 3 +++
 src/cooling/data_storage/CoolSystem_HVACData.hpp | 4 ++--
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cooling/data_storage/CoolSystemData.cpp b/src/cooling/data_storage/CoolSystemData.cpp
index ae89822..158f1f6 100644
--- a/src/cooling/data_storage/CoolSystemData.cpp
+++ b/src/cooling/data_storage/CoolSystemData.cpp
@@ -67,6 +67,11 @@ void CoolSystemData::storeData(CoolSystem &cs, CoolSystemInst_t &data)
                    cData.Qevac / cData.time, //!< cooling power
                    cData.E / cData.time,     //!< operating energy
                    cs.getFlr() });           //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.E = 0;
+  cData.Qevac = 0;
+  cData.time = 0;
 }
 
 //!< ----- writeData ------
diff --git a/src/cooling/data_storage/CoolSystem_HVACData.cpp b/src/cooling/data_storage/CoolSystem_HVACData.cpp
index 39a6afd..fa3cd81 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.cpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.cpp
@@ -57,6 +57,9 @@ void CoolSystem_HVACData::storeData(CoolSystem_HVAC &cs, CoolSystem_HVACInst_t &
   const double Eacmean = cData.Eac / cs.coolData.cData.time;
 
   data.push_back({ cs.Q_ac, Eacmean }); //!< flow rate
+
+  //!< reset variables to calculate the mean
+  cData.Eac = 0;
 }
 
 //!< ----- writeData ------
diff --git a/src/cooling/data_storage/CoolSystem_HVACData.hpp b/src/cooling/data_storage/CoolSystem_HVACData.hpp
index 9203957..253501f 100644
--- a/src/cooling/data_storage/CoolSystem_HVACData.hpp
+++ b/src/cooling/data_storage/CoolSystem_HVACData.hpp
@@ -17,8 +17,8 @@ class CoolSystem_HVAC;
 
 struct CoolSystem_HVACData
 {
-  CoolSystem_HVACCumulative cData;              //!< Cumulative variables.
-  [[no_unique_address]] CoolSystemData_t tData; //!< Time data (histogram or basic data)
+  CoolSystem_HVACCumulative cData;                   //!< Cumulative variables.
+  [[no_unique_address]] CoolSystem_HVACData_t tData; //!< Time data (histogram or basic data)
 
 public:
   void initialise(CoolSystem_HVAC &cs, double Qac_per_cell); //!< Do nothing.
-- 
2.43.0


From 2c9207fa7249013a0e2aed995135ac2af57f0fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 46/59] fix: battery data can be stored (the storage level did
 not compile)

---
 src/system/Battery.cpp | 2 +-
 src/system/Battery.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index 61e2901..ab880b1 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -279,7 +279,7 @@ void Battery::storeData()
 //!< store local data
 #if DATASTORE_BATT == 2
   //!< add a new point in all the arrays
-  batData.push_back({ I(), V(), T(), conv->getLosses(V(), I()), timetot });
+  batData.push_back({ timetot, I(), V(), T(), conv.getLosses(V(), I()) });
 #endif
 }
 void Battery::writeData(const std::string &prefix)
diff --git a/src/system/Battery.hpp b/src/system/Battery.hpp
index 2e0588f..c67fd16 100644
--- a/src/system/Battery.hpp
+++ b/src/system/Battery.hpp
@@ -32,7 +32,7 @@ protected:
 
 #if DATASTORE_BATT > 1
   double timetot{ 0 }; //!< time so far [s]
-  BatteryData batData;
+  std::vector<BatteryData> batData;
 #endif
 
 public:
-- 
2.43.0


From de5fec2839943f4e8f8a2afd6116c27936b7ea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 47/59] fix: cumulative throughput of modules is recorded

---
 src/modules/Module.hpp   | 13 ++++++++++++-
 src/modules/Module_p.cpp |  2 ++
 src/modules/Module_s.cpp |  2 ++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index 8b3a3a3..d5ae86c 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -55,7 +55,7 @@ protected:
   bool par{ true };            //!< if true, some functions will be calculated parallel using multithreaded computing
                                //!< data storage
 
-  State<0, settings::data::N_CumulativeModule> st_module;
+  State<0, settings::data::N_CumulativeModule> st_module{};
   std::vector<double> data; //!< Time data
 
 
@@ -69,6 +69,17 @@ protected:
     return Ncells = transform_sum(SUs, free::get_Ncells<SU_t>);
   }
 
+  //!< add a time step at constant current to the cumulative throughput of this module
+  void storeThroughput(double dt)
+  {
+    if constexpr (settings::DATASTORE_MODULE >= settings::moduleDataStorageLevel::storeCumulativeData) {
+      const double dAh = std::abs(I() * dt) / 3600.0;
+      st_module.time() += dt;
+      st_module.Ah() += dAh;
+      st_module.Wh() += dAh * V();
+    }
+  }
+
   double thermalModel_cell();
   double thermalModel_coupled(int Nneighbours, double Tneighbours[], double Kneighbours[], double Aneighb[], double tim);
 
diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index d91a60b..15dca93 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -361,6 +361,8 @@ void Module_p::timeStep_CC(double dt, int nstep)
     auto status = redistributeCurrent(false, true); //!< don't check the currents
     throw 100000;                                   //!< #TODO
   }
+
+  storeThroughput(nstep * dt);
 }
 
 } // namespace slide
\ No newline at end of file
diff --git a/src/modules/Module_s.cpp b/src/modules/Module_s.cpp
index 64639f7..0dc43e6 100644
--- a/src/modules/Module_s.cpp
+++ b/src/modules/Module_s.cpp
@@ -190,6 +190,8 @@ setT(thermalModel(1, Tneigh, Kneigh, Aneigh, therm.time));*/
   }
 
   Vmodule_valid = false; //!< we have changed the SOC/concnetration, so the stored voltage is no longer valid
+
+  storeThroughput(nstep * dt);
 }
 
 } // namespace slide
\ No newline at end of file
-- 
2.43.0


From cc069c86b289bfda7415d328a3e9fda69f899145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 48/59] fix: cooling data of modules and batteries is written

---
 src/modules/Module.hpp | 7 +++----
 src/system/Battery.cpp | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/modules/Module.hpp b/src/modules/Module.hpp
index d5ae86c..407095b 100644
--- a/src/modules/Module.hpp
+++ b/src/modules/Module.hpp
@@ -177,10 +177,9 @@ public:
       file.close();
     }
 
-//!< Write data for the cooling system
-#if 0 //!< (DATASTORE_COOL > 0)
-			cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
-#endif
+    //!< Write data for the cooling system
+    if constexpr (settings::DATASTORE_COOL > 0)
+      cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
   }
 
   void setBlockDegAndTherm(bool block) override
diff --git a/src/system/Battery.cpp b/src/system/Battery.cpp
index ab880b1..2fa9668 100644
--- a/src/system/Battery.cpp
+++ b/src/system/Battery.cpp
@@ -285,10 +285,9 @@ void Battery::storeData()
 void Battery::writeData(const std::string &prefix)
 {
 
-//!< Write data for the cooling system
-#if 0 //!< DATASTORE_COOL > 0
-		cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
-#endif
+  //!< Write data for the cooling system
+  if constexpr (settings::DATASTORE_COOL > 0)
+    cool->writeData(prefix + '_' + getFullID()); //!< append the ID to the prefix since the cooling system does not have the ID of this module
 
   //!< write data for the cells
   cells->writeData(prefix);
-- 
2.43.0


From a090ad20180c70a771372f99472cafd087fdd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 49/59] hooks: choose the battery data storage level

---
 src/settings/settings.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/settings/settings.hpp b/src/settings/settings.hpp
index 7fc1218..b693cc9 100644
--- a/src/settings/settings.hpp
+++ b/src/settings/settings.hpp
@@ -96,8 +96,12 @@ constexpr size_t CELL_NSTATE_MAX{ 30 }; //!< maximum number of states of all typ
 // #define DATASTORE_CELL 0   //!< if 0, no cell-level data is stored
 //!< if 1, statistics about I, V and T are stored, as well as overall utilisation (throughput)
 //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
+#if defined(SLIDE_VERIF_HOOKS) && defined(SLIDE_VERIF_DATASTORE_BATT)
+#define DATASTORE_BATT SLIDE_VERIF_DATASTORE_BATT
+#else
 #define DATASTORE_BATT 0 //!< if 0, no module-level data is stored
                          //!< if 2, current, voltage, temperature, soc is stored at every time step, as well as overall utilisation (throughput)
+#endif
 
 //!< temperature
 #if defined(SLIDE_VERIF_HOOKS) && defined(SLIDE_VERIF_T_MODEL)
-- 
2.43.0


From 1f8bbba0d2c9a857943a9d734a0e3407ecded944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 50/59] fix: balance parallel branches of many cells in series
 (full corrections overshoot)

---
 src/modules/Module_p.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/modules/Module_p.cpp b/src/modules/Module_p.cpp
index 15dca93..a6855d4 100644
--- a/src/modules/Module_p.cpp
+++ b/src/modules/Module_p.cpp
@@ -22,6 +22,21 @@
 
 namespace slide {
 
+namespace {
+  //!< Factor with which the corrections of the branch currents are reduced. The voltage of a branch with many cells in series
+  //!< reacts more strongly to its current, so full corrections would overshoot more and more.
+  template <typename SUs_type>
+  double correctionFactor(const SUs_type &SUs)
+  {
+    constexpr double Vfull = 3 * 4.2; //!< full corrections converge up to about three cells in series
+    double Vbranch{ 0 };
+    for (const auto &SU : SUs)
+      Vbranch = std::max(Vbranch, SU->Vmax());
+
+    return (Vbranch > Vfull) ? Vfull / Vbranch : 1.0;
+  }
+} // namespace
+
 /**
  * @brief Calculate the total resistance of the module.
  *
@@ -114,6 +129,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
   if (nSU <= 1) return Status::Success;
 
   double Captot{ 0 };
+  const auto factor = correctionFactor(SUs);
   getVall(Va, print);
   for (size_t i = 0; i < nSU; i++) {
     Ia[i] = Ib[i] = SUs[i]->I();
@@ -137,7 +153,7 @@ Status Module_p::redistributeCurrent(bool checkV, bool print)
 
     // Update the currents based on the difference between mean and individual voltages
     for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
+      Ia[i] = Ia[i] - factor * (Vmean - Va[i]) * SUs[i]->Cap();
       const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
       if (isStatusBad(status)) {
         for (size_t j = 0; j < nSU; j++)
@@ -204,6 +220,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
       SUs[i]->setCurrent(Iolds[i], false, false);
   };
 
+  const auto factor = correctionFactor(SUs);
   const auto dI = (Inew - Itot) / nSU; // #TODO must change if charge/discharge.
 
   for (size_t i{}; i < SUs.size(); i++) {
@@ -233,7 +250,7 @@ Status Module_p::setCurrent(double Inew, bool checkV, bool print)
     }
 
     for (size_t i = 0; i < nSU; i++) {
-      Ia[i] = Ia[i] - (Vmean - Va[i]) * SUs[i]->Cap();
+      Ia[i] = Ia[i] - factor * (Vmean - Va[i]) * SUs[i]->Cap();
       const auto status = SUs[i]->setCurrent(Ia[i], checkV, print);
       if (isStatusBad(status)) {
         restoreCurrents();
-- 
2.43.0


From f8e943d1848b39a495962cbfc301e0dd6a56a4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 51/59] fix: store the throughput of each step of an ageing
 procedure, not the total so far

---
 src/procedures/Procedure.cpp | 11 +++++++----
 src/procedures/Procedure.hpp |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 3547c28..6cb1751 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -53,6 +53,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
   const double Ilim{ 0.1 }, Icha{ -Ccha * su->Cap() }, Idis{ Cdis * su->Cap() };
   Status succ{};
   ThroughputData th{};
+  th_stored = th;
 
   //!< Make a clock to measure how long the simulation takes
   Clock clk{};
@@ -184,6 +185,8 @@ void Procedure::useCaseAge(StorageUnit *su, int cool)
     std::cout << "Error in useAge when initially discharging the battery, continue as normal.\n"
               << getStatusMessage(succ) << '\n';
 
+  th_stored = th; //!< the initial discharge is no part of the first step
+
   //!< Make a clock to measure how long the simulation takes
   Clock clk;
 
@@ -277,9 +280,8 @@ void Procedure::storeThroughput(ThroughputData th, StorageUnit *su)
    * The function writethroughput will write these vectors to a file
    *
    * IN
-   * ID 	integer with an indentification of what this step was
-   * Ah	charge throughput of of the cells in this step
-   * Wh 	energy throughput of the cells in this step
+   * th 	total charge and energy throughput of the cells in this procedure after this step.
+   * 			what is stored is the throughput in this step, i.e. since the previous time something was stored
    * su 	StorageUnit after this step
    */
 
@@ -294,7 +296,8 @@ void Procedure::storeThroughput(ThroughputData th, StorageUnit *su)
     convloss = b->getAndResetConvLosses() / 3600.0;
   }
 
-  throughput.push_back({ th.Ah(), th.Wh(), coolSystemLoad, convloss });
+  throughput.push_back({ th.Ah() - th_stored.Ah(), th.Wh() - th_stored.Wh(), coolSystemLoad, convloss });
+  th_stored = th;
 }
 
 void Procedure::balanceCheckup(StorageUnit *su, bool balance, bool checkup, double Ahtot, int nrCycle, std::string pref)
diff --git a/src/procedures/Procedure.hpp b/src/procedures/Procedure.hpp
index 6b0231b..078bc94 100644
--- a/src/procedures/Procedure.hpp
+++ b/src/procedures/Procedure.hpp
@@ -28,6 +28,7 @@ protected:
   double balance_voltage{ 3.65 };
 
   std::vector<ProcedureThroughputData> throughput;
+  ThroughputData th_stored{}; //!< total throughput of the procedure when the previous step was stored
   void storeThroughput(ThroughputData th, StorageUnit *su);
 
 public:
-- 
2.43.0


From 9a24eea0e54bcb6e6852a512627345e1f319ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 52/59] fix: a rebalancing or check-up interval of zero means
 never

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 6cb1751..24e2a0c 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -66,7 +66,7 @@ void Procedure::cycleAge(StorageUnit *su, int Ncycle, int Ncheck, int Nbal, bool
                 << " and hot spot T = " << K_to_Celsius(su->getThotSpot()) << '\n';
 
     //!< Balance (in this thread) and do a check-up (on a separate thread) if needed
-    balanceCheckup(su, balance && (i % Nbal == 0), (i % Ncheck == 0), th.Ah(), i, pref);
+    balanceCheckup(su, balance && Nbal > 0 && (i % Nbal == 0), Ncheck > 0 && (i % Ncheck == 0), th.Ah(), i, pref);
 
     const auto th_before = th.Ah();
     succ = cyc.CC(Icha, Vmax, TIME_INF, dt, ndata, th); //!< CC charge
-- 
2.43.0


From fb7d27bb728981fb3d3dbb34e5bee5e3cdd11e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 53/59] fix: rebalance every kind of cell and the cells of a
 battery

---
 src/procedures/Procedure.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 24e2a0c..987f189 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -389,15 +389,16 @@ Status Procedure::rebalance(StorageUnit *su)
     for (auto &cs_k : m->getSUs()) {
       const auto status = rebalance(cs_k.get());
       if (!isStatusSuccessful(status)) {
-        const auto k = std::distance(m->getSUs()[0].get(), cs_k.get());
-        std::cout << "Error when rebalancing of SU " << k << " whose ID = "
+        std::cout << "Error when rebalancing of the SU whose ID = "
                   << cs_k->getFullID() << ", error " << getStatusMessage(status) << ".\n";
 
         return status;
       }
     }
 
-  } else if (typeid(*su) == typeid(Cell_SPM)) { // #TODO why only SPM?
+  } else if (auto b = dynamic_cast<Battery *>(su)) {
+    return rebalance(b->getCells());
+  } else if (dynamic_cast<Cell *>(su)) {
     const double Iset = su->Cap() * Cset;
     const double Ilim = su->Cap() * Clim;
     ThroughputData th{};
-- 
2.43.0


From bc0421d5265f39999a72ff2e5a7e453c4cc015cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 54/59] fix: write all check-ups to the results folder, with
 matching header and without concentrations

---
 src/procedures/Procedure.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 987f189..759d0e3 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -466,14 +466,13 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
   //  open and clear whatever was there since we want to write the most recent stats only
 
   //!< do the main checkup, which writes the throughput, capacity and state of every cell
-  const size_t start = (typeid(*cells[0]) == typeid(Cell_SPM)) ? 2 * settings::nch : 0; // #TODO : Consider having different type of cells.
   //!< Write the throughput of each cell
 
   //!< If this is the first checkup, start by writing the cell IDs and cell-to-cell parameters
   //!< else write the cumulative charge throughput
-  file.open(name, std::ios_base::app); //!< open from scratch, clear whatever was in the file before
+  file.open(PathVar::results / name, std::ios_base::app); //!< append to what previous check-ups wrote
 
-  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber";
+  file << "ID,var_cap,var_R,var_degSEI,var_degLAM,Ah,CycleNumber,";
   file << "time [s],Current throughput [Ah],Energy throughput [Wh],Capacity [Ah],States\n";
 
   for (size_t k{}; k < cells.size(); k++) {
@@ -493,9 +492,11 @@ void Procedure::checkUp(StorageUnit *su, double Ah, int nrCycle)
 
     file << th.time() << ',' << th.Ah() << ',' << th.Wh() << ',' << cap;
 
-    const auto st_view = cell->viewStates();         //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
-    for (size_t i{ start }; i < st_view.size(); i++) //!< loop for each state variable (rows)
-      file << ',' << st_view[i];
+    const auto st_view = cell->viewStates();     //!< write the state of a cell, if an SPM cell, skip the concentration states since they don't give info
+    const bool isSPM = typeid(*cell) == typeid(Cell_SPM);
+    for (size_t i{ 0 }; i < st_view.size(); i++) //!< loop for each state variable (rows)
+      if (!isSPM || i < State_SPM::i_zp || i >= State_SPM::i_rDCp)
+        file << ',' << st_view[i];
 
     file << '\n'
          << '\n';
-- 
2.43.0


From 53e3994952f9c03688423a97dd031a761e00a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 55/59] fix: write the energy histogram of the HVAC system

---
 src/procedures/Procedure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Procedure.cpp b/src/procedures/Procedure.cpp
index 759d0e3..597a82b 100644
--- a/src/procedures/Procedure.cpp
+++ b/src/procedures/Procedure.cpp
@@ -583,7 +583,7 @@ void Procedure::checkMod(StorageUnit *su)
         file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
 
         file_histograms << "Eac histogram:\n";
-        file_histograms << GetHistograms(c->HVACdata.tData).Qac << '\n';
+        file_histograms << GetHistograms(c->HVACdata.tData).Eac << '\n';
       }
     }
   };
-- 
2.43.0


From fbf63a2bc01e636b08ed421045a6607c6e19a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 56/59] fix: empty, mismatched and not-a-number OCV curves are
 illegal

---
 src/procedures/determine_OCV.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 87cf711..043dc40 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -58,6 +58,11 @@ bool validOCV(bool checkRange, slide::XYdata_vv &data)
    * bool 		true if the OCV curve has the correct format
    */
 
+  if (data.x.empty() || data.x.size() != data.y.size()) {
+    std::cerr << "illegal value in deterimineOCV::validOCV: the curve has " << data.x.size() << " and " << data.y.size() << " points in its columns.\n";
+    return false;
+  }
+
   //!< Check if the range of the first column is valid
   bool range;                                                                 //!< boolean to indicate of the first column has the correct range
   if (checkRange) {                                                           //!< check the first column has the correct range, from 0 to 1
@@ -79,7 +84,7 @@ bool validOCV(bool checkRange, slide::XYdata_vv &data)
   for (size_t i = 0; i < data.size(); i++) {
     //!< check for increasing values
     if (i > 0)
-      decreasei = (data.x[i] <= data.x[i - 1]);
+      decreasei = !(data.x[i] > data.x[i - 1]); //!< written such that not-a-number is illegal
     if (decreasei) { //!< print an error message
       std::cerr << "illegal value in deterimineOCV::validOCV: the first column has decreasing or double values at rows "
                 << i - 1 << " and " << i << ".\n"
@@ -88,7 +93,7 @@ bool validOCV(bool checkRange, slide::XYdata_vv &data)
     }
 
     //!< check for realistic voltages
-    if ((data.y[i] < 0) || (data.y[i] > 10)) { //!< print an error message
+    if (!(data.y[i] >= 0 && data.y[i] <= 10)) { //!< print an error message
       std::cerr << "illegal value in deterimineOCV::validOCV: the second column has an illegal value of "
                 << data.y[i] << " at row " << i << ". The values have to be between 0 and 10.\n";
       unrealistic = true; //!< we have found an unrealistic value
-- 
2.43.0


From 66e4b2fe602feefb305a561ff311377954d0076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 57/59] fix: a hierarchical OCV fit keeps the best fit of all
 levels

---
 src/procedures/determine_OCV.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 043dc40..3933f2f 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -32,6 +32,7 @@
 #include <cassert>
 #include <ctime>
 #include <utility>
+#include <limits>
 
 namespace slide {
 bool validOCV(bool checkRange, slide::XYdata_vv &data)
@@ -586,8 +587,8 @@ auto hierarchicalOCVfit(int hmax, slide::FixedData<double> AMp_space, slide::Fix
   std::vector<std::array<double, 4>> par_arr(AMp_space.size()); //!< parameters [AMp AMn sp sn] giving the lowest error for that amount of cathode active material
   std::vector<double> err_arr(AMp_space.size());
 
-  std::array<double, 4> par; //!< Optimal parameters.
-  double err;                //!< lowest error.
+  std::array<double, 4> par{};                         //!< Optimal parameters.
+  double err = std::numeric_limits<double>::infinity(); //!< lowest error.
 
   slide::XYdata_vv OCVp(100), OCVn(100), OCVcell(100); //!< Temp vectors
   readOCVinput(namepos, nameneg, namecell, OCVp, OCVn, OCVcell);
@@ -610,8 +611,10 @@ auto hierarchicalOCVfit(int hmax, slide::FixedData<double> AMp_space, slide::Fix
     slide::run(task_indv, AMp_space.size()); //!< Loop through the search space of AMp
 
     const auto minIndex = std::min_element(err_arr.begin(), err_arr.end()) - err_arr.begin();
-    par = par_arr[minIndex]; //!< Make the output parameters
-    err = err_arr[minIndex];
+    if (err_arr[minIndex] < err) { //!< the points of this level do not need to include the best fit of the previous levels
+      par = par_arr[minIndex];     //!< Make the output parameters
+      err = err_arr[minIndex];
+    }
 
     writeOCVParam(h, par); //!< Print the best fit, and write in a CSV file
 
-- 
2.43.0


From 3f4b3fdae8b4aa1d81b2f028252295d409fc7896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 58/59] fix: declare the OCV fitting functions as they are
 defined

---
 src/procedures/determine_OCV.cpp |  2 +-
 src/procedures/determine_OCV.hpp | 12 ++++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/procedures/determine_OCV.cpp b/src/procedures/determine_OCV.cpp
index 3933f2f..676a01b 100644
--- a/src/procedures/determine_OCV.cpp
+++ b/src/procedures/determine_OCV.cpp
@@ -548,7 +548,7 @@ void fitAMnAndStartingPoints(int hierarchy, int ap, double AMp, slide::FixedData
   *err = std::sqrt(errmin / OCVcell.size()); //!< RMSE error.
 }
 
-auto hierarchicalOCVfit(int hmax, slide::FixedData<double> AMp_space, slide::FixedData<double> AMn_space, slide::FixedData<double> sp_space,
+std::pair<std::array<double, 4>, double> hierarchicalOCVfit(int hmax, slide::FixedData<double> AMp_space, slide::FixedData<double> AMn_space, slide::FixedData<double> sp_space,
                         slide::FixedData<double> sn_space, std::string namepos, std::string nameneg, std::string namecell, double cmaxp, double cmaxn)
 {
   /*
diff --git a/src/procedures/determine_OCV.hpp b/src/procedures/determine_OCV.hpp
index f9d689e..71a419e 100644
--- a/src/procedures/determine_OCV.hpp
+++ b/src/procedures/determine_OCV.hpp
@@ -17,6 +17,7 @@
 
 #include <string>
 #include <array>
+#include <utility>
 
 namespace slide {
 bool validOCV(bool checkRange, slide::XYdata_vv &data);
@@ -28,22 +29,17 @@ void discharge(const slide::XYdata_vv &OCVp, const slide::XYdata_vv &OCVn, doubl
                const double cmaxp, const double cmaxn, double sp, double sn, double Vend, slide::XYdata_vv &OCV,
                slide::XYdata_vv &OCVanode, slide::XYdata_vv &OCVcathode, double fp[], double fn[]);
 
-auto discharge_noexcept(const slide::XYdata_vv &OCVp, const slide::XYdata_vv &OCVn, double cap, const double AMp, const double AMn,
-                        const double cmaxp, const double cmaxn, double sp, double sn, double Vend, slide::XYdata_vv &OCV,
-                        slide::XYdata_vv &OCVanode, slide::XYdata_vv &OCVcathode, double fp[], double fn[]);
-
 double calculateError(bool bound, slide::XYdata_vv &OCVcell, slide::XYdata_vv &OCVsim);
 
 void estimateOCVparameters();
 
 void writeOCVParam(int h, const std::array<double, 4> &par);
 
-void fitAMnAndStartingPoints(int hierarchy, int ap, slide::FixedData<double> AMn_space, slide::FixedData<double> sp_space,
-                             slide::FixedData<double> sn_space, double cmaxp, double cmaxn,
-                             double *err, std::array<double, 4> &par, std::array<int, 4> &parindex,
+void fitAMnAndStartingPoints(int hierarchy, int ap, double AMp, slide::FixedData<double> AMn_space, slide::FixedData<double> sp_space,
+                             slide::FixedData<double> sn_space, double cmaxp, double cmaxn, double *err, std::array<double, 4> &par,
                              slide::XYdata_vv &OCVp, slide::XYdata_vv &OCVn, slide::XYdata_vv &OCVcell);
 
-auto hierarchicalOCVfit(int hmax, slide::FixedData<double> AMp_space, slide::FixedData<double> AMn_space, slide::FixedData<double> sp_space,
+std::pair<std::array<double, 4>, double> hierarchicalOCVfit(int hmax, slide::FixedData<double> AMp_space, slide::FixedData<double> AMn_space, slide::FixedData<double> sp_space,
                         slide::FixedData<double> sn_space, std::string namepos, std::string nameneg, std::string namecell, double cmaxp, double cmaxn);
 
 } // namespace slide
\ No newline at end of file
-- 
2.43.0


From 509c8d4614f7f4e57a9dc82e7ffa2f7cb6f3eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:50 +0000
Subject: [PATCH 59/59] fix: a CV phase with a negative time limit takes no
 steps

---
 src/procedures/Cycler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procedures/Cycler.cpp b/src/procedures/Cycler.cpp
index aa71d45..eee0f26 100644
--- a/src/procedures/Cycler.cpp
+++ b/src/procedures/Cycler.cpp
@@ -434,7 +434,7 @@ Status Cycler::CV(double Vset, double Ilim, double tlim, double dt, int ndt_data
 
   //!< *******************************************************  apply voltage  ****************************************************************************
 
-  const auto nt = static_cast<size_t>(std::ceil(tlim / dt)); //!< number of time steps
+  const auto nt = static_cast<size_t>(std::clamp(std::ceil(tlim / dt), 0.0, 1e15)); //!< number of time steps, limited before conversion to the range of integers
 
   double dti = dt;         //!< length of time step i
   double ttot = 0;         //!< total time done
-- 
2.43.0

