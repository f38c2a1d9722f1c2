From 2fdcca303a2154b607cd9fd8b23b197e167a3aae Mon Sep 17 00:00:00 2001
From: vp <vp@x>
Date: Wed, 18 Nov 2026 20:16:08 +0000
Subject: [PATCH 01/60] fix: sum Cv, U and A over all reactants in
 thermoPropertiesReactionFromReactants

---
 ThermoFun/ThermoEngine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 57ebee0..da82164 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -818,9 +818,9 @@ struct ThermoEngine::Impl
             tpr.reaction_volume             += tps.volume*coeff;
             tpr.ln_equilibrium_constant     = tpr.reaction_gibbs_energy / -(R_CONSTANT*(T));
             tpr.log_equilibrium_constant    = tpr.ln_equilibrium_constant * ln_to_lg;
-            tpr.reaction_heat_capacity_cv = tps.heat_capacity_cv*coeff;
-            tpr.reaction_internal_energy  = tps.internal_energy*coeff;
-            tpr.reaction_helmholtz_energy = tps.helmholtz_energy*coeff;
+            tpr.reaction_heat_capacity_cv += tps.heat_capacity_cv*coeff;
+            tpr.reaction_internal_energy  += tps.internal_energy*coeff;
+            tpr.reaction_helmholtz_energy += tps.helmholtz_energy*coeff;
 
             setMessage(tps.heat_capacity_cp.sta.first, "Cp of component " + substance, message+tps.heat_capacity_cp.sta.second, tpr.reaction_heat_capacity_cp.sta.second);
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.reaction_gibbs_energy.sta.second);
-- 
2.43.0


From 3b90386cfe55acb3605acfef8aa4f5bc02165657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:59 +0000
Subject: [PATCH 02/60] fix: key the memoized properties by argument values and
 replay the pressure a call computed

---
 ThermoFun/OptimizationUtils.h | 65 ++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 24 deletions(-)

diff --git a/ThermoFun/OptimizationUtils.h b/ThermoFun/OptimizationUtils.h
index b6cea7a..b78e829 100644
--- a/ThermoFun/OptimizationUtils.h
+++ b/ThermoFun/OptimizationUtils.h
@@ -11,13 +11,24 @@ namespace ThermoFun {
 template <typename Ret, typename... Args>
 auto memoize(std::function<Ret(Args...)> f) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
+    // the key and the stored results hold copies of the argument values, never references to the caller's variables
+    using Key = std::tuple<std::decay_t<Args>...>;
+    // the result together with the values the call left in its arguments
+    auto cache = std::make_shared<std::map<Key, std::pair<Ret, Key>>>();
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...);
-        if(cache->find(t) == cache->end())
-            (*cache)[t] = f(args...);
-        return (*cache)[t];
+        const Key t(args...);
+        if (!(t == t)) // NaN arguments cannot be ordered
+            return f(args...);
+        auto it = cache->find(t);
+        if (it == cache->end())
+        {
+            Ret result = f(args...);
+            it = cache->emplace(t, std::make_pair(result, Key(args...))).first;
+        }
+        else
+            std::tie(args...) = it->second.second;
+        return it->second.first;
     };
 }
 
@@ -52,33 +63,39 @@ auto dereference(const std::shared_ptr<std::function<Ret(Args...)>>& f) -> std::
 template <typename Ret, typename... Args>
 auto memoizeN(std::function<Ret(Args...)> f, size_t max_cache_size) -> std::function<Ret(Args...)>
 {
-    auto cache = std::make_shared<std::map<std::tuple<Args...>, Ret>>();
-    std::list<std::tuple<Args...>> usage_order; // List to track the order of usage for LRU cache management
+    // the key and the stored results hold copies of the argument values, never references to the caller's variables
+    using Key = std::tuple<std::decay_t<Args>...>;
+    // the result together with the values the call left in its arguments
+    auto cache = std::make_shared<std::map<Key, std::pair<Ret, Key>>>();
+    auto usage_order = std::make_shared<std::list<Key>>(); // List to track the order of insertion for cache management
 
     return [=](Args... args) mutable -> Ret
     {
-        std::tuple<Args...> t(args...); // Create a tuple key from the arguments
-
-        // Check cache size and evict the least recently used item if necessary before adding
-        if (cache->size() >= max_cache_size) {
-            if (!usage_order.empty()) {
-                std::tuple<Args...> lru_t = usage_order.back(); // Get the least recently used key
-                usage_order.pop_back();                           // Remove from usage order
-                cache->erase(lru_t);                             // Remove from cache
+        const Key t(args...); // Create a tuple key from the arguments
+        if (!(t == t)) // NaN arguments cannot be ordered
+            return f(args...);
+
+        auto it = cache->find(t);
+        if (it == cache->end()) // t not found; compute the result
+        {
+            Ret result = f(args...);
+
+            // Evict the oldest items if necessary before adding
+            while (cache->size() >= max_cache_size && !usage_order->empty())
+            {
+                cache->erase(usage_order->back());
+                usage_order->pop_back();
             }
-        }
 
-        // Check if result is already in cache
-        if (cache->find(t) == cache->end()) { // t not found; compute the result
-            (*cache)[t] = f(args...); // Cache the result
-            usage_order.push_front(t); // Track the usage order
+            it = cache->emplace(t, std::make_pair(result, Key(args...))).first; // Cache the result
+            usage_order->push_front(t); // Track the insertion order
         }
-        
-        return (*cache)[t]; // Return the cached result
+        else
+            std::tie(args...) = it->second.second;
+
+        return it->second.first; // Return the cached result
     };
 }
 
-
-
 } // namespace ThermoFun
 
-- 
2.43.0


From 8bc2422dd65e090041a0786a08b794d72dc5129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:03 +0000
Subject: [PATCH 03/60] fix: queries no longer change the engine's preferences

---
 ThermoFun/ThermoEngine.cpp | 155 +++++++++++++++++++------------------
 1 file changed, 79 insertions(+), 76 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index da82164..ba420dc 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -44,10 +44,13 @@ struct WorkPreferences
     bool isH2OSolvent = false;
     bool isReacDC = false;
     bool isReacFromReactants = false;
+
+    int solvent_state = 0;      // 0: liquid; 1: vapor
+    std::string solvent_symbol; // the solvent of the aqueous species
 };
 
 using ThermoPropertiesSubstanceFunction =
-    std::function<ThermoPropertiesSubstance(double, double, double &, std::string)>;
+    std::function<ThermoPropertiesSubstance(double, double, double &, std::string, bool)>;
 
 using ElectroPropertiesSolventFunction =
     std::function<ElectroPropertiesSolvent(double, double, double &, std::string, int)>;
@@ -63,11 +66,9 @@ struct ThermoEngine::Impl
     /// The database instance
     Database database;
 
-    mutable EnginePreferences preferences;
-
-    mutable WorkPreferences prefs;
+    EnginePreferences preferences;
 
-    mutable EngineConventions conventions;
+    EngineConventions conventions;
 
     ThermoPropertiesSubstanceFunction thermo_properties_substance_fn;
 
@@ -90,9 +91,9 @@ struct ThermoEngine::Impl
 
     void set_fn()
     {
-        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol) {
+        thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool apply_p) {
             auto x = P_;
-            return thermoPropertiesSubstance(T, P, symbol);
+            return thermoPropertiesSubstance(T, P, symbol, apply_p);
         };
 
         electro_properties_solvent_fn = [=, this](double T, double P_, double &P, std::string symbol, int state) {
@@ -142,6 +143,21 @@ struct ThermoEngine::Impl
         tps.gibbs_energy -= (Tr * entropyElements);
     }
 
+    // the set solvent, or if it is not in the database the solvent that is
+    auto solventSymbol() const -> std::string
+    {
+        std::string symbol = preferences.solvent_symbol;
+        if (!database.containsSubstance(symbol))
+        {
+            for (const auto& pair : database.mapSubstances()) {
+                if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
+                    symbol = pair.first;
+                }
+            }
+        }
+        return symbol;
+    }
+
     auto getThermoPreferencesReaction(const Reaction &reaction) const -> WorkPreferences
     {
         WorkPreferences preferences;
@@ -150,6 +166,7 @@ struct ThermoEngine::Impl
         preferences.method_genEOS = preferences.workReaction.methodGenEOS();
         preferences.method_T = preferences.workReaction.method_T();
         preferences.method_P = preferences.workReaction.method_P();
+        preferences.solvent_symbol = solventSymbol();
 
         // if no method is present try to calculate properties of reaction from reactants
         if ((!preferences.method_genEOS && !preferences.method_P && !preferences.method_T))
@@ -186,9 +203,9 @@ struct ThermoEngine::Impl
 
         // set solvent state
         if (workPreferences.workSubstance.aggregateState() == AggregateState::type::GAS)
-            preferences.solvent_state = 1; // vapor
+            workPreferences.solvent_state = 1; // vapor
         else
-            preferences.solvent_state = 0; // liquid
+            workPreferences.solvent_state = 0; // liquid
 
         bool noMethods =
             !workPreferences.method_genEOS &&
@@ -209,29 +226,18 @@ struct ThermoEngine::Impl
         else
             workPreferences.isReacDC = false;
 
-        // check if substance is aq solute and needs a solvent
-        if (workPreferences.workSubstance.substanceClass() == SubstanceClass::type::AQSOLUTE)
-        {
-            // see if default solvent is in the database if not search for solvent
-            if (!database.containsSubstance(preferences.solvent_symbol))
-            {
-                for (const auto& pair : database.mapSubstances()) {
-                    if (pair.second.substanceClass() == SubstanceClass::type::AQSOLVENT) {
-                        preferences.solvent_symbol = pair.first;
-                    }
-                }
-            }
-        }
+        workPreferences.solvent_symbol = solventSymbol();
 
         return workPreferences;
     }
 
-    auto thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
+    // apply_p: make the pressure/fugacity correction in the properties of gases
+    auto thermoPropertiesSubstance(double T, double &P, std::string substance, bool apply_p) const -> ThermoPropertiesSubstance
     {
-        return thermoPropertiesSubstance(T, P, database.getSubstance(substance));
+        return thermoPropertiesSubstance(T, P, database.getSubstance(substance), apply_p);
     }
 
-    auto thermoPropertiesSubstance(double T, double &P, const Substance &substance) const -> ThermoPropertiesSubstance
+    auto thermoPropertiesSubstance(double T, double &P, const Substance &substance, bool apply_p) const -> ThermoPropertiesSubstance
     {
         WorkPreferences pref = getThermoPreferencesSubstance(substance);
         ThermoPropertiesSubstance tps;
@@ -268,26 +274,26 @@ struct ThermoEngine::Impl
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKF:
                 {
-                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFgems(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, pref.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, pref.solvent_symbol, -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HKFR:
                 {
-                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    tps = SoluteHKFreaktoro(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(T, P, P, pref.solvent_symbol, -1), electro_properties_solvent_fn(T, P, P, pref.solvent_symbol, -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_HP98:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(pref.solvent_symbol).referenceP();
+                    double Tr = database.getSubstance(pref.solvent_symbol).referenceT();
+                    tps = SoluteHollandPowell98(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, pref.solvent_symbol, -1), properties_solvent_fn(T, P, P, pref.solvent_symbol, -1));
                     break;
                 }
                 case MethodGenEoS_Thrift::type::CTPM_AN91:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1), properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(pref.solvent_symbol).referenceP();
+                    double Tr = database.getSubstance(pref.solvent_symbol).referenceT();
+                    tps = SoluteAnderson91(pref.workSubstance).thermoProperties(T, P, properties_solvent_fn(Tr, Pr, Pr, pref.solvent_symbol, -1), properties_solvent_fn(T, P, P, pref.solvent_symbol, -1));
                     break;
                 }
                     //                default:
@@ -321,14 +327,14 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrP_Thrift::type::CPM_AKI:
                 {
-                    double Pr = database.getSubstance(preferences.solvent_symbol).referenceP();
-                    double Tr = database.getSubstance(preferences.solvent_symbol).referenceT();
-                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, preferences.solvent_symbol),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(T, P),
-                                                                                        properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1),
-                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, preferences.solvent_symbol),
-                                                                                        WaterIdealGasWoolley(database.getSubstance(preferences.solvent_symbol)).thermoProperties(Tr, Pr),
-                                                                                        properties_solvent_fn(Tr, Pr, Pr, preferences.solvent_symbol, -1));
+                    double Pr = database.getSubstance(pref.solvent_symbol).referenceP();
+                    double Tr = database.getSubstance(pref.solvent_symbol).referenceT();
+                    tps = SoluteAkinfievDiamondEOS(pref.workSubstance).thermoProperties(T, P, tps, thermo_properties_substance_fn(T, P, P, pref.solvent_symbol, apply_p),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(pref.solvent_symbol)).thermoProperties(T, P),
+                                                                                        properties_solvent_fn(T, P, P, pref.solvent_symbol, -1),
+                                                                                        thermo_properties_substance_fn(Tr, Pr, Pr, pref.solvent_symbol, apply_p),
+                                                                                        WaterIdealGasWoolley(database.getSubstance(pref.solvent_symbol)).thermoProperties(Tr, Pr),
+                                                                                        properties_solvent_fn(Tr, Pr, Pr, pref.solvent_symbol, -1));
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_CEH:
@@ -348,37 +354,37 @@ struct ThermoEngine::Impl
                 }
                 case MethodCorrP_Thrift::type::CPM_CORK:
                 {
-                    tps = GasCORK(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasCORK(pref.workSubstance).thermoProperties(T, P, tps, apply_p);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_PRSV:
                 {
-                    tps = GasPRSV(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasPRSV(pref.workSubstance).thermoProperties(T, P, tps, apply_p);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_EMP:
                 {
-                    tps = GasCGF(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasCGF(pref.workSubstance).thermoProperties(T, P, tps, apply_p);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_SRK:
                 {
-                    tps = GasSRK(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasSRK(pref.workSubstance).thermoProperties(T, P, tps, apply_p);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_PR78:
                 {
-                    tps = GasPR78(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasPR78(pref.workSubstance).thermoProperties(T, P, tps, apply_p);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_STP:
                 {
-                    tps = GasSTP(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = GasSTP(pref.workSubstance).thermoProperties(T, P, tps, apply_p);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_OFF:
                 {
-                    tps = IdealGasLawVol(pref.workSubstance).thermoProperties(T, P, tps, preferences.apply_pressure_correction_to_gas_props);
+                    tps = IdealGasLawVol(pref.workSubstance).thermoProperties(T, P, tps, apply_p);
                     break;
                 }
                 case MethodCorrP_Thrift::type::CPM_CON: // Molar volume assumed independent of T and P
@@ -404,22 +410,22 @@ struct ThermoEngine::Impl
                 {
                 case MethodCorrT_Thrift::type::CTM_WAT:
                 {
-                    tps = WaterHGK(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterHGK(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WAR:
                 {
-                    tps = WaterHGKreaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterHGKreaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WWP:
                 {
-                    tps = WaterWP95reaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state, water_triple_reference);
+                    tps = WaterWP95reaktoro(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state, water_triple_reference);
                     break;
                 }
                 case MethodCorrT_Thrift::type::CTM_WZD:
                 {
-                    tps = WaterZhangDuan2005(pref.workSubstance).thermoPropertiesSubstance(T, P, preferences.solvent_state);
+                    tps = WaterZhangDuan2005(pref.workSubstance).thermoPropertiesSubstance(T, P, pref.solvent_state);
                     break;
                 }
                 default:
@@ -500,8 +506,8 @@ struct ThermoEngine::Impl
     {
         WorkPreferences pref = getThermoPreferencesSubstance(solvent);
         if (state>-1 && state<2)
-            preferences.solvent_state = state;
-        PropertiesSolvent ps = propertiesSolvent(T, P, solvent, preferences.solvent_state);
+            pref.solvent_state = state;
+        PropertiesSolvent ps = propertiesSolvent(T, P, solvent, pref.solvent_state);
         ElectroPropertiesSolvent eps;
 
         if (pref.isH2OSolvent)
@@ -510,22 +516,22 @@ struct ThermoEngine::Impl
             {
             case MethodGenEoS_Thrift::type::CTPM_WJNR:
             {
-                eps = WaterJNreaktoro(pref.workSubstance).electroPropertiesSolvent(T, P, ps, preferences.solvent_state);
+                eps = WaterJNreaktoro(pref.workSubstance).electroPropertiesSolvent(T, P, ps, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WJNG:
             {
-                eps = WaterJNgems(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterJNgems(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WSV14:
             {
-                eps = WaterElectroSverjensky2014(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterElectroSverjensky2014(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
             case MethodGenEoS_Thrift::type::CTPM_WF97:
             {
-                eps = WaterElectroFernandez1997(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, preferences.solvent_state);
+                eps = WaterElectroFernandez1997(pref.workSubstance).electroPropertiesSolvent(T, P /*, ps*/, pref.solvent_state);
                 break;
             }
                 //            default:
@@ -545,7 +551,7 @@ struct ThermoEngine::Impl
     {
         WorkPreferences pref = getThermoPreferencesSubstance(solvent);
         if (state > -1 && state <2)
-            preferences.solvent_state = state;
+            pref.solvent_state = state;
         PropertiesSolvent ps;
 
         if (pref.isH2OSolvent)
@@ -554,22 +560,22 @@ struct ThermoEngine::Impl
             {
             case MethodCorrT_Thrift::type::CTM_WAT:
             {
-                ps = WaterHGK(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterHGK(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WAR:
             {
-                ps = WaterHGKreaktoro(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterHGKreaktoro(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WWP:
             {
-                ps = WaterWP95reaktoro(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterWP95reaktoro(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_WZD:
             {
-                ps = WaterZhangDuan2005(pref.workSubstance).propertiesSolvent(T, P, preferences.solvent_state);
+                ps = WaterZhangDuan2005(pref.workSubstance).propertiesSolvent(T, P, pref.solvent_state);
                 break;
             }
                 //            default:
@@ -589,7 +595,7 @@ struct ThermoEngine::Impl
         std::map<std::string, double> reactants;
 
         // if reaction involves gases we switch on the P correction to the thermo props
-        preferences.apply_pressure_correction_to_gas_props = true;
+        const bool apply_p = true;
 
         if (!reactionSymbol.empty())
         {
@@ -612,7 +618,7 @@ struct ThermoEngine::Impl
             {
                 if (reactant.first != subst.symbol())
                 {
-                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first); /* thermoPropertiesSubstance(T, P, reactant.first);*/
+                    reacTps = thermo_properties_substance_fn(T, P, P, reactant.first, apply_p); /* thermoPropertiesSubstance(T, P, reactant.first);*/
                     tps.enthalpy -= reacTps.enthalpy * reactant.second;
                     tps.entropy -= reacTps.entropy * reactant.second;
                     tps.gibbs_energy -= reacTps.gibbs_energy * reactant.second;
@@ -636,12 +642,10 @@ struct ThermoEngine::Impl
         else
         {
             subst.setMethodGenEoS(MethodGenEoS_Thrift::type::CTPM_CON);
-            return thermoPropertiesSubstance(T, P, subst);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
+            return thermoPropertiesSubstance(T, P, subst, apply_p);//thermo_properties_substance_fn(T, P, P, subst.symbol()); //
             errorReactionNotDefined(subst.symbol(), __LINE__, __FILE__);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
-
         // pressure correction on rdc assuming constant molar volume
         if ((subst.method_P() == MethodCorrP_Thrift::type::CPM_CON) &&
             (reaction.method_P()== MethodCorrP_Thrift::CPM_OFF || !reaction.method_P()))
@@ -703,17 +707,17 @@ struct ThermoEngine::Impl
             }
             case MethodCorrT_Thrift::type::CTM_DMD: // Dolejs-Maning 2010 density model
             {
-                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionDolejsManning10(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, pref.solvent_symbol, -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_DKR: // Marshall-Franck density model
             {
-                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1));
+                tpr = ReactionFrantzMarshall(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, pref.solvent_symbol, -1));
                 break;
             }
             case MethodCorrT_Thrift::type::CTM_MRB: // Calling modified Ryzhenko-Bryzgalin model TW KD 08.2007
             {
-                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, preferences.solvent_symbol, -1)); // NOT TESTED!!!
+                return ReactionRyzhenkoBryzgalin(pref.workReaction).thermoProperties(T, P, properties_solvent_fn(T, P, P, pref.solvent_symbol, -1)); // NOT TESTED!!!
             }
             case MethodCorrT_Thrift::type::CTM_IKZ:
             {
@@ -793,7 +797,7 @@ struct ThermoEngine::Impl
         tpr.reaction_internal_energy = 0.0;
         tpr.reaction_helmholtz_energy = 0.0;
 
-        preferences.apply_pressure_correction_to_gas_props = true;
+        const bool apply_p = true;
 
         std::string message = "Calculated from the reaction components: " + reaction.symbol() + "; ";
 
@@ -809,7 +813,7 @@ struct ThermoEngine::Impl
                 errorMethodNotFound("reaction", reaction.symbol(), __LINE__, __FILE__);
             }
 
-            auto tps        = thermo_properties_substance_fn(T, P,P, substance); /*thermoPropertiesSubstance(T, P, substance);*/
+            auto tps        = thermo_properties_substance_fn(T, P,P, substance, apply_p); /*thermoPropertiesSubstance(T, P, substance);*/
 
             tpr.reaction_heat_capacity_cp   += tps.heat_capacity_cp*coeff;
             tpr.reaction_gibbs_energy       += tps.gibbs_energy*coeff;
@@ -831,7 +835,6 @@ struct ThermoEngine::Impl
             setMessage(tps.gibbs_energy.sta.first,     "G0 of component " + substance, message+tps.gibbs_energy.sta.second,     tpr.ln_equilibrium_constant.sta.second);
         }
 
-        preferences.apply_pressure_correction_to_gas_props = false;
         return tpr;
     }
 };
@@ -855,7 +858,7 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
-    return pimpl->thermo_properties_substance_fn(T, P, P, substance);
+    return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
@@ -870,7 +873,7 @@ auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, i
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
-    return pimpl->thermoPropertiesSubstance(T, P, substance);
+    return pimpl->thermoPropertiesSubstance(T, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
-- 
2.43.0


From ebbd4d1cd59ae2be049fc52baa743616d62a3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:33 +0000
Subject: [PATCH 04/60] fix: copies of an engine own their database, settings
 and cached functions

---
 ThermoFun/ThermoEngine.cpp | 14 ++++++++++++++
 ThermoFun/ThermoEngine.h   |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index ba420dc..3bb9108 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -89,6 +89,13 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    // the functions below are bound to this object, they are never copied
+    Impl(const Impl &other)
+        : database(other.database), preferences(other.preferences), conventions(other.conventions)
+    {
+        set_fn();
+    }
+
     void set_fn()
     {
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool apply_p) {
@@ -856,6 +863,13 @@ ThermoEngine::ThermoEngine(const ThermoEngine &other)
 {
 }
 
+auto ThermoEngine::operator=(const ThermoEngine &other) -> ThermoEngine&
+{
+    if (this != &other)
+        pimpl.reset(new Impl(*other.pimpl));
+    return *this;
+}
+
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
     return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
diff --git a/ThermoFun/ThermoEngine.h b/ThermoFun/ThermoEngine.h
index ec968b4..fd0b3e9 100644
--- a/ThermoFun/ThermoEngine.h
+++ b/ThermoFun/ThermoEngine.h
@@ -63,6 +63,11 @@ public:
     /// Construct a copy of an ThermoEngine instance
     ThermoEngine(const ThermoEngine &other);
 
+    /**
+     * @brief Assign a copy of another engine, the two stay independent
+     */
+    auto operator=(const ThermoEngine &other) -> ThermoEngine&;
+
     /// Sets the symbol of the solvent which is used to calculate properties using the thermo instance
     auto setSolventSymbol(const std::string solvent_symbol) -> void;
 
-- 
2.43.0


From 4553c71c0b118eba2ce4369c628d5e8c5531bd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:03 +0000
Subject: [PATCH 05/60] fix: memoized results follow changes of the
 preferences, the conventions and the database

---
 ThermoFun/ThermoEngine.cpp | 27 +++++++++++++++++++++++++++
 ThermoFun/ThermoEngine.h   |  4 ++++
 2 files changed, 31 insertions(+)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 3bb9108..9b94651 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -70,6 +70,11 @@ struct ThermoEngine::Impl
 
     EngineConventions conventions;
 
+    // the settings the functions below were set with
+    EnginePreferences fn_preferences;
+
+    EngineConventions fn_conventions;
+
     ThermoPropertiesSubstanceFunction thermo_properties_substance_fn;
 
     ElectroPropertiesSolventFunction electro_properties_solvent_fn;
@@ -96,8 +101,18 @@ struct ThermoEngine::Impl
         set_fn();
     }
 
+    // discards the memoized results if the settings they were calculated with have changed
+    void refresh_fn()
+    {
+        if (!(preferences == fn_preferences && conventions == fn_conventions))
+            set_fn();
+    }
+
     void set_fn()
     {
+        fn_preferences = preferences;
+        fn_conventions = conventions;
+
         thermo_properties_substance_fn = [=, this](double T, double P_, double &P, std::string symbol, bool apply_p) {
             auto x = P_;
             return thermoPropertiesSubstance(T, P, symbol, apply_p);
@@ -872,52 +887,62 @@ auto ThermoEngine::operator=(const ThermoEngine &other) -> ThermoEngine&
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, std::string substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->refresh_fn();
     return pimpl->thermo_properties_substance_fn(T, P, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, std::string solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->electro_properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, std::string solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->properties_solvent_fn(T, P, P, solvent, state);
 }
 
 auto ThermoEngine::thermoPropertiesSubstance(double T, double &P, const Substance& substance) const -> ThermoPropertiesSubstance
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesSubstance(T, P, substance, pimpl->preferences.apply_pressure_correction_to_gas_props);
 }
 
 auto ThermoEngine::electroPropertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> ElectroPropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->electroPropertiesSolvent(T, P, solvent, state);
 }
 
 auto ThermoEngine::propertiesSolvent(double T, double &P, const Substance&  solvent, int state) const -> PropertiesSolvent
 {
+    pimpl->refresh_fn();
     return pimpl->propertiesSolvent(T, P, solvent, state);
 }
 
 // Reaction
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, std::string reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermo_properties_reaction_fn(T, P, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, std::string symbol) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, symbol);
 }
 
 auto ThermoEngine::thermoPropertiesReaction(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesReaction(T, P, reaction);
 }
 
 auto ThermoEngine::thermoPropertiesReactionFromReactants(double T, double &P, const Reaction& reaction) const -> ThermoPropertiesReaction
 {
+    pimpl->refresh_fn();
     return pimpl->thermoPropertiesReactionFromReactants(T, P, reaction);
 }
 
@@ -946,11 +971,13 @@ auto ThermoEngine::database() const -> const Database &
 
 auto ThermoEngine::appendData(std::string filename) -> void
 {
+    pimpl->set_fn(); // discard the memoized results, also when reading the records fails half-way
     pimpl->database.appendData(filename);
 }
 
 auto ThermoEngine::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
+    pimpl->set_fn(); // discard the memoized results, also when reading the records fails half-way
     pimpl->database.appendData(jsonRecords, _label);
 }
 
diff --git a/ThermoFun/ThermoEngine.h b/ThermoFun/ThermoEngine.h
index fd0b3e9..210762e 100644
--- a/ThermoFun/ThermoEngine.h
+++ b/ThermoFun/ThermoEngine.h
@@ -29,6 +29,8 @@ struct EnginePreferences
     std::string solvent_symbol = "H2O@"; // default
     bool fallback_to_reference_properties = false; // leave properties as is given in substance record database, if no functions to calculate them are defined or there are missing data in the calculation chain, value undefined only if not present in the database record
     bool apply_pressure_correction_to_gas_props = false; // making the pressure/fugacity correction in the G0, H0, ... properties of gases
+
+    bool operator==(const EnginePreferences&) const = default;
 };
 
 struct EngineConventions {
@@ -36,6 +38,8 @@ struct EngineConventions {
     std::string apparent_properties = "BENSON_HELGESON";
     // e.g. "STEAM_TABLES"
     std::string water_properties = "GEOCHEMICAL";
+
+    bool operator==(const EngineConventions&) const = default;
 };
 
 
-- 
2.43.0


From dfc55a9ce5d4edcb6f466aa82e469aa1279ada82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 06/60] fix: ReactionDolejsManning10 evaluates the
 Dolejs-Manning model, not the Marshall-Franck one

---
 ThermoFun/ThermoModelsReaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/ThermoModelsReaction.cpp b/ThermoFun/ThermoModelsReaction.cpp
index ad59aa4..a8715b9 100644
--- a/ThermoFun/ThermoModelsReaction.cpp
+++ b/ThermoFun/ThermoModelsReaction.cpp
@@ -35,7 +35,7 @@ auto ReactionDolejsManning10::thermoProperties(double T, double P, PropertiesSol
     auto t = Reaktoro_::Temperature(T);
     auto p = Reaktoro_::Pressure(P); p /= bar_to_Pa;
 
-    return thermoPropertiesFrantzMarshall(t, p, pimpl->reaction, wp);
+    return thermoPropertiesDolejsManning2010(t, p, pimpl->reaction, wp);
 }
 
 //=======================================================================================================
-- 
2.43.0


From 7bb0214032bc387a02c0229586a1a8abb672a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 07/60] fix: the density models of reactions also set log K

---
 ThermoFun/Reactions/DolejsManning2010.cpp | 1 +
 ThermoFun/Reactions/FrantzMarshall.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index aa20847..00de7ba 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -39,6 +39,7 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
            // Error( GetName(),"DM denisty model: dGr and lnK not consistent!");
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index f5bbce7..c73ed1f 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -47,6 +47,7 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dAr  = dUr - TK*dSr;
 
     tpr.ln_equilibrium_constant    = logK*lg_to_ln;
+    tpr.log_equilibrium_constant   = logK;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_entropy           = dSr;
     tpr.reaction_gibbs_energy      = dGr;
-- 
2.43.0


From 12f6f0a473cbe520ae1906ce5c8db21dc4e5184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 08/60] fix: the pressure correction of a reaction changes ln K
 and log K by the same volume term as its Gibbs energy

---
 ThermoFun/ThermoEngine.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoEngine.cpp b/ThermoFun/ThermoEngine.cpp
index 9b94651..a0ee0e7 100644
--- a/ThermoFun/ThermoEngine.cpp
+++ b/ThermoFun/ThermoEngine.cpp
@@ -770,8 +770,8 @@ struct ThermoEngine::Impl
                 auto VP = tpr.reaction_volume * (P_ - Pref);
                 tpr.reaction_gibbs_energy += VP;
                 tpr.reaction_enthalpy += VP;
-                auto Vref = pref.workReaction.thermoReferenceProperties().reaction_volume;
-                tpr.log_equilibrium_constant -= Vref * (P_ - Pref) / (R_CONSTANT * T) / lg_to_ln;
+                tpr.ln_equilibrium_constant -= VP / (R_CONSTANT * T);
+                tpr.log_equilibrium_constant -= VP / (R_CONSTANT * T) / lg_to_ln;
                 tpr.reaction_entropy = (tpr.reaction_enthalpy - tpr.reaction_gibbs_energy) / T;
                 tpr.reaction_internal_energy = tpr.reaction_enthalpy - P_ * tpr.reaction_volume;
                 tpr.reaction_helmholtz_energy = tpr.reaction_internal_energy - T * tpr.reaction_entropy;
-- 
2.43.0


From 4f7a643657179a55a6f4da0053f69644e630ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 09/60] fix: Ryzhenko-Bryzgalin internal and Helmholtz energies
 use the volume in J/bar

---
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index d2e7c9b..6cba1b8 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -60,7 +60,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dSr  = R_CONSTANT*log(10.)/zzH2O * ( dI*J + dJ*I );
     auto dCPr = R_CONSTANT*log(10.)/zzH2O * TK * ( d2I*J + 2.*dI*dJ + d2J*I );
     auto dVr  = - R_CONSTANT*log(10.)/zzH2O * ( e*TK + f + g/TK ) * 1./(RHO*log(10.))
-                * dRHOdP * ( A + B/TK);
+                * dRHOdP * ( A + B/TK) * 1e5; // in J/bar
     auto dHr  = dGr + dSr*TK;
     auto dUr  = dHr - Pbar*dVr;
     auto dAr  = dUr - TK*dSr;
@@ -71,7 +71,7 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     tpr.reaction_entropy           = dSr;
     tpr.reaction_enthalpy          = dHr;
     tpr.reaction_heat_capacity_cp  = dCPr;
-    tpr.reaction_volume            = dVr*1e5; // to J/bar
+    tpr.reaction_volume            = dVr;
     tpr.reaction_helmholtz_energy  = dAr;
     tpr.reaction_internal_energy   = dUr;
 
-- 
2.43.0


From c44e7086644fc8495c8dd7139633ee547efaa455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:40 +0000
Subject: [PATCH 10/60] fix: unary plus of a thermodynamic scalar compiles

---
 ThermoFun/Common/ThermoScalar.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index a6cc69d..8891e60 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -285,8 +285,7 @@ inline auto status(const ThermoScalarBase<VL>& l) -> StatusMessage
 template<typename V>
 inline auto operator+(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
 {
-    l.sta = status(l);
-    return l;
+    return {l.val, l.ddt, l.ddp, l.err, status(l)};
 }
 
 /// Add two ThermoScalar instances
-- 
2.43.0


From 7f4292d8880786889a19f40db3d371382309a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:55 +0000
Subject: [PATCH 11/60] fix: errors of thermodynamic scalars propagate to first
 order and never turn negative or NaN

---
 ThermoFun/Common/ThermoScalar.hpp | 37 ++++++++++---------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/ThermoFun/Common/ThermoScalar.hpp b/ThermoFun/Common/ThermoScalar.hpp
index 8891e60..dc0485b 100644
--- a/ThermoFun/Common/ThermoScalar.hpp
+++ b/ThermoFun/Common/ThermoScalar.hpp
@@ -141,14 +141,12 @@ public:
     template<typename VR>
     ThermoScalarBase& operator*=(const ThermoScalarBase<VR>& other)
     {
-        const double tmp_err = err / val;
+        const double tmp_err = err * other.val;
+        const double tmp_err2 = val * other.err;
         ddt  = ddt * other.val + val * other.ddt;
         ddp  = ddp * other.val + val * other.ddp;
         val *= other.val;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+        err  = std::sqrt(tmp_err*tmp_err + tmp_err2*tmp_err2);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -164,14 +162,12 @@ public:
     {
         const double tmp1 = 1.0/other.val;
         const double tmp2 = tmp1 * tmp1;
-        const double tmp_err = err / val;
+        const double tmp_err = err * tmp1;
+        const double tmp_err2 = val * tmp2 * other.err;
         ddt  = (ddt * other.val - val * other.ddt) * tmp2;
         ddp  = (ddp * other.val - val * other.ddp) * tmp2;
         val *= tmp1;
-        if (other.val == 0)
-            err = 0.0;
-        else
-            err  = val*sqrt(tmp_err*tmp_err + other.err/other.val*other.err/other.val);
+        err  = std::sqrt(tmp_err*tmp_err + tmp_err2*tmp_err2);
 
         if (sta.first == Status::notdefined || other.sta.first == Status::notdefined)
             sta = {Status::notdefined, std::string("")};
@@ -198,26 +194,17 @@ public:
     /// Assign-multiplication of a ThermoScalar instance
     ThermoScalarBase& operator*=(double other)
     {
-        const double tmp_err = err/val*err/val;
         val *= other;
         ddt *= other;
         ddp *= other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
+        err = std::fabs(err * other);
         return *this;
     }
 
     /// Assign-division of a ThermoScalar instance
     ThermoScalarBase& operator/=(double other)
     {
-        const double tmp_err = err/val*err/val;
         *this *= 1.0/other;
-        if (val == 0)
-            err = 0.0;
-        else
-            err = val*std::sqrt(tmp_err);
         return *this;
     }
 
@@ -386,7 +373,7 @@ inline auto operator/(double l, const ThermoScalarBase<V>& r) -> ThermoScalarBas
     const double tmp2 = -l*tmp1*tmp1;
     if (r.val == 0)
         return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, 0.0, status(r)};
-    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, (tmp1 * r.val)*std::sqrt(r.err/r.val*r.err/r.val), status(r)};
+    return {tmp1 * l, tmp2 * r.ddt, tmp2 * r.ddp, tmp2 * r.err, status(r)};
 }
 
 /// Right-divide a ThermoScalar instance by a scalar
@@ -404,7 +391,7 @@ inline auto sqrt(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 0.5 * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0,0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.5*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -415,7 +402,7 @@ inline auto pow(const ThermoScalarBase<V>& l, double power) -> ThermoScalarBase<
     const double tmp2 = power * tmp1/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, std::fabs(power)*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the power of a ThermoScalar instance
@@ -427,7 +414,7 @@ inline auto pow(const ThermoScalarBase<VL>& l, const ThermoScalarBase<VR>& power
     const double tmp = power.val/l.val;
     if (l.val == 0)
         return {powl, powl * (logl * power.ddt + /*tmp * l.ddt*/0.0), powl * (logl * power.ddp + /*tmp * l.ddp*/0.0), 0.0, status(l,power)};
-    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl*(l.err/l.val), status(l,power)};
+    return {powl, powl * (logl * power.ddt + tmp * l.ddt), powl * (logl * power.ddp + tmp * l.ddp), powl * std::sqrt(tmp*l.err*tmp*l.err + logl*power.err*logl*power.err), status(l,power)};
 }
 
 /// Return the natural exponential of a ThermoScalar instance
@@ -446,7 +433,7 @@ inline auto log(const ThermoScalarBase<V>& l) -> ThermoScalarBase<double>
     const double tmp2 = 1.0/l.val;
     if (l.val == 0)
         return {tmp1, /*tmp2 * l.ddt, tmp2 * l.ddp,*/ 0.0,0.0, 0.0, status(l)};
-    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, 0.434*(l.err/l.val), status(l)};
+    return {tmp1, tmp2 * l.ddt, tmp2 * l.ddp, tmp2 * l.err, status(l)};
 }
 
 /// Return the log10 of a ThermoScalar instance
-- 
2.43.0


From 4e15192913146c065436d73bdbb8d2d33c0f90f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:40 +0000
Subject: [PATCH 12/60] fix: Berman volume expansion is quadratic in T-Tr and
 its enthalpy follows G + TS

---
 ThermoFun/Substances/Solids/SolidBerman88.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index b45706c..252eef6 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -13,7 +13,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto Vst = subst.thermoReferenceProperties().volume; // j/bar
     auto T   = TK;
     auto P   = Pbar; // in bar
-    auto Ts2   = Tst*Tst;
+    auto Ts2   = (T-Tst)*(T-Tst);
 
     auto vc = subst.thermoParameters().volume_coeff;
 
@@ -38,11 +38,11 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         tps.entropy      += ( - vc[0]*VP - vc[1]*VP*2.*(T-Tst) - vc[2]*VP*3*Ts2 );
         tps.gibbs_energy += ( vc[0]*(T-Tst)*VP + vc[1]*VP*Ts2 + vc[2]*VP*Ts2*(T-Tst) + vc[3]*VP*(P-Pst) / 2.
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) + vc[2]*VP*Ts2*(2.*T + Tst)
+        tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
                             + vc[3]*VP*(P-Pst) / 2. + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
-        tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
-        tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
     }
+    tps.internal_energy  = tps.enthalpy - Pbar*tps.volume;
+    tps.helmholtz_energy = tps.internal_energy - TK*tps.entropy;
 
     subst.checkCalcMethodBounds("Berman multisite model", TK.val, P.val*1e05, tps);
 
-- 
2.43.0


From b99bbc5d6944e406a023ae8a60cffb11cc0a9adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 13/60] fix: enthalpy of the density models is G + TS, entropy
 and Cp of Holland-Powell 98 above 500 K follow its Gibbs energy

---
 ThermoFun/Substances/Solute/SoluteAnderson91.cpp      | 2 +-
 ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
index 928011d..b440469 100644
--- a/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
+++ b/ThermoFun/Substances/Solute/SoluteAnderson91.cpp
@@ -35,7 +35,7 @@ auto thermoPropertiesAqSoluteAN91(Reaktoro_::Temperature TK, Reaktoro_::Pressure
     auto S = S298 - (Cp298*(ALPw298 - ALPw))/(T298*dALPdTw298);
     Reaktoro_::ThermoScalar V(V298); //-(Cp298*ALPw)/(T298*dALPdTw298); // the model does not include a volume term!
     auto Cp = T*(Cp298*dALPdTw)/(T298*dALPdTw298);
-    auto H = G_bb + T*S298;
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
diff --git a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
index 8fc3561..e981ea2 100644
--- a/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHollandPowell98.cpp
@@ -54,13 +54,15 @@ auto thermoPropertiesAqSoluteHP98(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         Tprime = T.val;
     else
         Tprime = 500;
+    // d(T/Tprime)/dT
+    const double dTTprime = (T <= 500) ? 0.0 : 1.0/Tprime;
 
     auto G_bb = H298 - T*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
     auto G = G298 - (T - T298)*S298 + Pbar*V298 + b*( T298*T - pow(T298,2)/2 - pow(T,2)/2 ) + ( Cp298 - T298*b )/( T298*dALPdTw298 )*( ALPw298*(T - T298) - BETw298*Pbar + (T/Tprime)*log(RHOw/RHOw298) );
-    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 - log(RHOw/RHOw298)/Tprime - (T/Tprime)*ALPw);
+    auto S = S298 - b*(T298 - T) - (Cp298 - T298*b)/(T298*dALPdTw298)*(ALPw298 + log(RHOw/RHOw298)*dTTprime - (T/Tprime)*ALPw);
     auto V = V298 + (Cp298 - T298*b)/(T298*dALPdTw298)*( -BETw298 + T/Tprime*BETw );
-    auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw))/(T298*dALPdTw298*Tprime));
-    auto H = G_bb + T*S298;
+    auto Cp = T*(b - ((T298*b - Cp298)*(T*dALPdTw/Tprime + 2*ALPw*dTTprime))/(T298*dALPdTw298));
+    auto H = G_bb + T*S;
 
     tps.gibbs_energy     = G;
     tps.volume           = V;
-- 
2.43.0


From 69d5e963316cb02b936f0cde82517333165e438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:30 +0000
Subject: [PATCH 14/60] fix: Berman heat capacity includes the expansion term
 that its entropy has

---
 ThermoFun/Substances/Solids/SolidBerman88.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Substances/Solids/SolidBerman88.cpp b/ThermoFun/Substances/Solids/SolidBerman88.cpp
index 252eef6..f17b917 100644
--- a/ThermoFun/Substances/Solids/SolidBerman88.cpp
+++ b/ThermoFun/Substances/Solids/SolidBerman88.cpp
@@ -36,6 +36,7 @@ auto thermoPropertiesMinBerman88(Reaktoro_::Temperature TK, Reaktoro_::Pressure
         tps.enthalpy     += ( VP );
         tps.volume       += ( vc[0]*VT + vc[1]*VT*(T-Tst) + vc[2]*VT*Ts2 + vc[3]*VP + vc[4]*VP*(P-Pst) );
         tps.entropy      += ( - vc[0]*VP - vc[1]*VP*2.*(T-Tst) - vc[2]*VP*3*Ts2 );
+        tps.heat_capacity_cp += ( - T*VP*(2.*vc[1] + 6.*vc[2]*(T-Tst)) );
         tps.gibbs_energy += ( vc[0]*(T-Tst)*VP + vc[1]*VP*Ts2 + vc[2]*VP*Ts2*(T-Tst) + vc[3]*VP*(P-Pst) / 2.
                             + vc[4]*VP*((P-Pst)*(P-Pst)) / 3. );
         tps.enthalpy     += ( - vc[0]*Tst*VP - vc[1]*VP*(T + Tst)* (T-Tst) - vc[2]*VP*Ts2*(2.*T + Tst)
-- 
2.43.0


From 1789bce0494504853edf8fa424494dbb19e2ceb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:23 +0000
Subject: [PATCH 15/60] fix: Landau volume is the pressure derivative of the
 Landau Gibbs energy

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index cd6790f..0fb46c8 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -65,19 +65,17 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     // increment thermodynamic properties
     if (Qq == 0. && dQq == 0.)
     {
-        double Qq_ = 0.0; double dQq_ = 0.0;
+        double Qq_ = 0.0;
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq_,2.) + Tcr*pow(Qq_,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq_,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq_,2.) - pow(Qq_,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq_*dQq_ - Smax*pow(Qq_,2.)*Vmax/Smax + Tcr*pow(Qq_,2.)*dQq_
-                              + Vmax/Smax*pow(Qq_,3.)/3. );  // in J/bar
+        tps.volume        = ( v_bis*pow((1.+4.*(Pbar/1000)/kT),-0.25) );  // in J/bar
     } else
     {
         tps.gibbs_energy += ( smq - TK*Smax*pow(Q298,2.) + ivdp + Smax*((TK-Tcr)*pow(Qq,2.) + Tcr*pow(Qq,6.)/3.) );
         tps.entropy      += ( Smax * ( pow(Q298,2.) - pow(Qq,2.) ) - idvdtdp );
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
-        tps.volume        = ( v_bis + 2.*Smax*(TK-Tcr)*Qq*dQq - Smax*pow(Qq,2.)*Vmax/Smax + Tcr*pow(Qq,2.)*dQq
-                              + Vmax/Smax*pow(Qq,3.)/3. );  // in J/bar
+        tps.volume        = ( v_bis*pow((1.+4.*(Pbar/1000)/kT),-0.25) - Vmax*( pow(Qq,2.) - pow(Qq,6.)/3. ) );  // in J/bar
     }
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
-- 
2.43.0


From c3142b08e17205fe0c5e2d49a788896bfaa926a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:05 +0000
Subject: [PATCH 16/60] fix: Landau heat capacity includes the pressure term
 its entropy has

---
 ThermoFun/Substances/Solids/SolidHPLandau.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ThermoFun/Substances/Solids/SolidHPLandau.cpp b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
index 0fb46c8..7e864b3 100644
--- a/ThermoFun/Substances/Solids/SolidHPLandau.cpp
+++ b/ThermoFun/Substances/Solids/SolidHPLandau.cpp
@@ -60,6 +60,13 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
     auto idvdtdp = ( ((Vmax*pow(Q298,2.))*kT/3.)*(a0-10.*a0*pow(TK,-0.5)) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
                      - ((v_bis)*k298/3)*(1.5e-4) * (pow((1.+4.*(Pbar/1000)/kT),0.75)-1.)
                      + (v_bis)*(Pbar/1000)*(1.5e-4)/(1.-(1.5e-4)*(TK-TrK)) * pow((1.+4.*(Pbar/1000)/kT),-0.25) ) * (1000.);
+    // d(idvdtdp)/dT
+    auto V0 = Vmax*pow(Q298,2.);
+    auto pk = 1.+4.*(Pbar/1000)/kT;
+    auto id2vdt2dp = ( (5./3.)*V0*a0*kT/pow(TK,1.5) * (pow(pk,0.75)-1.)
+                       - (2./3.)*V0*(a0-10.*a0/pow(TK,0.5))*k298*(1.5e-4) * (pow(pk,0.75)-1.)
+                       + 2.*V0*(a0-10.*a0/pow(TK,0.5))*(Pbar/1000)*(1.5e-4) / (1.-(1.5e-4)*(TK-TrK)) * pow(pk,-0.25)
+                       - v_bis*pow((Pbar/1000),2.)*pow((1.5e-4),2.) / ( pow((1.-(1.5e-4)*(TK-TrK)),3.)*k298 ) * pow(pk,-1.25) ) * (1000.);
     auto smq = Smax * Tcr0 *( pow(Q298,2.) - pow(Q298,6.)/3. );
 
     // increment thermodynamic properties
@@ -77,6 +84,7 @@ auto thermoPropertiesHPLandau(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pba
         tps.enthalpy     += ( smq - Smax*Tcr*( pow(Qq,2.) - pow(Qq,6.)/3.) + ivdp - TK*idvdtdp );
         tps.volume        = ( v_bis*pow((1.+4.*(Pbar/1000)/kT),-0.25) - Vmax*( pow(Qq,2.) - pow(Qq,6.)/3. ) );  // in J/bar
     }
+    tps.heat_capacity_cp += ( - TK*id2vdt2dp );
     if( TK<Tcr )  // Cp is corrected at subcritical T only
         tps.heat_capacity_cp += ( TK*Smax/(2.*sqrt(Tcr)*sqrt(Tcr-TK)) );
 
-- 
2.43.0


From e17f0a599eb04f8a01bd693b1c996112c1ddc8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:20 +0000
Subject: [PATCH 17/60] fix: the square-root term of the empirical heat
 capacity is sqrt(T)

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 25d4bec..c81fc7a 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -88,7 +88,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 ac[6] * (TK * TK * TK * TK) +
                 ac[7] / (TK * TK * TK) +
                 ac[8] / TK +
-                ac[9] * (pow(TK, (1 / 2))) /*+ ac[10]*log(T)*/);
+                ac[9] * (pow(TK, 0.5)) /*+ ac[10]*log(T)*/);
 
     for (unsigned j = 0, ft = 0; j <= k; j++)
     {
-- 
2.43.0


From ef86386a771606c886a8fc2d4cf5d1818f21b6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:49 +0000
Subject: [PATCH 18/60] fix: empirical Cp integration always selects a
 temperature interval, also at the upper bound and in gaps

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index c81fc7a..9c646a0 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -60,10 +60,11 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     if (k < 0)
     {
-        if (TK_ <= thermo_parameters.temperature_intervals[0][0])
-            k = 0;
-        if (TK_ > thermo_parameters.temperature_intervals[thermo_parameters.temperature_intervals.size() - 1][1])
-            k = thermo_parameters.temperature_intervals.size() - 1;
+        // the last interval that begins below the temperature, otherwise the first
+        k = 0;
+        for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
+            if (thermo_parameters.temperature_intervals[i].size() > 0 && thermo_parameters.temperature_intervals[i][0] <= TK_)
+                k = i;
 
         thfun_logger->warn(" {} {}: The given temperature: {} is not inside the specified interval/s for the Cp calculation.\n"
                            "The temperature is not inside the specified interval for the substance {}.",
-- 
2.43.0


From dc17d53da3a88c5bfefdbffb989d2791988c63bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 19/60] fix: HKF internal energy subtracts P*V in joules

---
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 11 ++++-------
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index 1cc3a3e..db6d1f6 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -109,20 +109,17 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
                 / (psi + Pref))) + GZterm;
     // GZterm = W * (-Z - 1.0e0);
 
-
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
-
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01; // J/bar
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 52f9f03..81489e8 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -114,19 +114,17 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto Cp = c1 + c2/pow(TK - theta, 2) - (2*TK/pow(TK - theta, 3))*(a3*(Pbar - Pr)
         + a4*log((psi + Pbar)/(psi + Pr))) + w*TK*X + 2*TK*Y*wT + TK*(Z + 1)*wTT;
 
-    auto U = H - Pbar*V;
-
-    auto A = U - TK*S;
-
     // Convert the thermodynamic properties of the gas to the standard units
     V  *= 1e-01/**cal_to_J/bar_to_Pa*/;
     G  *= cal_to_J;
     H  *= cal_to_J;
     S  *= cal_to_J;
-    U  *= cal_to_J;
-    A  *= cal_to_J;
     Cp *= cal_to_J;
 
+    auto U = H - Pbar*V;
+
+    auto A = U - TK*S;
+
     ThermoPropertiesSubstance tps;
     tps.volume           = V;
     tps.gibbs_energy     = G;
-- 
2.43.0


From f8e284ceec10c8cd792f4e41c0d878c34fcffb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 20/60] fix: solute models compare K and Pa with the validity
 limits and mark the returned record

---
 ThermoFun/Substances/Solute/SoluteADgems.cpp      | 2 +-
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 80d9e1a..94c931b 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -99,7 +99,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
     state.internal_energy  = state.enthalpy - Pbar*state.volume;
     state.helmholtz_energy = state.internal_energy - Tk*state.entropy;
 
-    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, tps);
+    subst.checkCalcMethodBounds("Akinfiev and Diamond model", Tk.val, Pbar.val*1e5, state);
 
     return state;
 }
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 81489e8..0b63788 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -135,7 +135,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     tps.heat_capacity_cp = Cp;
     tps.heat_capacity_cv = tps.heat_capacity_cp; // approximate Cp = Cv for an aqueous solution
 
-    subst.checkCalcMethodBounds("HKF model", TK.val-C_to_K, Pbar.val, tps);
+    subst.checkCalcMethodBounds("HKF model", TK.val, Pbar.val*1e05, tps);
     if (wp.density >= 1400 || wp.density<=600)
     {
         setMessage(Reaktoro_::Status::calculated, "HKF model: outside of 600-1400 kg/m3 density of pure H2O interval", tps);
-- 
2.43.0


From cb109880750e16dbe933505b599c78cb79321053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:32 +0000
Subject: [PATCH 21/60] fix: reference enthalpy and entropy of a reaction
 complete each other at the reference temperature

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index e99d572..136c682 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -74,9 +74,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
     const bool has_dGr = dGr.sta.first != Status::notdefined;
 
     if(has_dSr && has_dGr && !has_dHr)
-        dHr = dGr + dSr * TK;
+        dHr = dGr + dSr * Tr;
     if(has_dHr && has_dGr && !has_dSr)
-        dSr = (dHr-dGr)/TK;
+        dSr = (dHr-dGr)/Tr;
 
     if (CE == MethodCorrT_Thrift::type::CTM_EK3)
         CE = determineMethod(dGr,dHr,dSr,dCpr);
-- 
2.43.0


From ca82f3f176e9565a3d62041655d6b3b8c4dcd981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:46 +0000
Subject: [PATCH 22/60] fix: log K coefficients derived from Cp coefficients
 are integrated from the reference temperature

---
 ThermoFun/Reactions/LogK_function_of_T.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index 136c682..a145ab2 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -119,11 +119,11 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff.resize(5, 0.0);
 
                 // calculation of logK=f(T) coeffs (only first 5 Cp coefficients, conforming to Haas-Fisher function)
-                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(TK) - CpCoeff[1]*TK + CpCoeff[2]/(2.0*TK*TK)
-                              + 2.0*CpCoeff[3]/pow(TK,0.5) - CpCoeff[4]*TK*TK/2.0 ) / Rln10).val;
+                A[0] = (( dSr - CpCoeff[0] - CpCoeff[0]*log(Tr) - CpCoeff[1]*Tr + CpCoeff[2]/(2.0*Tr*Tr)
+                              + 2.0*CpCoeff[3]/pow(Tr,0.5) - CpCoeff[4]*Tr*Tr/2.0 ) / Rln10).val;
                 A[1] = CpCoeff[1]/(2.0*Rln10);
-                A[2] = (-( dHr - CpCoeff[0]*TK - CpCoeff[1]*TK*TK/2.0 + CpCoeff[2]/TK
-                           - 2.0*CpCoeff[3]*pow(TK,0.5) - CpCoeff[4]*TK*TK*TK/3.0 ) / Rln10).val;
+                A[2] = (-( dHr - CpCoeff[0]*Tr - CpCoeff[1]*Tr*Tr/2.0 + CpCoeff[2]/Tr
+                           - 2.0*CpCoeff[3]*pow(Tr,0.5) - CpCoeff[4]*Tr*Tr*Tr/3.0 ) / Rln10).val;
                 A[3] = CpCoeff[0]/Rln10;
                 A[4] = CpCoeff[2]/(2.0*Rln10);
                 A[5] = CpCoeff[4]/(6.0*Rln10);
-- 
2.43.0


From 2855587d87e6f3179edf227ec2adf089c9de4f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:45 +0000
Subject: [PATCH 23/60] fix: conversions between Cp and log K coefficients
 divide by T squared

---
 ThermoFun/Reaction.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ThermoFun/Reaction.cpp b/ThermoFun/Reaction.cpp
index 86a9395..0523061 100644
--- a/ThermoFun/Reaction.cpp
+++ b/ThermoFun/Reaction.cpp
@@ -385,13 +385,13 @@ auto Reaction::convert_CpfT_to_logKfT() -> ThermoPropertiesReaction
     K_fT_Coeff[6] = -4.0*CpCoeff[3]/Rln10;
 
     // Calculation of Cpr and lgK at 25 C
-    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
-    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+    auto Cpr  = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[3]/pow(TK,0.5) + CpCoeff[4]*TK*TK;
+    auto lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
          Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
             2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
          Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-            - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+            - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
     auto th_param = thermoParameters();
     th_param.reaction_Cp_fT_coeff   = CpCoeff;
@@ -429,19 +429,19 @@ auto Reaction::convert_logKfT_toCpfT(/*MethodCorrT_Thrift::type methodT*/) -> Th
     case MethodCorrT_Thrift::type::CTM_LGK:
        /* Calc lgK, Hr and Sr */
         CpCoeff.resize(5);
-        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/TK*TK +
+        lgKr = K_fT_Coeff[0] + K_fT_Coeff[1]*TK + K_fT_Coeff[2]/TK + K_fT_Coeff[3]*log(TK) + K_fT_Coeff[4]/(TK*TK) +
                 K_fT_Coeff[5]*TK*TK + K_fT_Coeff[6]/pow(TK,0.5);
         Hr = Rln10 * ( K_fT_Coeff[1]*TK*TK - K_fT_Coeff[2] + K_fT_Coeff[3]*TK -
                 2.0*K_fT_Coeff[4]/TK + 2.0*K_fT_Coeff[5]*TK*TK*TK - 0.5*K_fT_Coeff[6]*pow(TK,0.5) );
         Sr = Rln10 * ( K_fT_Coeff[0] + 2.0*K_fT_Coeff[1]*TK + K_fT_Coeff[3]*(1.0 + log(TK))
-                - K_fT_Coeff[4]/TK*TK + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
+                - K_fT_Coeff[4]/(TK*TK) + 3.0*K_fT_Coeff[5]*TK*TK + 0.5*K_fT_Coeff[6]/pow(TK,0.5) );
 
         CpCoeff[0] = Rln10 * K_fT_Coeff[3];
         CpCoeff[1] = Rln10 * 2.0 * K_fT_Coeff[1];
         CpCoeff[2] = Rln10 * 2.0 * K_fT_Coeff[4];
         CpCoeff[3] = -Rln10 * 0.25 * K_fT_Coeff[6];
         CpCoeff[4] = Rln10 * 6.0 * K_fT_Coeff[5];
-        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/TK*TK + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
+        Cpr   = CpCoeff[0] + CpCoeff[1]*TK + CpCoeff[2]/(TK*TK) + CpCoeff[4]*TK*TK + CpCoeff[3]/pow(TK,0.5);
 
         ref_prop.reaction_entropy = Sr;  // In this case, everything will be inserted
         ref_prop.reaction_enthalpy = Hr;
-- 
2.43.0


From 6b07b4ad281629a16d0e0aeada14b67c544afe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 24/60] fix: third derivatives of the Haar-Gallagher-Kell
 Helmholtz energy

---
 .../Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
index 5d6fe4e..8b08abc 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateHGK.cpp
@@ -266,7 +266,7 @@ namespace ThermoFun {
             const auto x_tt = y_tt * x2 + 2.0 * y_t * x_t * x;
             const auto x_rt = y_rt * x2 + 2.0 * y_r * x_t * x;
             const auto x_rrr = y_rrr * x2 + 4 * y_rr * x_r * x + 2 * y_r * (x_rr * x + x_r * x_r);
-            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) + 2 * y_r * (x_rt * x + x_r * x_t);
+            const auto x_rrt = y_rrt * x2 + 2 * (y_rt * x_r + y_rr * x_t) * x + 2 * y_r * (x_rt * x + x_r * x_t);
             const auto x_rtt = y_rtt * x2 + 4 * y_rt * x_t * x + 2 * y_r * (x_tt * x + x_t * x_t);
             const auto x_ttt = y_ttt * x2 + 4 * y_tt * x_t * x + 2 * y_t * (x_tt * x + x_t * x_t);
 
@@ -294,7 +294,7 @@ namespace ThermoFun {
             s.helmholtzDDD = A20 * t * (u_rrr + c1 * x_rrr + 2 * c2 * (3 * x_r * x_rr + x * x_rrr) + c3 * y_rrr);
             s.helmholtzTDD = A20 * t * (u_rrt + c1 * x_rrt + 2 * c2 * (x_t * x_rr + 2 * x_r * x_rt + x * x_rrt) + c3 * y_rrt) + s.helmholtzDD / t;
             s.helmholtzTTD = A20 * t * (u_rtt + c1 * x_rtt + 2 * c2 * (x_r * x_tt + 2 * x_t * x_rt + x * x_rtt) + c3 * y_rtt) + 2 * (s.helmholtzTD - s.helmholtzD / t) / t;
-            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + s.helmholtz / (t * t)) / t;
+            s.helmholtzTTT = A20 * t * (u_ttt + c1 * x_ttt + 2 * c2 * (3 * x_t * x_tt + x * x_ttt) + c3 * y_ttt) + 3 * (s.helmholtzTT - 2 * s.helmholtzT / t + 2 * s.helmholtz / (t * t)) / t;
 
             return s;
         }
@@ -369,7 +369,7 @@ namespace ThermoFun {
                 const auto theta_tt = 2 * beta[i] * (2 * beta[i] * tau * tau - 1) * tau_t * tau_t * theta;
                 const auto theta_rt = -2 * beta[i] * tau * tau_t * theta_r;
                 const auto theta_rrr = psi_rr * theta + 2 * psi_r * theta_r + psi * theta_rr;
-                const auto theta_rrt = psi_r * theta_r + psi * theta_rt;
+                const auto theta_rrt = psi_r * theta_t + psi * theta_rt;
                 const auto theta_rtt = psi * theta_tt;
                 const auto theta_ttt = -2 * beta[i] * (2 * tau_t * tau_t * theta_t + tau * tau_t * theta_tt);
 
-- 
2.43.0


From 8bfedb741c0de70be5aa79584a2813b9cbe0c29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:56 +0000
Subject: [PATCH 25/60] fix: third temperature derivative of the Wagner-Pruss
 Helmholtz energy

---
 .../Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
index 52194f1..aa52ba4 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterHelmholtzStateWagnerPruss.cpp
@@ -370,7 +370,7 @@ auto waterHelmholtzStateWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoS
 	const auto phiTT  = phi_tt*tT*tT + phi_t*tTT;
 	const auto phiTD  = phi_dt*tT*dD;
 	const auto phiDD  = phi_dd*dD*dD;
-	const auto phiTTT = phi_ttt*tT*tT*tau*T + 3*phi_tt*tT*tTT + phi_t*tTTT;
+	const auto phiTTT = phi_ttt*tT*tT*tT + 3*phi_tt*tT*tTT + phi_t*tTTT;
 	const auto phiTTD = phi_dtt*tT*tT*dD + phi_dt*tTT*dD;
 	const auto phiTDD = phi_ddt*tT*dD*dD;
 	const auto phiDDD = phi_ddd*dD*dD*dD;
-- 
2.43.0


From 9e577af015326798f2e083881f586614257b7716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 26/60] fix: Wagner-Pruss water pressure comes from the
 Wagner-Pruss Helmholtz energy

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index dc39d41..e344a25 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -106,7 +106,7 @@ auto waterPressureHGK(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Re
 
 auto waterPressureWagnerPruss(Reaktoro_::Temperature T, Reaktoro_::ThermoScalar D) -> Reaktoro_::ThermoScalar
 {
-    return waterPressure(T, D, waterHelmholtzStateHGK);
+    return waterPressure(T, D, waterHelmholtzStateWagnerPruss);
 }
 
 auto waterSaturatedPressureWagnerPruss(Reaktoro_::Temperature T) -> Reaktoro_::ThermoScalar
-- 
2.43.0


From 74e1d0b7c7b96235d415d868eba33a2131ef770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 27/60] fix: element records read over existing ones reach the
 formula parser

---
 ThermoFun/Database.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index e95ebb6..d676642 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -310,8 +310,7 @@ struct Database::Impl
         {
             Element element = parseElement(props);
             element.setJsonString(props);
-            checkIfSymbolExists(elements_map, "element", element.symbol());
-            elements_map[element.symbol()] = element;
+            setElement(element);
         } else
         {
             Exception exception;
@@ -412,18 +411,12 @@ auto Database::operator=(Database other) -> Database&
 
 auto Database::appendData(std::string filename) -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromFile(filename);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::appendData(std::vector<std::string> jsonRecords, std::string _label = "unknown label") -> void
 {
-    auto elements_number = pimpl->mapElements().size();
     pimpl->fromJSONs(jsonRecords, _label);
-    if (elements_number != pimpl->mapElements().size())
-        pimpl->setDBElements(pimpl->mapElements());
 }
 
 auto Database::addElement(const Element& element) -> void
-- 
2.43.0


From 59b741d359e10d4e30f781c3fd60377ee94de83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 28/60] fix: adding a map of records keeps the records of the
 database, setting one overwrites them

---
 ThermoFun/Database.cpp | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Database.cpp b/ThermoFun/Database.cpp
index d676642..ec53fe5 100644
--- a/ThermoFun/Database.cpp
+++ b/ThermoFun/Database.cpp
@@ -118,13 +118,26 @@ struct Database::Impl
 
     auto addMapElements(const ElementsMap& elements) -> void
     {
-        elements_map = elements;
+        elements_map.insert(elements.begin(), elements.end());
+        setDBElements(elements_map);
+    }
+
+    auto setMapElements(const ElementsMap& elements) -> void
+    {
+        for (const auto& e : elements)
+            elements_map[e.first] = e.second;
         setDBElements(elements_map);
     }
 
     auto addMapSubstances(const SubstancesMap& substances) -> void
     {
-        substances_map = substances;
+        substances_map.insert(substances.begin(), substances.end());
+    }
+
+    auto setMapSubstances(const SubstancesMap& substances) -> void
+    {
+        for (const auto& record : substances)
+            substances_map[record.first] = record.second;
     }
 
     auto addReaction(const Reaction& reaction) -> void
@@ -140,7 +153,13 @@ struct Database::Impl
 
     auto addMapReactions(const ReactionsMap& reactions) -> void
     {
-        reactions_map = reactions;
+        reactions_map.insert(reactions.begin(), reactions.end());
+    }
+
+    auto setMapReactions(const ReactionsMap& reactions) -> void
+    {
+        for (const auto& record : reactions)
+            reactions_map[record.first] = record.second;
     }
 
     auto getElements() const -> std::vector<Element>
@@ -445,6 +464,11 @@ auto Database::addMapElements(const ElementsMap& elements) -> void
     pimpl->addMapElements(elements);
 }
 
+auto Database::setMapElements(const ElementsMap& elements) -> void
+{
+    pimpl->setMapElements(elements);
+}
+
 auto Database::addSubstance(const Substance& substance) -> void
 {
     pimpl->addSubstance(substance);
@@ -470,6 +494,11 @@ auto Database::addMapSubstances(const SubstancesMap& substances) -> void
     pimpl->addMapSubstances(substances);
 }
 
+auto Database::setMapSubstances(const SubstancesMap& substances) -> void
+{
+    pimpl->setMapSubstances(substances);
+}
+
 auto Database::addReaction(const Reaction& reaction) -> void
 {
     pimpl->addReaction(reaction);
@@ -495,6 +524,11 @@ auto Database::addMapReactions(const ReactionsMap& reactions) -> void
     pimpl->addMapReactions(reactions);
 }
 
+auto Database::setMapReactions(const ReactionsMap& reactions) -> void
+{
+    pimpl->setMapReactions(reactions);
+}
+
 auto Database::getElement(std::string symbol) const -> const Element&
 {
     return pimpl->getElement(symbol);
-- 
2.43.0


From f8139b5151b87463db4fc512b664017405107cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:43 +0000
Subject: [PATCH 29/60] fix: the order of elements is a strict weak order when
 isotope mass and valence both differ

---
 ThermoFun/Element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Element.cpp b/ThermoFun/Element.cpp
index b11e98e..8415321 100644
--- a/ThermoFun/Element.cpp
+++ b/ThermoFun/Element.cpp
@@ -226,7 +226,7 @@ auto operator<(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() < rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() < rhs.valence());
             }
         }
@@ -250,7 +250,7 @@ auto operator>(const Element& lhs, const Element& rhs) -> bool
             {
                 if (lhs.isotopeMass() > rhs.isotopeMass())
                     return true;
-                else
+                if (lhs.isotopeMass() == rhs.isotopeMass())
                     return (lhs.valence() > rhs.valence());
             }
         }
-- 
2.43.0


From 1d4aa3afed8c7c6d6447ec182266ab4ed755c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:07 +0000
Subject: [PATCH 30/60] fix: the caller's pressure stays in Pa when the HGK
 water calculation fails

---
 ThermoFun/ThermoModelsSolvent.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ThermoFun/ThermoModelsSolvent.cpp b/ThermoFun/ThermoModelsSolvent.cpp
index 14214c8..b01f6df 100644
--- a/ThermoFun/ThermoModelsSolvent.cpp
+++ b/ThermoFun/ThermoModelsSolvent.cpp
@@ -71,21 +71,21 @@ WaterHGK::WaterHGK(const Substance &substance)
 // calculation
 auto WaterHGK::propertiesSolvent(double T, double &P, int state, std::string triple) -> PropertiesSolvent
 {
-    WaterHGKgems water_hgk; T -= C_to_K; P /= bar_to_Pa;
+    WaterHGKgems water_hgk; T -= C_to_K; double Pbar = P / bar_to_Pa;
 
     WaterTripleProperties wtr = waterTripleData.at(triple);
-    water_hgk.calculateWaterHGKgems(T, P, wtr); P *= bar_to_Pa;
+    water_hgk.calculateWaterHGKgems(T, Pbar, wtr); P = Pbar * bar_to_Pa;
 
     return water_hgk.propertiesWaterHGKgems(state);
 }
 
 auto WaterHGK::thermoPropertiesSubstance(double T, double &P, int state, std::string triple) -> ThermoPropertiesSubstance
 {
-    WaterHGKgems water_hgk; T -= C_to_K; P /= bar_to_Pa;
+    WaterHGKgems water_hgk; T -= C_to_K; double Pbar = P / bar_to_Pa;
 
     WaterTripleProperties wtr = waterTripleData.at(triple);
 
-    water_hgk.calculateWaterHGKgems(T, P, wtr); P *= bar_to_Pa;
+    water_hgk.calculateWaterHGKgems(T, Pbar, wtr); P = Pbar * bar_to_Pa;
 
     return  water_hgk.thermoPropertiesWaterHGKgems(state);
 }
-- 
2.43.0


From f94ee8fdc9ca097b6385414c811a8c0b8974ae53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:29 +0000
Subject: [PATCH 31/60] fix: errors of the fluid models are standard exceptions

---
 ThermoFun/Substances/Gases/verror.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/Gases/verror.h b/ThermoFun/Substances/Gases/verror.h
index 8d53b4c..0548437 100644
--- a/ThermoFun/Substances/Gases/verror.h
+++ b/ThermoFun/Substances/Gases/verror.h
@@ -25,6 +25,7 @@
 #ifndef _verror_h_
 #define _verror_h_
 
+#include <exception>
 #include <string>
 
 static const size_t npos = std::string::npos;
@@ -34,21 +35,28 @@ static const size_t npos = std::string::npos;
 void strip(std::string& str);
 
 
-struct TError
+struct TError: public std::exception
 {
     std::string mess;
     std::string title;
+    std::string text;
     TError()
     {}
 
     TError(const std::string& titl, const std::string& msg):
             mess(msg),
-            title(titl)
+            title(titl),
+            text(titl + msg)
     {}
 
     virtual ~TError()
     {}
 
+    const char* what() const noexcept override
+    {
+        return text.c_str();
+    }
+
 };
 
 
-- 
2.43.0


From 5947e55b47b900138ea8fb539922c5bc5de5d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:11 +0000
Subject: [PATCH 32/60] fix: keep the defaults of values that an element or
 substance record does not give

---
 ThermoFun/Common/ParseJsonToData.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 2be4ad0..143371a 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -488,13 +488,16 @@ auto parseElement(const std::string &data) -> Element
         if (j.contains("number"))
             if (!j["number"].is_null())
                 e.setNumber(j["number"].get<int>());
-        double val;
+        double val = e.entropy();
         read_value_unit(j, "entropy", val, "J/(mol*K)");
         e.setEntropy(val);
+        val = e.heatCapacity();
         read_value_unit(j, "heat_capacity", val, "J/(mol*K)");
         e.setHeatCapacity(val);
+        val = e.molarMass();
         read_value_unit(j, "atomic_mass", val, "g/mol");
         e.setMolarMass(val);
+        val = e.volume();
         read_value_unit(j, "volume", val, "J/bar");
         e.setVolume(val);
 
@@ -551,7 +554,7 @@ auto parseSubstance(const std::string &data) -> Substance
             if (!j["reaction"].is_null())
                 s.setReactionSymbol(j["reaction"]);
 
-        double val;
+        double val = s.molarMass();
         read_value_unit(j, "mass_per_mole", val, "g/mol");
         s.setMolarMass(val);
 
-- 
2.43.0


From dfde387abe95919fda5c1949b0ed3543cfbd4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:11 +0000
Subject: [PATCH 33/60] fix: do not read the first entry of an empty list of
 values or units

---
 ThermoFun/Common/ParseJsonToData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 143371a..dd54880 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -155,7 +155,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
     if (j.contains(data)) {
         const auto& entry = j[data];
 
-        if (entry.contains("units") && entry["units"].is_array() && !entry["units"][0].is_null())
+        if (entry.contains("units") && entry["units"].is_array() && !entry["units"].empty() && !entry["units"][0].is_null())
             unit_from = entry["units"][0].get<std::string>();
 
         // Temporary fixes
@@ -169,7 +169,7 @@ auto read_value_unit(const json& j, const std::string& data, double& value, cons
             factor = 1;
         }
 
-        if (entry.contains("values") && entry["values"].is_array() && !entry["values"][0].is_null()) {
+        if (entry.contains("values") && entry["values"].is_array() && !entry["values"].empty() && !entry["values"][0].is_null()) {
             value = units::convert(entry["values"][0].get<double>() * factor, unit_from, unit_to);
         }
     }
-- 
2.43.0


From 074f75605bd23bab1ca6bf214b6c382eaef60ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:11 +0000
Subject: [PATCH 34/60] fix: initialise the compressibility and expansivity of
 a substance

---
 ThermoFun/ThermoParameters.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/ThermoParameters.h b/ThermoFun/ThermoParameters.h
index 957a873..a9ea6d5 100644
--- a/ThermoFun/ThermoParameters.h
+++ b/ThermoFun/ThermoParameters.h
@@ -75,10 +75,10 @@ typedef std::vector<std::pair<std::string,Method>> listmethods;
 struct ThermoParametersSubstance
 {
     /// Isothermal compressibility (for condensed substances)
-    double isothermal_compresibility;
+    double isothermal_compresibility = 0.0;
 
     /// Isobaric expansivity (for condensed substances)
-    double isobaric_expansivity;
+    double isobaric_expansivity = 0.0;
 
     /// Lower and upper T limits for Cp=f(T) equation
     vvd temperature_intervals;
-- 
2.43.0


From 0c65aae493c884b0151c60ea3a6dc013dfb23123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:37 +0000
Subject: [PATCH 35/60] fix: read the methods and coefficients of the
 Holland-Powell and Anderson solute models

---
 ThermoFun/Common/ParseJsonToData.cpp | 3 +++
 ThermoFun/GlobalVariables.h          | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index dd54880..31ba674 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -233,6 +233,8 @@ auto setTPMethods_old(const SubstanceTPMethodType &type, Substance &s) -> void
     case SubstanceTPMethodType::water_diel_jnort91_gems:
     case SubstanceTPMethodType::water_diel_sverj14:
     case SubstanceTPMethodType::water_diel_fern97:
+    case SubstanceTPMethodType::solute_holland_powell98:
+    case SubstanceTPMethodType::solute_anderson91:
         s.setMethodGenEoS(MethodGenEoS_Thrift::type(new_old_s_methodtype.at(type)));
         break;
     case SubstanceTPMethodType::landau_holland_powell98:
@@ -388,6 +390,7 @@ auto thermoParamSubst(const json &j, std::string prop_name, ThermoParametersSubs
     if (ph.size() > 0)
         ps.phase_transition_prop.push_back(ph);
     read_values_units(j, "m_landau_phase_trans_props", ps.m_landau_phase_trans_props, {"degC", "J/(mol*K)", "J/bar"});
+    read_values_units(j, "solute_holland_powell98_coeffs", ps.solute_holland_powell98_coeff, {"kJ/(mol*K^2)"});
     read_values_units(j, "solute_holland_powell98_coeff", ps.solute_holland_powell98_coeff, {"kJ/(mol*K^2)"});
     // ps.phase_transition_prop_Berman.push_back(read_values_units(j, "", {});
 }
diff --git a/ThermoFun/GlobalVariables.h b/ThermoFun/GlobalVariables.h
index 8fd9466..1bf067b 100644
--- a/ThermoFun/GlobalVariables.h
+++ b/ThermoFun/GlobalVariables.h
@@ -519,6 +519,8 @@ static const std::map<const SubstanceTPMethodType, const int> new_old_s_methodty
   {SubstanceTPMethodType::water_diel_jnort91_gems, 118},
   {SubstanceTPMethodType::water_diel_sverj14, 120},
   {SubstanceTPMethodType::water_diel_fern97, 121},
+  {SubstanceTPMethodType::solute_holland_powell98, 122},
+  {SubstanceTPMethodType::solute_anderson91, 123},
   {SubstanceTPMethodType::landau_holland_powell98, 201},
   {SubstanceTPMethodType::landau_berman88, 202},
   {SubstanceTPMethodType::cp_ft_equation_saxena86, 203},
-- 
2.43.0


From 78251dc9919d4f8c590941ddf8b6384f1afb51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:37 +0000
Subject: [PATCH 36/60] fix: read the volume coefficients of substances

---
 ThermoFun/Common/ParseJsonToData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Common/ParseJsonToData.cpp b/ThermoFun/Common/ParseJsonToData.cpp
index 31ba674..c364200 100644
--- a/ThermoFun/Common/ParseJsonToData.cpp
+++ b/ThermoFun/Common/ParseJsonToData.cpp
@@ -389,6 +389,7 @@ auto thermoParamSubst(const json &j, std::string prop_name, ThermoParametersSubs
     read_values_units(j, "m_phase_trans_props", ph, {"K", "J/(mol*K)", "J/mol", "J/bar", "K/bar"});
     if (ph.size() > 0)
         ps.phase_transition_prop.push_back(ph);
+    read_values_units(j, "m_volume_fpt_coeffs", ps.volume_coeff, {"1/K", "1/K^2", "1/K^3", "1/bar", "1/bar^2"});
     read_values_units(j, "m_landau_phase_trans_props", ps.m_landau_phase_trans_props, {"degC", "J/(mol*K)", "J/bar"});
     read_values_units(j, "solute_holland_powell98_coeffs", ps.solute_holland_powell98_coeff, {"kJ/(mol*K^2)"});
     read_values_units(j, "solute_holland_powell98_coeff", ps.solute_holland_powell98_coeff, {"kJ/(mol*K^2)"});
-- 
2.43.0


From 4f0cdafb5cc3ab76a2525c9dafb1bdbf304e309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:17 +0000
Subject: [PATCH 37/60] fix: property grids place each result at its
 temperature and pressure

---
 ThermoFun/Batch/OutputBatch.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 6783832..d8f8fa2 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -319,8 +319,6 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     if (pimpl->api.outputSettings().isFixed) pimpl->fProperties << std::fixed;
     if (pimpl->api.outputSettings().isScientific) pimpl->fProperties << std::scientific;
 
-    size_t count = 0;
-
     if (outSettings.loopTemperatureThenPressure)
     {
         columns          = pressures;
@@ -332,23 +330,30 @@ auto Output::foutPropertyGrid(const std::string &property, const size_t &index_p
     for (unsigned i=0; i<symbols.size(); i++)
         for (auto r : rows)
         {
-            if (count == results.size())
-                break;
             pimpl->fProperties << find_and_replace(symbols[i], s, "_");
             pimpl->fProperties << std::setprecision(digits.at(rowData));
             pimpl->fProperties << s << r;
 
             for(auto c : columns)
             {
-                auto result = results[count][index_property];
+                // the T-P pair of this cell
+                std::vector<double> pair = {c, r};
+                if (outSettings.loopTemperatureThenPressure)
+                    pair = {r, c};
+                size_t index = tpPairs.size()*i + (std::find(tpPairs.begin(), tpPairs.end(), pair) - tpPairs.begin());
+                if (index >= tpPairs.size()*(i + 1) || index >= results.size())
+                {
+                    pimpl->fProperties << s << "NaN";
+                    continue;
+                }
+
+                auto result = results[index][index_property];
                 pimpl->fProperties << std::setprecision(digits.at(property));
 
                 if (result.sta.first == Reaktoro_::Status::notdefined && outSettings.writeNaNifNotDefinedValue)
                     pimpl->fProperties << s << "NaN";
                 else
                     pimpl->fProperties << s << units::convert(result.val, fromUnits.at(property), toUnits.at(property));
-                    
-                count++;
             }
             pimpl->fProperties << std::endl;
         }
-- 
2.43.0


From 9f55b137e85c3b05e3a44e8b90773611be95163f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:52 +0000
Subject: [PATCH 38/60] fix: a batch calculation of an unknown property reports
 it instead of misaligning the results

---
 ThermoFun/Batch/ThermoBatch.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 4e73029..2769aad 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -8,6 +8,7 @@
 #include "Database.h"
 #include "ThermoEngine.h"
 #include "Common/Units.hpp"
+#include "Common/Exception.h"
 
 #if _MSC_VER >= 1929
 #include <array>
@@ -182,6 +183,7 @@ struct ThermoBatch::Impl
         vThScalar resultsSubst;
         for( auto name : properties)
         {
+            const auto size = resultsSubst.size();
             if (name == "gibbs_energy")       {resultsSubst.push_back(tps.gibbs_energy);}
             if (name == "helmholtz_energy")   {resultsSubst.push_back(tps.helmholtz_energy);}
             if (name == "internal_energy")    {resultsSubst.push_back(tps.internal_energy);}
@@ -190,6 +192,8 @@ struct ThermoBatch::Impl
             if (name == "volume")             {resultsSubst.push_back(tps.volume);}
             if (name == "heat_capacity_cp")   {resultsSubst.push_back(tps.heat_capacity_cp);}
             if (name == "heat_capacity_cv")   {resultsSubst.push_back(tps.heat_capacity_cv);}
+            if (resultsSubst.size() == size)
+                funError("Property not defined", "There is no property " + name + " of substances ", __LINE__, __FILE__);
         }
         return resultsSubst;
     }
@@ -199,6 +203,7 @@ struct ThermoBatch::Impl
         vThScalar resultsSolvent;
         for( auto name : properties)
         {
+            const auto size = resultsSolvent.size();
             if (name == "density")        {resultsSolvent.push_back(ps.density);}
             if (name == "densityT")       {resultsSolvent.push_back(ps.densityT);}
             if (name == "densityP")       {resultsSolvent.push_back(ps.densityP);}
@@ -221,6 +226,8 @@ struct ThermoBatch::Impl
             if (name == "bornN")          {resultsSolvent.push_back(eps.bornN);}
             if (name == "bornU")          {resultsSolvent.push_back(eps.bornU);}
             if (name == "bornX")          {resultsSolvent.push_back(eps.bornX);}
+            if (resultsSolvent.size() == size)
+                funError("Property not defined", "There is no property " + name + " of solvents ", __LINE__, __FILE__);
         }
         return resultsSolvent;
     }
@@ -230,6 +237,7 @@ struct ThermoBatch::Impl
         vThScalar resultsReac;
         for( auto name : properties)
         {
+            const auto size = resultsReac.size();
             if (name == "reaction_gibbs_energy")       {resultsReac.push_back(tpr.reaction_gibbs_energy);}
             if (name == "reaction_helmholtz_energy")   {resultsReac.push_back(tpr.reaction_helmholtz_energy);}
             if (name == "reaction_internal_energy")    {resultsReac.push_back(tpr.reaction_internal_energy);}
@@ -240,6 +248,8 @@ struct ThermoBatch::Impl
             if (name == "reaction_heat_capacity_cv")   {resultsReac.push_back(tpr.reaction_heat_capacity_cv);}
             if (name == "logKr")                       {resultsReac.push_back(tpr.log_equilibrium_constant);}
             if (name == "lnKr")                        {resultsReac.push_back(tpr.ln_equilibrium_constant);}
+            if (resultsReac.size() == size)
+                funError("Property not defined", "There is no property " + name + " of reactions ", __LINE__, __FILE__);
         }
         return resultsReac;
     }
-- 
2.43.0


From 12f8e87ed4038d0306e06a5ee1abf991715f518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:52 +0000
Subject: [PATCH 39/60] fix: properties provided to a batch are one for each
 symbol and T-P pair

---
 ThermoFun/Batch/ThermoBatch.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index 2769aad..caf4b79 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -308,8 +308,15 @@ struct ThermoBatch::Impl
         addTPpairs(tpp);
     }
 
+    auto checkProvided(size_t size) const -> void
+    {
+        funErrorIf(size != symbols.size()*tpPairs.size(), "Wrong number of provided properties",
+                   "One is needed for each symbol and T-P pair ", __LINE__, __FILE__);
+    }
+
     auto selectProvidedSubstancesProperties(vtps vTps) -> void
     {
+        checkProvided(vTps.size());
         results.clear();
         for (auto result : vTps)
         {
@@ -319,6 +326,7 @@ struct ThermoBatch::Impl
 
     auto selectProvidedReactionsProperties(vtpr vTpr) -> void
     {
+        checkProvided(vTpr.size());
         results.clear();
         for (auto result : vTpr)
         {
-- 
2.43.0


From 206d07dec5505565312cd585a6a00e07f8043e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:52 +0000
Subject: [PATCH 40/60] fix: lists of units and digits set for properties must
 have their length

---
 ThermoFun/Batch/ThermoBatch.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index caf4b79..e656746 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -537,12 +537,14 @@ auto ThermoBatch::setUnits(const std::map<std::string, std::string> &units)-> vo
 
 auto ThermoBatch::setPropertiesUnits(const vstr &properties, const vstr &units)-> void
 {
+    funErrorIf(properties.size() != units.size(), "Wrong number of units", "One is needed for each property ", __LINE__, __FILE__);
     for (std::size_t i=0; i<properties.size(); i++)
         setPropertyUnit(properties[i], units[i]);
 }
 
 auto ThermoBatch::setPropertiesDigits(const vstr &properties, const std::vector<int> &propDigits)-> void
 {
+    funErrorIf(properties.size() != propDigits.size(), "Wrong number of digits", "One is needed for each property ", __LINE__, __FILE__);
     for (std::size_t i=0; i<properties.size(); i++)
         setPropertyDigit(properties[i], propDigits[i]);
 }
-- 
2.43.0


From 4f1e5b1fab9090706d75b6dfbd31da35f2b4959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:52 +0000
Subject: [PATCH 41/60] fix: temperature and pressure increments without a
 positive step are reported instead of looping forever

---
 ThermoFun/Batch/ThermoBatch.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index e656746..c593955 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -147,6 +147,8 @@ struct ThermoBatch::Impl
     auto addTPpairs (const double &Tmin, const double &Tmax, const double &Tstep,
                      const double &Pmin, const double &Pmax, const double &Pstep) -> void
     {
+        funErrorIf((Tmin < Tmax && !(Tstep > 0)) || (Pmin < Pmax && !(Pstep > 0)), "Wrong increment",
+                   "The steps of temperature and pressure must be positive ", __LINE__, __FILE__);
         clearTPpairs();
         double t = Tmin-Tstep;
         double p = Pmin-Pstep;
-- 
2.43.0


From de1f96308fc2a838dfa84333ba89e765992c96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:12 +0000
Subject: [PATCH 42/60] fix: the output of a batch calculation keeps its
 results when the batch calculates again

---
 ThermoFun/Batch/OutputBatch.cpp |  2 +-
 ThermoFun/Batch/ThermoBatch.cpp | 27 +++++++++++++++++----------
 ThermoFun/Batch/ThermoBatch.h   |  3 +++
 3 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index d8f8fa2..4c78e7a 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -18,7 +18,7 @@ struct Output::Impl
     std::ofstream                       fProperties;
 
     Impl(const ThermoBatch& batch_)
-    : api(ThermoBatch(batch_))
+    : api(batch_.snapshot())
     {}
 
 };
diff --git a/ThermoFun/Batch/ThermoBatch.cpp b/ThermoFun/Batch/ThermoBatch.cpp
index c593955..71f167e 100644
--- a/ThermoFun/Batch/ThermoBatch.cpp
+++ b/ThermoFun/Batch/ThermoBatch.cpp
@@ -22,7 +22,7 @@ enum Calculation {forSUBSTANCE, forREACTION, forSOLVENT};
 struct ThermoBatch::Impl
 {
     /// The thermo instance
-    ThermoEngine                        thermo;
+    std::shared_ptr<ThermoEngine>       thermo;
 
     BatchPreferences                    outSettings;
 
@@ -50,15 +50,15 @@ struct ThermoBatch::Impl
 
 
     Impl(const Database& database)
-    : thermo(ThermoEngine(database))
+    : thermo(std::make_shared<ThermoEngine>(database))
     {}
 
     Impl(std::string filename)
-    : thermo(filename)
+    : thermo(std::make_shared<ThermoEngine>(filename))
     {}
 
     Impl(const ThermoEngine& engine)
-    : thermo(engine)
+    : thermo(std::make_shared<ThermoEngine>(engine))
     {}
 
     // clear functions
@@ -339,21 +339,21 @@ struct ThermoBatch::Impl
     // Calculate functions
     auto calculateSubstProp( double T, double &P, std::string symbol, unsigned index ) -> void
     {
-            results[index] = selectResultsSubst(thermo.thermoPropertiesSubstance(T, P, symbol));
+            results[index] = selectResultsSubst(thermo->thermoPropertiesSubstance(T, P, symbol));
     }
 
     auto calculateReactProp( double T, double &P, std::string symbol, unsigned index ) -> void
     {
         if (outSettings.reactionPropertiesFromReactants)
-            results[index] = selectResultsReact(thermo.thermoPropertiesReactionFromReactants(T, P, symbol));
+            results[index] = selectResultsReact(thermo->thermoPropertiesReactionFromReactants(T, P, symbol));
         else
-            results[index] = selectResultsReact(thermo.thermoPropertiesReaction(T, P, symbol));
+            results[index] = selectResultsReact(thermo->thermoPropertiesReaction(T, P, symbol));
     }
 
     auto calculateSolventProp( double T, double &P, std::string symbol, unsigned index ) -> void
     {
-        results[index] = selectResultsSolvent(thermo.propertiesSolvent(T, P, symbol),
-                                              thermo.electroPropertiesSolvent(T, P, symbol));
+        results[index] = selectResultsSolvent(thermo->propertiesSolvent(T, P, symbol),
+                                              thermo->electroPropertiesSolvent(T, P, symbol));
     }
 };
 
@@ -583,7 +583,7 @@ const BatchPreferences& ThermoBatch::preferences() const {
 
 auto ThermoBatch::setSolventSymbol(const std::string solventSymbol) -> void
 {
-    pimpl->thermo.setSolventSymbol(solventSymbol);
+    pimpl->thermo->setSolventSymbol(solventSymbol);
 }
 
 auto ThermoBatch::setTemperatureIncrement (const double& Tmin, const double& Tmax, const double& Tstep) -> void
@@ -600,6 +600,13 @@ auto ThermoBatch::setPressureIncrement (const double& Pmin, const double& Pmax,
 }
 
 // Private
+auto ThermoBatch::snapshot() const -> ThermoBatch
+{
+    ThermoBatch copy(*this);
+    copy.pimpl = std::make_shared<Impl>(*pimpl);
+    return copy;
+}
+
 // get functions
 auto ThermoBatch::symbols() -> const vstr
 {
diff --git a/ThermoFun/Batch/ThermoBatch.h b/ThermoFun/Batch/ThermoBatch.h
index 3fe5563..b45e33a 100644
--- a/ThermoFun/Batch/ThermoBatch.h
+++ b/ThermoFun/Batch/ThermoBatch.h
@@ -153,6 +153,9 @@ private:
     struct Impl;
     std::shared_ptr<Impl> pimpl;
 
+    /// A batch with copies of the settings and results, which later calculations do not change
+    auto snapshot       () const -> ThermoBatch;
+
     // Substances
     auto symbols        () -> const vstr;
     auto results        () -> const vvThScalar;
-- 
2.43.0


From 05d06d90699ea79008ebc79703b8c37084e9550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 43/60] fix: powers of bar are powers of a pressure, not of a
 temperature

---
 ThermoFun/Common/Units.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 373dfcd..c099aa9 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -395,11 +395,11 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"K^0.5"        , {{1, "K", 0.5}}},
     {"K^1.5"        , {{1, "K", 1.5}}},
 
-    {"bar^2"          , {{1, "K", 2}}},
-    {"bar^3"          , {{1, "K", 3}}},
-    {"bar^4"          , {{1, "K", 4}}},
-    {"bar^5"          , {{1, "K", 5}}},
-    {"bar^0.5"        , {{1, "K", 0.5}}}
+    {"bar^2"          , {{1, "bar", 2}}},
+    {"bar^3"          , {{1, "bar", 3}}},
+    {"bar^4"          , {{1, "bar", 4}}},
+    {"bar^5"          , {{1, "bar", 5}}},
+    {"bar^0.5"        , {{1, "bar", 0.5}}}
 };
 
 map<string, TemperatureUnit> temperatureUnitsMap =
-- 
2.43.0


From b43819e9b5eae465e9ee6e6bc9eeb6af024d778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 44/60] fix: a tesla is a weber per square metre

---
 ThermoFun/Common/Units.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index c099aa9..e43c448 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -359,7 +359,7 @@ map<string, DerivedUnit> derivedUnitsMap =
     {"webers"       , {{1, "Wb" , 1}}},
 
     // Magnetic Flux Density Units
-    {"T"            , {{1 , "Wb" , 1}, {1 , "m", 2}}},
+    {"T"            , {{1 , "Wb" , 1}, {1 , "m", -2}}},
     {"gauss"        , {{0.0001 , "T", 1}}},
     {"tesla"        , {{1, "T", 1}}},
     {"teslas"       , {{1, "T", 1}}},
-- 
2.43.0


From 073536e15b50ab1711c0da8ddfd17c3ca05c7aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 45/60] fix: dimensions of units keep fractional powers

---
 ThermoFun/Common/Units.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index e43c448..3f23c96 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -478,13 +478,13 @@ double factor(const DerivedUnit& derivedUnit)
     return factor(derivedUnit, 0);
 }
 
-void removeZero(map<string, int>& res)
+void removeZero(map<string, double>& res)
 {
     for(auto iter = res.begin(); iter != res.end();)
         if(iter->second == 0) res.erase(iter++); else ++iter;
 }
 
-void dimension(const string& symbol, int multpower, map<string, int>& res)
+void dimension(const string& symbol, double multpower, map<string, double>& res)
 {
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
@@ -494,24 +494,24 @@ void dimension(const string& symbol, int multpower, map<string, int>& res)
         dimension(unit.symbol, unit.power * multpower, res);
 }
 
-void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, int>& res)
+void dimension(const DerivedUnit& derivedUnit, unsigned pos, map<string, double>& res)
 {
     if(pos == derivedUnit.size()) return;
     dimension(derivedUnit[pos].symbol, derivedUnit[pos].power, res);
     dimension(derivedUnit, pos + 1, res);
 }
 
-map<string, int> dimension(const string& symbol)
+map<string, double> dimension(const string& symbol)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(symbol, 1, res);
     removeZero(res);
     return res;
 }
 
-map<string, int> dimension(const DerivedUnit& derivedUnit)
+map<string, double> dimension(const DerivedUnit& derivedUnit)
 {
-    map<string, int> res;
+    map<string, double> res;
     dimension(derivedUnit, 0, res);
     removeZero(res);
     return res;
-- 
2.43.0


From b06360bf51b6f7553a63e64ef66c1f33e1742725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 46/60] fix: malformed units are reported instead of being read
 outside the text

---
 ThermoFun/Common/Units.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 3f23c96..4d2134b 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -545,9 +545,15 @@ inline void unmatchedParenthesisError()
     throw std::runtime_error("*** Error *** there is unmatched parenthesis in the unit string.");
 }
 
+inline void malformedUnitError(const string& symbol)
+{
+    stringstream error; error << "*** Error *** there is a factor or an operator missing in the unit " << symbol << ".";
+    throw std::runtime_error(error.str());
+}
+
 std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
 {
-    if(symbol.empty()) return nullptr;
+    if(symbol.empty()) malformedUnitError(symbol);
 
     if(symbol[pos] == ')')
     {
@@ -559,6 +565,8 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
             string left_str  = symbol.substr(0, i-1);
             string right_str = symbol.substr(i+1, pos-i-1);
 
+            if(op_str != "*" && op_str != "/") malformedUnitError(symbol);
+
             std::shared_ptr<Node> parent(new Node(op_str));
             parent->left  = parseUnit(left_str, left_str.size()-1);
             parent->right = parseUnit(right_str, right_str.size()-1);
@@ -577,6 +585,8 @@ std::shared_ptr<Node> parseUnit(const string& symbol, size_t pos)
         if(found == string::npos)
             return std::shared_ptr<Node>(new Node(symbol.substr(0, pos+1)));
 
+        if(found == 0) malformedUnitError(symbol);
+
         std::shared_ptr<Node> right(new Node());
         right->str = symbol.substr(found+1, pos-found);
 
-- 
2.43.0


From aa1be7b4bf2d1ecc1a7b5640970e915207cbe8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:43 +0000
Subject: [PATCH 47/60] fix: the nondimensional unit has no dimension

---
 ThermoFun/Common/Units.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Common/Units.cpp b/ThermoFun/Common/Units.cpp
index 4d2134b..42ac697 100644
--- a/ThermoFun/Common/Units.cpp
+++ b/ThermoFun/Common/Units.cpp
@@ -489,6 +489,7 @@ void dimension(const string& symbol, double multpower, map<string, double>& res)
     if(temperatureUnitsMap.count(symbol)) { res[symbol] += multpower; return; }
     checkDerivedUnit(symbol);
     const auto& units = derivedUnitsMap[symbol];
+    if(symbol == "1") return;
     if(units.front().symbol == symbol) res[units.front().symbol] += units.front().power * multpower;
     else for(const auto& unit : units)
         dimension(unit.symbol, unit.power * multpower, res);
-- 
2.43.0


From 11f64974c6fce710d531d1d9721daf14b6e9c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:26 +0000
Subject: [PATCH 48/60] fix: the table of electro-chemical properties repeats
 no column

---
 ThermoFun/Common/OutputToCSV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Common/OutputToCSV.cpp b/ThermoFun/Common/OutputToCSV.cpp
index d686b5a..95434c9 100644
--- a/ThermoFun/Common/OutputToCSV.cpp
+++ b/ThermoFun/Common/OutputToCSV.cpp
@@ -147,7 +147,7 @@ auto OutputToCSV::writeElectroPropertiesSolvent (std::string symbol, double T, d
     }
 
     fElectroPropertiesSolvent << symbol << c << T << c << P << c <<
-                                 eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c << eps.bornX     << c <<
+                                 eps.bornN     << c << eps.bornQ     << c << eps.bornU     << c <<
                                  eps.bornX     << c << eps.bornY     << c << eps.bornZ     << c << eps.epsilon   << c <<
                                  eps.epsilonP  << c << eps.epsilonPP << c << eps.epsilonT  << c << eps.epsilonTP << c <<
                                  eps.epsilonTT << std::endl;
-- 
2.43.0


From bbad8253ed5694234f7a90d87376fef0ea202763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 49/60] fix: reaction models do not read coefficients the
 record does not have

---
 ThermoFun/Reactions/DolejsManning2010.cpp  | 4 ++++
 ThermoFun/Reactions/FrantzMarshall.cpp     | 4 ++++
 ThermoFun/Reactions/LogK_function_of_T.cpp | 8 ++++++++
 ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp  | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/ThermoFun/Reactions/DolejsManning2010.cpp b/ThermoFun/Reactions/DolejsManning2010.cpp
index 00de7ba..d8f3a4f 100644
--- a/ThermoFun/Reactions/DolejsManning2010.cpp
+++ b/ThermoFun/Reactions/DolejsManning2010.cpp
@@ -1,4 +1,5 @@
 #include "DolejsManning2010.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -14,6 +15,9 @@ auto thermoPropertiesDolejsManning2010(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdTw = wp.dAldT;
     auto DMcoef = reaction.thermoParameters().reaction_DM10_coeff;
 
+    if (DMcoef.size() < 5)
+        errorModelParameters("density model", reaction.symbol() + " Dolejs and Manning density model", __LINE__, __FILE__);
+
     auto dRHOdT = -ALPw*RHOw;
     auto dRHOdP = BETw*RHOw;
     auto d2RHOdT2 = RHOw*(pow(ALPw,2)-dALPdTw);
diff --git a/ThermoFun/Reactions/FrantzMarshall.cpp b/ThermoFun/Reactions/FrantzMarshall.cpp
index c73ed1f..8d99414 100644
--- a/ThermoFun/Reactions/FrantzMarshall.cpp
+++ b/ThermoFun/Reactions/FrantzMarshall.cpp
@@ -1,4 +1,5 @@
 #include "FrantzMarshall.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 
 namespace ThermoFun {
@@ -14,6 +15,9 @@ auto thermoPropertiesFrantzMarshall(Reaktoro_::Temperature TK, Reaktoro_::Pressu
     auto dALPdT = wp.dAldT;
     auto MFcoef = reaction.thermoParameters().reaction_FM_coeff;
 
+    if (MFcoef.size() < 7)
+        errorModelParameters("density model", reaction.symbol() + " Marshall and Franck density model", __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
diff --git a/ThermoFun/Reactions/LogK_function_of_T.cpp b/ThermoFun/Reactions/LogK_function_of_T.cpp
index a145ab2..55038e8 100644
--- a/ThermoFun/Reactions/LogK_function_of_T.cpp
+++ b/ThermoFun/Reactions/LogK_function_of_T.cpp
@@ -1,4 +1,5 @@
 #include "LogK_function_of_T.h"
+#include "Common/Exception.h"
 #include "ThermoParameters.h"
 #include "Reaction.h"
 #include <algorithm>
@@ -112,6 +113,9 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
           break;
        case MethodCorrT_Thrift::type::CTM_LGK:  // full 7-term logK approx
        case MethodCorrT_Thrift::type::CTM_LGX:  // (derived from dCp=f(T))
+            if (A.size() == 0 && CpCoeff.size() == 0)
+                errorModelParameters("logK(T) and Cp(T)", reaction.symbol() + " logK function of T", __LINE__, __FILE__);
+
             if (A.size() == 0 && CpCoeff.size() > 0)
             {
                 //from Cp to A
@@ -143,6 +147,10 @@ auto thermoPropertiesReaction_LogK_fT(Reaktoro_::Temperature TK, Reaktoro_::Pres
                 CpCoeff[4] = Rln10 * 6.0 * A[5];
             }
 
+            // coefficients that are not given do not contribute
+            A.resize(7, 0.0);
+            CpCoeff.resize(5, 0.0);
+
             lgK = A[0] + A[1] * TK + A[2]/TK + A[3] * log(TK) + A[4] / (TK*TK) +
                   A[5] * (TK*TK) + A[6] / pow(TK,0.5);
             dHr = Rln10 *( A[1]*(TK*TK) - A[2] + A[3]*TK - 2.0*A[4]/TK
diff --git a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
index 6cba1b8..0ad451c 100644
--- a/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
+++ b/ThermoFun/Reactions/RyzhenkoBryzgalyn.cpp
@@ -1,4 +1,5 @@
 #include "RyzhenkoBryzgalyn.h"
+#include "Common/Exception.h"
 
 namespace ThermoFun {
 
@@ -14,6 +15,9 @@ auto thermoPropertiesRyzhenkoBryzgalin(Reaktoro_::Temperature TK, Reaktoro_::Pre
     auto dALPdT = wp.dAldT;
     auto RBcoef = reaction.thermoParameters().reaction_RB_coeff;
 
+    if (RBcoef.size() < 3)
+        errorModelParameters("density model", reaction.symbol() + " modified Ryzhenko-Bryzgalin model", __LINE__, __FILE__);
+
     auto dRHOdT = -ALP*RHO;
     auto dRHOdP = BET*RHO;
     auto d2RHOdT2 = RHO*(pow(ALP,2)-dALPdT);
-- 
2.43.0


From 6297f4a0550df24964245d40b455f52473740852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 50/60] fix: solute models do not read coefficients the record
 does not have

---
 ThermoFun/Substances/Solute/SoluteADgems.cpp      | 2 +-
 ThermoFun/Substances/Solute/SoluteHKFgems.cpp     | 4 +++-
 ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/ThermoFun/Substances/Solute/SoluteADgems.cpp b/ThermoFun/Substances/Solute/SoluteADgems.cpp
index 94c931b..c0b7163 100644
--- a/ThermoFun/Substances/Solute/SoluteADgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteADgems.cpp
@@ -39,7 +39,7 @@ auto thermoPropertiesAqSoluteAD(Reaktoro_::Temperature Tk, Reaktoro_::Pressure P
 
     const auto ADparam = subst.thermoParameters().Cp_nonElectrolyte_coeff;
 
-    if (ADparam.size() == 0)
+    if (ADparam.size() < 3)
     {
         Exception exception;
         exception.error << "Error in Akinfiev Diamond EOS";
diff --git a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
index db6d1f6..d113393 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFgems.cpp
@@ -26,7 +26,7 @@ auto thermoPropertiesAqSoluteHKFgems(Reaktoro_::Temperature TC, Reaktoro_::Press
 
     auto TK = Reaktoro_::Temperature (TC.val+C_to_K);
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFgems EOS";
@@ -253,6 +253,8 @@ auto omeg92(FunctionG g, Substance species) -> ElectroPropertiesSubstance
     const auto chg = species.charge();
 
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", species.symbol() + " electrostatic", __LINE__, __FILE__);
     const auto wref = hkf[6] /*hkf.wref*/;
 
     ElectroPropertiesSubstance eps;
diff --git a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
index 0b63788..fa71afc 100644
--- a/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
+++ b/ThermoFun/Substances/Solute/SoluteHKFreaktoro.cpp
@@ -48,7 +48,7 @@ auto thermoPropertiesAqSoluteHKFreaktoro(Reaktoro_::Temperature TK, Reaktoro_::P
     auto hkf = subst.thermoParameters().HKF_parameters;
     auto refProp = subst.thermoReferenceProperties();
 
-    if (hkf.size() == 0)
+    if (hkf.size() < 7)
     {
         Exception exception;
         exception.error << "Error in HKFreaktoro EOS";
@@ -149,6 +149,8 @@ auto speciesElectroStateHKF(const FunctionG& g, Substance species) -> ElectroPro
 {
     // Get the HKF thermodynamic parameters of the aqueous species
     auto hkf = species.thermoParameters().HKF_parameters;
+    if (hkf.size() < 7)
+        errorModelParameters("HKF", species.symbol() + " electrostatic", __LINE__, __FILE__);
 
     // The species electro instance to be calculated
     ElectroPropertiesSubstance se;
-- 
2.43.0


From 301c5c5013d6c625ba1548d39084c5cefbaa316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 51/60] fix: gas models read only the critical parameters that
 are there, and free them

---
 ThermoFun/Substances/Gases/GasCGF.cpp  | 18 +++++++++++++-----
 ThermoFun/Substances/Gases/GasCORK.cpp | 15 +++++++++++----
 ThermoFun/Substances/Gases/GasPR78.cpp | 18 +++++++++++++-----
 ThermoFun/Substances/Gases/GasPRSV.cpp | 18 +++++++++++++-----
 ThermoFun/Substances/Gases/GasSRK.cpp  | 18 +++++++++++++-----
 ThermoFun/Substances/Gases/GasSTP.cpp  | 18 +++++++++++++-----
 6 files changed, 76 insertions(+), 29 deletions(-)

diff --git a/ThermoFun/Substances/Gases/GasCGF.cpp b/ThermoFun/Substances/Gases/GasCGF.cpp
index df3ab15..63f835d 100644
--- a/ThermoFun/Substances/Gases/GasCGF.cpp
+++ b/ThermoFun/Substances/Gases/GasCGF.cpp
@@ -1,4 +1,6 @@
+#include <array>
 #include "Substances/Gases/GasCGF.h"
+#include "Common/Exception.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +14,20 @@ auto thermoPropertiesGasCGF(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TCGFcalc myCGF( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
+    const auto parameters = subst.thermoParameters();
+    const auto& Cp_intervals = parameters.temperature_intervals;
+    const auto& critical = parameters.critical_parameters;
+    if (critical.empty() || Cp_intervals.empty() || Cp_intervals[0].empty())
+        errorModelParameters("critical", subst.symbol() + " fluid model", __LINE__, __FILE__);
+
+    double TClow = Cp_intervals[0][0];
+    std::array<double, 12> CPg = {}; // parameters that are not given are zero
+    for (unsigned int i = 0; i < CPg.size() && i < critical.size(); i++)
     {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
+        CPg[i] = critical[i];
     }
 
-    myCGF.CGcalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myCGF.CGcalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasCORK.cpp b/ThermoFun/Substances/Gases/GasCORK.cpp
index 58d50bb..302da44 100644
--- a/ThermoFun/Substances/Gases/GasCORK.cpp
+++ b/ThermoFun/Substances/Gases/GasCORK.cpp
@@ -1,5 +1,6 @@
 #include <array>
 #include "Substances/Gases/GasCORK.h"
+#include "Common/Exception.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -18,11 +19,17 @@ auto thermoPropertiesGasCORK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TCORKcalc myCORK( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    std::array<double, 7> CPg;
-    for (unsigned int i = 0; i < 7; i++)
+    const auto parameters = subst.thermoParameters();
+    const auto& Cp_intervals = parameters.temperature_intervals;
+    const auto& critical = parameters.critical_parameters;
+    if (critical.empty() || Cp_intervals.empty() || Cp_intervals[0].empty())
+        errorModelParameters("critical", subst.symbol() + " fluid model", __LINE__, __FILE__);
+
+    double TClow = Cp_intervals[0][0];
+    std::array<double, 7> CPg = {}; // parameters that are not given are zero
+    for (unsigned int i = 0; i < CPg.size() && i < critical.size(); i++)
     {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
+        CPg[i] = critical[i];
     }
 
     myCORK.CORKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
diff --git a/ThermoFun/Substances/Gases/GasPR78.cpp b/ThermoFun/Substances/Gases/GasPR78.cpp
index a8c93cd..46ba0bc 100644
--- a/ThermoFun/Substances/Gases/GasPR78.cpp
+++ b/ThermoFun/Substances/Gases/GasPR78.cpp
@@ -1,4 +1,6 @@
+#include <array>
 #include "Substances/Gases/GasPR78.h"
+#include "Common/Exception.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +14,20 @@ auto thermoPropertiesGasPR78(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPR78calc myPR78( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
+    const auto parameters = subst.thermoParameters();
+    const auto& Cp_intervals = parameters.temperature_intervals;
+    const auto& critical = parameters.critical_parameters;
+    if (critical.empty() || Cp_intervals.empty() || Cp_intervals[0].empty())
+        errorModelParameters("critical", subst.symbol() + " fluid model", __LINE__, __FILE__);
+
+    double TClow = Cp_intervals[0][0];
+    std::array<double, 7> CPg = {}; // parameters that are not given are zero
+    for (unsigned int i = 0; i < CPg.size() && i < critical.size(); i++)
     {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
+        CPg[i] = critical[i];
     }
 
-    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPR78.PR78CalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasPRSV.cpp b/ThermoFun/Substances/Gases/GasPRSV.cpp
index 86026a8..1c9eb19 100644
--- a/ThermoFun/Substances/Gases/GasPRSV.cpp
+++ b/ThermoFun/Substances/Gases/GasPRSV.cpp
@@ -1,4 +1,6 @@
+#include <array>
 #include "Substances/Gases/GasPRSV.h"
+#include "Common/Exception.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +14,20 @@ auto thermoPropertiesGasPRSV(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TPRSVcalc myPRSV( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
+    const auto parameters = subst.thermoParameters();
+    const auto& Cp_intervals = parameters.temperature_intervals;
+    const auto& critical = parameters.critical_parameters;
+    if (critical.empty() || Cp_intervals.empty() || Cp_intervals[0].empty())
+        errorModelParameters("critical", subst.symbol() + " fluid model", __LINE__, __FILE__);
+
+    double TClow = Cp_intervals[0][0];
+    std::array<double, 7> CPg = {}; // parameters that are not given are zero
+    for (unsigned int i = 0; i < CPg.size() && i < critical.size(); i++)
     {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
+        CPg[i] = critical[i];
     }
 
-    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    myPRSV.PRSVCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSRK.cpp b/ThermoFun/Substances/Gases/GasSRK.cpp
index 48afa27..feb845e 100644
--- a/ThermoFun/Substances/Gases/GasSRK.cpp
+++ b/ThermoFun/Substances/Gases/GasSRK.cpp
@@ -1,4 +1,6 @@
+#include <array>
 #include "Substances/Gases/GasSRK.h"
+#include "Common/Exception.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -12,14 +14,20 @@ auto thermoPropertiesGasSRK(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (Pbar.val == 0.0)
         Pbar += 1e-5;
     solmod::TSRKcalc mySRK( 1, (Pbar.val), (TK.val) );
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
+    const auto parameters = subst.thermoParameters();
+    const auto& Cp_intervals = parameters.temperature_intervals;
+    const auto& critical = parameters.critical_parameters;
+    if (critical.empty() || Cp_intervals.empty() || Cp_intervals[0].empty())
+        errorModelParameters("critical", subst.symbol() + " fluid model", __LINE__, __FILE__);
+
+    double TClow = Cp_intervals[0][0];
+    std::array<double, 7> CPg = {}; // parameters that are not given are zero
+    for (unsigned int i = 0; i < CPg.size() && i < critical.size(); i++)
     {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
+        CPg[i] = critical[i];
     }
 
-    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    mySRK.SRKCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
diff --git a/ThermoFun/Substances/Gases/GasSTP.cpp b/ThermoFun/Substances/Gases/GasSTP.cpp
index f8bac3a..f0517ac 100644
--- a/ThermoFun/Substances/Gases/GasSTP.cpp
+++ b/ThermoFun/Substances/Gases/GasSTP.cpp
@@ -1,4 +1,6 @@
+#include <array>
 #include "Substances/Gases/GasSTP.h"
+#include "Common/Exception.h"
 #include "Substances/Gases/s_solmod_.h"
 #include "Substance.h"
 #include "ThermoProperties.h"
@@ -17,14 +19,20 @@ auto thermoPropertiesGasSTP(Reaktoro_::Temperature TK, Reaktoro_::Pressure Pbar,
     if (subst.formula() == "H2O") Eos_Code = 'V';
 
     solmod::TSTPcalc mySTP( 1, Pbar.val, (TK.val), Eos_Code );  // modified 05.11.2010 (TW)
-    double TClow = subst.thermoParameters().temperature_intervals[0][0];
-    double * CPg = new double[7];
-    for (unsigned int i = 0; i < 7; i++)
+    const auto parameters = subst.thermoParameters();
+    const auto& Cp_intervals = parameters.temperature_intervals;
+    const auto& critical = parameters.critical_parameters;
+    if (critical.empty() || Cp_intervals.empty() || Cp_intervals[0].empty())
+        errorModelParameters("critical", subst.symbol() + " fluid model", __LINE__, __FILE__);
+
+    double TClow = Cp_intervals[0][0];
+    std::array<double, 7> CPg = {}; // parameters that are not given are zero
+    for (unsigned int i = 0; i < CPg.size() && i < critical.size(); i++)
     {
-        CPg[i] = subst.thermoParameters().critical_parameters[i];
+        CPg[i] = critical[i];
     }
 
-    mySTP.STPCalcFugPure( (TClow/*+273.15*/), (CPg), FugProps );
+    mySTP.STPCalcFugPure( (TClow/*+273.15*/), CPg.data(), FugProps );
 
     // increment thermodynamic properties
     tps.gibbs_energy += R_CONSTANT * (TK) * log( FugProps[0] );
-- 
2.43.0


From 6407dd91cebef9fea7092b034c0f1484371cace8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 52/60] fix: the heat capacity integration reads only the
 intervals and phase transitions of the record

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 9c646a0..00ba52e 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -44,7 +44,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
     // get Cp interval -> this has to go!!!!
     for (size_t i = 0; i < thermo_parameters.temperature_intervals.size(); i++)
     {
-        if (thermo_parameters.temperature_intervals[i].size() > 0)
+        if (thermo_parameters.temperature_intervals[i].size() > 1)
         {
             if ((thermo_parameters.temperature_intervals[i][0] <= TK) && (thermo_parameters.temperature_intervals[i][1] > TK))
             {
@@ -73,6 +73,13 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
     //k = 0; fix
 
+    // every interval up to the current one needs its coefficients and, where there are several, its limits
+    for (int i = 0; i <= k; i++)
+    {
+        if (thermo_parameters.Cp_coeff.size() <= static_cast<size_t>(i) || (k > 0 && thermo_parameters.temperature_intervals[i].size() < 2))
+            errorModelParameters("Cp empirical coefficients", substance.symbol() + " empirical Cp integration", __LINE__, __FILE__);
+    }
+
     for (unsigned i = 0; i < thermo_parameters.Cp_coeff[k].size(); i++)
     {
         if (i == 16)
@@ -120,7 +127,8 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
             RaiseError(exception)
         }
 
-        if (j && thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
+        if (j && ft < thermo_parameters.phase_transition_prop.size() && thermo_parameters.phase_transition_prop[ft].size() > 0 &&
+            thermo_parameters.phase_transition_prop[ft][0] <= TrK /*-C_to_K*/)
         {                                                               // Adding parameters of phase transition
             if (thermo_parameters.phase_transition_prop[ft].size() > 1) // dS
                 S += thermo_parameters.phase_transition_prop[ft][1];
-- 
2.43.0


From 7fe4eb2b9e7424b97500b333b7ca100edbe8b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 53/60] fix: coefficients of one heat capacity interval do not
 enter the next one

---
 ThermoFun/Substances/EmpiricalCpIntegration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ThermoFun/Substances/EmpiricalCpIntegration.cpp b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
index 00ba52e..0782941 100644
--- a/ThermoFun/Substances/EmpiricalCpIntegration.cpp
+++ b/ThermoFun/Substances/EmpiricalCpIntegration.cpp
@@ -142,6 +142,7 @@ auto thermoPropertiesEmpCpIntegration(Reaktoro_::Temperature TK, Reaktoro_::Pres
 
         G -= S * (TK - TrK);
 
+        ac.assign(16, 0.0); // not those of the interval before
         for (unsigned i = 0; i < thermo_parameters.Cp_coeff[j].size(); i++)
         {
             if (i == 16)
-- 
2.43.0


From c9374c62d3a25fb4315765ab879557273fe81d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:00 +0000
Subject: [PATCH 54/60] fix: the Birch-Murnaghan model does not read past eight
 coefficients

---
 ThermoFun/Substances/Solids/SolidBMGottschalk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
index 09364f5..add93b2 100644
--- a/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
+++ b/ThermoFun/Substances/Solids/SolidBMGottschalk.cpp
@@ -86,7 +86,7 @@ Reaktoro_::ThermoScalar vt, /*vpt,*/ a1, a2, a3, /*a4, a5,*/ kt00, kt0, dkdt, kp
     kt00 = BMConst[5];
     dkdt = BMConst[6];
     kp = BMConst[7];
-    kpp = BMConst[8];
+    kpp = BMConst.size() > 8 ? BMConst[8] : 0.0;
 
     Reaktoro_::Pressure Pplus = P.val + Pincr.val;
     Reaktoro_::Pressure Pminus = P.val - Pincr.val;
-- 
2.43.0


From ca0afbb37d0a7f6663f173c2116b3ccc25b627d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:09 +0000
Subject: [PATCH 55/60] fix: HGK water evaluations share no work data

---
 .../Substances/Solvent/WaterHGK-JNgems.cpp    | 26 +++++++++----------
 .../Substances/Solvent/WaterHGK-JNgems.h      | 13 ++++++++++
 2 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index 7e60a0b..ea221e9 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -367,20 +367,20 @@ auto  WaterHGKgems::TdegK(int it, double t) -> double
 
 WaterHGKgems::WaterHGKgems()
 {
-    // set global constant
+    // start from the constants, in data of this instance
     //  npH2O++;
-    ac = &ac_;
-    nc = &nc_;
-    el = &el_;
-    bcn = &bc_;
-    ad = &ad_;
-    hc = &hc_;
-    to = &to_;
-    hb = &hb_;
-    li = &li_;
-    tt = &tt_;
-    cr = &cr_;
-    co = &co_;
+    ac_own = ac_; ac = &ac_own;
+    nc_own = nc_; nc = &nc_own;
+    el_own = el_; el = &el_own;
+    bcn_own = bc_; bcn = &bcn_own;
+    ad_own = ad_; ad = &ad_own;
+    hc_own = hc_; hc = &hc_own;
+    to_own = to_; to = &to_own;
+    hb_own = hb_; hb = &hb_own;
+    li_own = li_; li = &li_own;
+    tt_own = tt_; tt = &tt_own;
+    cr_own = cr_; cr = &cr_own;
+    co_own = co_; co = &co_own;
 }
 
 auto WaterHGKgems::calculateWaterHGKgems(double T, double &P, WaterTripleProperties wtr) -> void
diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.h b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.h
index aa2b436..d88e9bd 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.h
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.h
@@ -294,6 +294,19 @@ private:
     TPOINT   *tt;
     CRITS    *cr;
     COEFS    *co;
+    // the instance's own constants and work data, which the pointers refer to
+    ACONST ac_own;
+    NCONST nc_own;
+    ELLCON el_own;
+    BCONST bcn_own;
+    ADDCON ad_own;
+    HGK_CRT hc_own;
+    TOLERS to_own;
+    HGK_BND hb_own;
+    LIQICE li_own;
+    TPOINT tt_own;
+    CRITS cr_own;
+    COEFS co_own;
 
     auto unit(int it, int id, int ip, int ih, int itripl, WaterTripleProperties wtr) -> void;
     auto tpset(WaterTripleProperties wtr ) -> void;
-- 
2.43.0


From a08323c1d509893ad4d53812bcc87a1fdd9ac6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:09 +0000
Subject: [PATCH 56/60] fix: the CGF fluid model keeps its work variables per
 thread

---
 ThermoFun/Substances/Gases/s_solmod2_.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ThermoFun/Substances/Gases/s_solmod2_.cpp b/ThermoFun/Substances/Gases/s_solmod2_.cpp
index 3ae47b4..dd8f5c7 100644
--- a/ThermoFun/Substances/Gases/s_solmod2_.cpp
+++ b/ThermoFun/Substances/Gases/s_solmod2_.cpp
@@ -1421,8 +1421,8 @@ long int TCGFcalc::CGActivCoefRhoT( double *X, double *param, double *act,
 
 double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 		{{-0.257431, 0.439229,  0.414783,  -0.457019, -0.145520,  0.299666},
 		{-0.396724, 0.690721,  0.628935,  -0.652622, -0.201462, -0.23163 },
@@ -1480,8 +1480,8 @@ double TCGFcalc::DIntegral( double T, double ro, unsigned long int IType )
 
 double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.010391, 1.628552,  2.077476,  -2.30162 , -0.689931, -2.688117},
 	{ -1.228611, 2.060090,  2.463396,  -2.453303, -0.573894, -3.350638},
@@ -1522,8 +1522,8 @@ double TCGFcalc::LIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 {
-	static double TOld,roOld;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld;
+	static thread_local double a,b,c,d,e;
 	static double data[][6]=
 	{{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720},
 	{ -1.309550, 2.249120,  2.135877,  -2.278530, -0.773166, -3.704690},
@@ -1575,8 +1575,8 @@ double TCGFcalc::KIntegral( double T, double ro,unsigned long int IType )
 
 double TCGFcalc::K23_13( double T, double ro )
 {
-	static double TOld,roOld,KOLD;
-	static double a,b,c,d,e;
+	static thread_local double TOld,roOld,KOLD;
+	static thread_local double a,b,c,d,e;
 	static double dtmp[]=
 	{ -1.050534, 1.747476,  1.749366,  -1.999227, -0.661046, -3.028720};
 
@@ -1755,7 +1755,7 @@ double TCGFcalc::dHS( double beta,double ro )
 
 double TCGFcalc::FWCA( double T,double ro )
 {
-	static double TOld,roOld,F;
+	static thread_local double TOld,roOld,F;
 	double d,beta,nu,nuw;
 	double nu1w1,nu1w2,nu1w3,nu1w4,nu1w5;
 	double a0,a1,a2,a3;
-- 
2.43.0


From 394392011d7b35860dfdffcb0f0261c7b7e22daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:09 +0000
Subject: [PATCH 57/60] fix: the iterations of the HGK saturation line end

---
 ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
index ea221e9..eadb07a 100644
--- a/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
+++ b/ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp
@@ -1099,7 +1099,7 @@ auto WaterHGKgems::TsLVS(int isat, double Pres) -> double
         if (TsLVS2 > cr->Tc)
             TsLVS2 = cr->Tc;
     }
-    while( (++i > 20) || ( fabs(dT / TsLVS2) > 1.0e-8 ));
+    while( (++i < 20) && ( fabs(dT / TsLVS2) > 1.0e-8 ));
     TsLVS = TsLVS2;
     return(TsLVS);
 }
@@ -1539,7 +1539,7 @@ auto WaterHGKgems::cpswap() -> void
 auto WaterHGKgems::LVSeqn(int isat, int iopt, int itripl, double TC,
                      double *P, double *Dens0, int /*epseqn*/) -> void
 {
-    int  cpoint=0, ioptsv=0, sW=0;
+    int  cpoint=0, ioptsv=0, sW=0, pass=0;
     double dL=0., dV=0., cdens=0.;
 
     /* cpoint = 0; */
@@ -1593,7 +1593,7 @@ auto WaterHGKgems::LVSeqn(int isat, int iopt, int itripl, double TC,
             }
         }
     }
-    while ( sW != 0 );
+    while ( (sW != 0) && (++pass < 2) );
 }
 
 //--------------------------------------------------------------------//
@@ -2099,6 +2099,7 @@ auto WaterHGKgems::tcorr(int itripl, double *t, double *p, double *dL, double *d
                     int epseqn) -> void
 {
     double delg, dp;
+    int i = 0;
 
     *t = TsHGK(*p);
     if (*t == 0.0e0)
@@ -2112,7 +2113,7 @@ auto WaterHGKgems::tcorr(int itripl, double *t, double *p, double *dL, double *d
         dp = delg * ac->gascon * *t / (1.0e0 / *dV - 1.0e0 / *dL);
         *t *= (1.0e0 - dp / TdPsdT(*t));
     }
-    while ( !(fabs(delg) > 1.0e-4) );
+    while ( (fabs(delg) > 1.0e-4) && (++i < 100) );
 }
 
 //--------------------------------------------------------------------//
@@ -2493,6 +2494,7 @@ auto WaterHGKgems::pcorr(int itripl, double t, double *p, double *dL,
                     double *dV, int epseqn) -> void
 {
     double dp;
+    int i = 0;
     *p  = PsHGK(t);
     *dL= 0.0e0;
     *dV = 0.0e0;
@@ -2502,7 +2504,7 @@ auto WaterHGKgems::pcorr(int itripl, double t, double *p, double *dL,
         dp   = trp.delg * ac->gascon * t / (1.0e0 / *dV - 1.0e0 / *dL);
         *p  += dp;
     }
-    while ( fabs(trp.delg) > 1.0e-4 );
+    while ( (fabs(trp.delg) > 1.0e-4) && (++i < 100) );
 }
 
 auto WaterHGKgems::resid(double t, double *d) -> void
-- 
2.43.0


From cf11c96f575e2ef1899d7654f625056c65ba4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:09 +0000
Subject: [PATCH 58/60] fix: an empty CSV separator does not write the header
 for ever

---
 ThermoFun/Batch/OutputBatch.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ThermoFun/Batch/OutputBatch.cpp b/ThermoFun/Batch/OutputBatch.cpp
index 4c78e7a..acd3f37 100644
--- a/ThermoFun/Batch/OutputBatch.cpp
+++ b/ThermoFun/Batch/OutputBatch.cpp
@@ -33,6 +33,8 @@ Output::Output(const ThermoBatch& batch)
 
 auto find_and_replace(std::string source, std::string const& find, std::string const& replace) -> std::string
 {
+    if (find.empty()) // found at every place
+        return source;
     for(std::string::size_type i = 0; (i = source.find(find, i)) != std::string::npos;)
     {
         source.replace(i, find.length(), replace);
-- 
2.43.0


From 0409e5501391421b17f2868eb6b46e9c0dec6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:49 +0000
Subject: [PATCH 59/60] fix: the saturated vapour density of water has no
 factor Tc/T in its exponent

---
 ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
index e344a25..d8fc52c 100644
--- a/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
+++ b/ThermoFun/Substances/Solvent/Reaktoro/WaterUtils.cpp
@@ -175,7 +175,7 @@ auto waterSaturatedVapourDensityWagnerPruss(Reaktoro_::Temperature T) -> Reaktor
     const auto t376 = t186 * t186 * t16;
     const auto t716 = t376 * t186 * t86 * t86;
 
-    return Dcr * exp(Tcr/T * (c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716));
+    return Dcr * exp(c1*t26 + c2*t46 + c3*t86 + c4*t186 + c5*t376 + c6*t716);
 }
 
 } // namespace Reaktoro
-- 
2.43.0


From 59ff741fa235850bed0eaf91aa58783b92da1b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:49 +0000
Subject: [PATCH 60/60] fix: the second pressure derivative of Zhang and Duan's
 water density is per Pa2

---
 ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
index ecc57d1..7162a4d 100644
--- a/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
+++ b/ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp
@@ -196,7 +196,7 @@ auto propertiesWaterZhangDuan2005(Reaktoro_::Temperature T, Reaktoro_::Pressure
     ps.densityT  = DdT; ps.densityT.ddp*=1e-05;
     ps.densityP  = DdP*1e-05;
     ps.densityTT = Dd2T; ps.densityTT.ddp*=1e-05;
-    ps.densityPP = Dd2P*1e-05;
+    ps.densityPP = Dd2P*1e-10;
     ps.Alpha     = -ps.densityT/ps.density;
     ps.Beta      = ps.densityP/ps.density/*/1e+05*/; // from 1/bar to 1/Pa
     ps.dAldT     = -ps.densityTT/ps.density + ps.Alpha*ps.Alpha;
-- 
2.43.0

