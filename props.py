"""The properties: one entry each; gen.py writes properties.jsonl and MANIFEST.json from here."""
ENG = "ThermoFun/ThermoEngine.cpp"
PROPS = []
NA = []
def P(**k): PROPS.append(k)
def N(**k): NA.append(k)
TERMS = "static value-flow analysis: gated value-graph terms of the source, compared by algebraic normal form"

P(id="E05", title="Reaction properties from reactants are the coefficient-weighted sums",
  statement="When a reaction's properties are computed from its reactants, each of Gibbs energy, enthalpy, entropy, volume, Cp, Cv, internal energy and Helmholtz energy is the sum over all reactants of the stoichiometric coefficient times that substance's property at the same temperature and pressure. ln K equals minus the Gibbs energy of reaction over RT, and log K is ln K divided by ln 10.",
  over=["inputs", "configurations"], qtext="every reaction, whatever its reactants and coefficients, at every T and P",
  why="tests evaluate a handful of reactions with few reactants, at few conditions, and compare only some of the properties",
  files=[ENG], mech=[("sum over reactants", ENG + ": thermoPropertiesReactionFromReactants")],
  tech=TERMS, note="Exact over the reals for every reaction and condition; values of the substance properties themselves are other properties' business.")
P(id="E06", title="Reaction-defined substances invert the reaction's property balance",
  statement="The properties of a substance defined by a reaction are the reaction's properties minus the coefficient-weighted properties of the other reactants, divided by the substance's own coefficient, all at the given temperature and pressure. If the substance asks for a constant volume, the constant-volume pressure correction is applied at that temperature and pressure.",
  over=["inputs", "configurations"], qtext="every reaction-defined substance, reaction and condition",
  why="tests contain few reaction-defined substances, all with coefficients of plus or minus one",
  files=[ENG], mech=[("reaction-defined substance", ENG + ": reacDCthermoProperties and helpers")],
  tech=TERMS, note="Exact over the reals; the reaction and substance evaluations are opaque terms of their arguments.")
P(id="E07", title="Every method identifier is evaluated by the model it names",
  statement="For every calculation method a substance, solvent or reaction record can name, the engine evaluates the model published under that name, at the caller's temperature and pressure. A substance's temperature and pressure corrections are applied in that order, each to the result of the stage before it.",
  over=["configurations", "inputs"], qtext="every method identifier of the general, temperature and pressure families that has a model",
  why="a test exercises only the methods its database happens to use; a wrong dispatch for another method goes unseen",
  files=[ENG, "ThermoFun/ThermoModelsSubstance.cpp", "ThermoFun/ThermoModelsSolvent.cpp", "ThermoFun/ThermoModelsReaction.cpp"],
  mech=[("method dispatch", ENG + ": thermoPropertiesSubstance, propertiesSolvent, electroPropertiesSolvent, thermoPropertiesReaction"), ("model classes", "ThermoFun/ThermoModels*.cpp")],
  tech="constant propagation of each method identifier through the dispatch plus call-graph reachability to the model's implementation",
  note="Complete over the method identifiers; which file implements which model is a table confirmed by hand.")
P(id="E10", title="Reference-value fallback replaces exactly the undefined properties",
  statement="With the fallback to reference properties switched on, a property of a substance is its stored reference value exactly when the models left it undefined, and otherwise what the models computed. With it off, the models' results are returned unchanged.",
  over=["inputs", "configurations"], qtext="all eight properties, both settings, any status the models produce",
  why="tests never combine the setting with models that leave only some properties undefined",
  files=[ENG], mech=[("fallback", ENG + ": end of thermoPropertiesSubstance")],
  tech=TERMS, note="Exact on the path through the engine for representative method identifiers.")
TS = "ThermoFun/Common/ThermoScalar.hpp"
TSF = [TS]
P(id="S01", title="Thermodynamic scalars carry exact values and T, P derivatives",
  statement="Every arithmetic operation, compound assignment, comparison, power, square root, exponential and logarithm of thermodynamic scalars yields the mathematical value. Its temperature and pressure derivatives follow the chain rule. A temperature has dT/dT = 1, a pressure has dP/dP = 1, a number has zero derivatives, and copying preserves value, both derivatives and error.",
  over=["inputs"], qtext="every operation, operand kind and real operand value (isolated zero operands that an operation treats specially apart)",
  why="no test looks at the derivative fields at all",
  files=TSF, mech=[("operators and functions on thermodynamic scalars", TS)],
  tech="static value-flow analysis: instantiated operations as value-graph terms, compared with symbolic derivatives by algebraic normal form",
  note="Exact over the reals for each operation.")
P(id="S02", title="A result is undefined exactly when an operand is undefined",
  statement="The status of the result of an operation on thermodynamic scalars is undefined exactly when the status of one of its scalar operands is undefined. A scalar assigned from a number is defined; a default-constructed scalar is undefined; copying a scalar keeps its status.",
  over=["inputs"], qtext="every operation and every combination of operand statuses",
  why="tests never combine undefined operands with each operation",
  files=TSF, mech=[("status propagation", TS)],
  tech="static value-flow analysis of the status field, enumerating every combination of undefined operands",
  note="Complete over operations and status combinations.")
P(id="S03", title="Errors propagate to first order and are never negative",
  statement="The error of the result of an operation on thermodynamic scalars is the first-order propagated error: the root of the sum of squares of each operand's partial derivative times its error. It is never negative for non-negative operand errors.",
  over=["inputs"], qtext="every operation and all real operand values and errors (isolated zero operands apart)",
  why="tests check no propagated error",
  files=TSF, mech=[("error propagation", TS)],
  tech="static value-flow analysis: squared error terms compared with symbolic partial derivatives by algebraic normal form",
  note="Exact over the reals, for independent operand errors.")

MS = "ThermoFun/Substances/Solids/"
CASP = "static value-flow analysis: value-graph terms of the model, differentiated symbolically and compared by algebraic normal form in every case of their conditions"
P(id="T01", title="Solid models return thermodynamically consistent properties",
  statement="The properties returned by the Berman, Murnaghan, Holland-Powell Landau and constant-volume pressure corrections satisfy, wherever the record they correct does: U = H - PV, A = U - TS, S = -dG/dT, V = dG/dP, Cp = dH/dT = T dS/dT, with G - H + TS independent of pressure. At the reference temperature and pressure the correction of G, H and S vanishes (Landau: below the transition; Murnaghan: at zero pressure) and the volume equals the reference volume.",
  over=["inputs"], qtext="every substance record, temperature and pressure (isolated transition points apart)",
  why="tests compare a few minerals at few conditions with stored numbers and check no relation between the properties",
  files=[MS + x for x in ("SolidBerman88.cpp", "SolidMurnaghanHP98.cpp", "SolidHPLandau.cpp")] + ["ThermoFun/ThermoModelsSubstance.cpp"],
  mech=[("solid pressure and temperature corrections", MS + "Solid*.cpp"), ("constant volume correction", "ThermoFun/ThermoModelsSubstance.cpp: ConMolVol")],
  tech=CASP, note="Exact over the reals for every parameter; numeric agreement with published values is not claimed.")
P(id="T02", title="Heat capacity integration is consistent in every interval",
  statement="Empirical heat-capacity integration returns the Cp polynomial of the temperature interval that contains T, and G, H, S with S = -dG/dT, Cp = dH/dT = T dS/dT. At the reference temperature they are the reference values. Across a phase transition G is continuous and H, S and V change by the transition's increments. Outside all intervals the nearest one is used, and coefficients an interval lacks count as zero, whatever other intervals have. Constant-Cp integration obeys the same relations.",
  over=["inputs"], qtext="every coefficient, interval boundary, transition increment, temperature and pressure, for records with one to three intervals",
  why="tests use records with one interval and compare with stored numbers",
  files=["ThermoFun/Substances/EmpiricalCpIntegration.cpp", "ThermoFun/Substances/StandardEntropyCpIntegration.cpp"],
  mech=[("Cp integration", "ThermoFun/Substances/EmpiricalCpIntegration.cpp"), ("constant Cp", "ThermoFun/Substances/StandardEntropyCpIntegration.cpp")],
  tech=CASP, note="Bounded to three temperature intervals; everything else symbolic.")
SO = "ThermoFun/Substances/Solute/"
P(id="T03", title="Aqueous solute models return thermodynamically consistent properties",
  statement="The derivative fields of the HKF solvent function g (below 1 g/cm3) and of the Born coefficient are the derivatives of the value fields. The records returned by the HKF, Holland-Powell 98 and Akinfiev-Diamond models satisfy U = H - PV, A = U - TS, S = -dG/dT, V = dG/dP and Cp = dH/dT = T dS/dT, given the solvent's properties and their derivatives; Anderson 91 the same except V = dG/dP. The Born coefficient with g = 0 is the tabulated one, and Akinfiev-Diamond returns the starting G, H and S at the reference conditions.",
  over=["inputs"], qtext="every substance record, solvent state, temperature and pressure (isolated transition points apart)",
  why="tests compare a few ions at few conditions with stored numbers, and no derivative field at all",
  files=[SO + x for x in ("SoluteHKFgems.cpp", "SoluteHKFreaktoro.cpp", "SoluteHollandPowell98.cpp", "SoluteAnderson91.cpp", "SoluteADgems.cpp")],
  mech=[("solvent function and Born coefficient", SO + "SoluteHKFgems.cpp: gShok2, omeg92; SoluteHKFreaktoro.cpp: functionG, speciesElectroStateHKF"), ("property records", SO + "Solute*.cpp")],
  tech=CASP, note="Exact over the reals; the HKF volume to 2e-6 because the code's two calorie factors differ by 1e-6.")
RX = "ThermoFun/Reactions/"
P(id="T05", title="Reaction models return consistent properties and equilibrium constants",
  statement="For the Dolejs-Manning, Marshall-Franck and Ryzhenko-Bryzgalin models, and for log K as a function of temperature, ln K = -G/(RT), log K = ln K / ln 10, U = H - PV, A = U - TS, S = -dG/dT and Cp = dH/dT = T dS/dT; the density models also satisfy V = dG/dP. Reference G, H, S are reproduced at the reference temperature when extrapolating from Cp coefficients or with three terms. One- and zero-term extrapolations keep the reference H and S and are held to ln K and log K only.",
  over=["inputs"], qtext="every coefficient set, combination of given reference properties, solvent state, temperature and pressure",
  why="tests use few reactions at few conditions and check log K only",
  files=[RX + x for x in ("DolejsManning2010.cpp", "FrantzMarshall.cpp", "RyzhenkoBryzgalyn.cpp", "LogK_function_of_T.cpp")],
  mech=[("density models", RX + "DolejsManning2010.cpp, FrantzMarshall.cpp, RyzhenkoBryzgalyn.cpp"), ("log K of T", RX + "LogK_function_of_T.cpp")],
  tech=CASP, note="Exact over the reals. A record giving both log K and Cp coefficients is outside the claim.")
P(id="T06", title="Conversions between log K and Cp coefficients preserve the reaction",
  statement="Converting Cp coefficients of a reaction to log K coefficients, or back, stores coefficients whose log K function has exactly that heat capacity, and keeps the coefficients it starts from. The properties it returns are those of the log K function at the reference temperature, so the reference enthalpy and entropy are preserved. The log K coefficients of the two- and three-term extrapolations give that extrapolation's log K at every temperature.",
  over=["inputs"], qtext="every coefficient, reference property and temperature",
  why="no test converts coefficients",
  files=["ThermoFun/Reaction.cpp"], mech=[("coefficient conversions", "ThermoFun/Reaction.cpp: convert_CpfT_to_logKfT, convert_logKfT_toCpfT, calc_logK_fT_coefficients")],
  tech=CASP, note="Exact over the reals, constants to 1e-7.")
RK = "ThermoFun/Substances/Solvent/Reaktoro/"
SV = "ThermoFun/Substances/Solvent/"
P(id="T04", title="Water's Helmholtz energy fields are exact derivatives of one function",
  statement="For both equations of state of water (Haar-Gallagher-Kell and Wagner-Pruss), the ten fields of the Helmholtz state are one Helmholtz energy and its exact first, second and third partial derivatives with respect to temperature and density. The pressure that belongs to a temperature and density is density squared times the density derivative of the same equation of state.",
  over=["inputs"], qtext="every temperature and density",
  why="tests compare a few water properties at a few states and no second or third derivative",
  files=[RK + "WaterHelmholtzStateHGK.cpp", RK + "WaterHelmholtzStateWagnerPruss.cpp", RK + "WaterUtils.cpp"],
  mech=[("Helmholtz state", RK + "WaterHelmholtzState*.cpp"), ("pressure of a density", RK + "WaterUtils.cpp: waterPressureHGK, waterPressureWagnerPruss")],
  tech=CASP, note="Exact over the reals with all tabulated constants; whether the tabulated constants are the published ones is not claimed.")
P(id="T07", title="Water's thermodynamic state and records follow from its Helmholtz energy",
  statement="Given a Helmholtz energy and its derivatives, water's state has S = -dF/dT, U = F + TS, H = U + PV, G = H - TS, Cv and Cp from the same derivatives, and the density's derivatives at constant temperature or pressure by implicit differentiation. The HGK and Wagner-Pruss solvent records evaluate that state at the given T and P and preserve these relations: S = -dG/dT, V = dG/dP, Cp = dH/dT, Alpha = -(1/D) dD/dT, Beta = (1/D) dD/dP, dAldT = dAlpha/dT.",
  over=["inputs"], qtext="every Helmholtz energy, temperature, pressure and density",
  why="tests look at few fields at few states",
  files=[RK + "WaterThermoStateUtils.cpp", SV + "WaterHGKreaktoro.cpp", SV + "WaterWP95reaktoro.cpp", "ThermoFun/ThermoModelsSolvent.cpp"],
  mech=[("thermodynamic state", RK + "WaterThermoStateUtils.cpp: waterThermoState"), ("published records", SV + "WaterHGKreaktoro.cpp, WaterWP95reaktoro.cpp")],
  tech=CASP, note="Exact over the reals; the density solver's convergence is not claimed.")
P(id="T08", title="Dielectric constant derivatives and Born functions are consistent",
  statement="In the Johnson-Norton model the derivatives of the dielectric constant are the exact derivatives of its value through the solvent's density and density derivatives. In the Sverjensky and Fernandez models they are central difference quotients of one function of temperature and solvent density at the given T and P. In all three, the Born functions Z, Q, Y, X (and U, N where given) are -1/epsilon and its derivatives.",
  over=["inputs"], qtext="every temperature, pressure and solvent density",
  why="tests check no derivative of the dielectric constant",
  files=[RK + "WaterElectroStateJohnsonNorton.cpp", SV + "WaterElectroSverjensky2014.cpp", SV + "WaterElectroFernandez1997.cpp", "ThermoFun/ElectroModelsSolvent.cpp"],
  mech=[("Johnson-Norton", RK + "WaterElectroStateJohnsonNorton.cpp"), ("numerical differentiation", SV + "WaterElectro*.cpp"), ("published records", "ThermoFun/ElectroModelsSolvent.cpp")],
  tech=CASP, note="Exact over the reals for the formulas; the truncation error of the difference quotients is not claimed.")
P(id="T09", title="The ideal gas record of water is thermodynamically consistent",
  statement="The Woolley ideal gas record of water satisfies G = H - TS, A = U - TS, S = -dG/dT, Cp = dH/dT = T dS/dT, Cv = dU/dT, and H - U equals the gas constant times T with Cp - Cv that same constant.",
  over=["inputs"], qtext="every temperature",
  why="the record only shifts water's reference state, so a wrong derivative stays hidden in tests",
  files=[SV + "WaterIdealGasWolley.cpp"], mech=[("ideal gas", SV + "WaterIdealGasWolley.cpp: waterIdealGas")],
  tech=CASP, note="Exact over the reals.")
P(id="T10", title="Water's equations are the published ones",
  statement="The equations water is computed with are those of the publications they are named after, in form and in every constant: the Helmholtz energies of Wagner and Pruss (IAPWS-95) and of Haar, Gallagher and Kell, the saturation pressure and saturated liquid and vapour densities of Wagner and Pruss, the dielectric constants of Johnson and Norton, Fernandez et al. and Sverjensky et al., and Woolley's ideal gas (up to the reference state).",
  over=["inputs"], qtext="every temperature and density",
  why="a wrong digit or exponent in one of some 300 constants shifts results by less than a test's tolerance at the few conditions it samples, and consistently in all derivatives",
  files=[SV], mech=[("Helmholtz energies", SV + "Reaktoro/WaterHelmholtzStateWagnerPruss.cpp, WaterHelmholtzStateHGK.cpp"), ("saturation", SV + "Reaktoro/WaterUtils.cpp"), ("dielectric constants", SV + "Reaktoro/WaterElectroStateJohnsonNorton.cpp, WaterElectroFernandez1997.cpp, WaterElectroSverjensky2014.cpp"), ("ideal gas", SV + "WaterIdealGasWolley.cpp")],
  tech=CASP, note="Constants compared to a relative 1e-8 (1e-6 for saturation and for Sverjensky et al., whose constants the code rounds). The solution of the equations for a density is V01 and V02.")
P(id="T11", title="The HKF models are the published equations",
  statement="Both HKF models compute the solvent function g of Shock et al. (1992) in its two regions (or zero where it does not apply), the Born coefficient of an ion of either sign from its effective radius, and the apparent Gibbs energy of the revised Helgeson-Kirkham-Flowers equations, in form and in every constant, from the record's parameters. Neutral species and H+ keep the tabulated Born coefficient.",
  over=["inputs"], qtext="every record, charge, temperature, pressure and solvent state",
  why="the derivatives of a wrong g or G are consistently wrong with it, and tests compare a few ions near 25 degC",
  files=[SO + "SoluteHKFgems.cpp", SO + "SoluteHKFreaktoro.cpp"], mech=[("g function", SO + "SoluteHKFgems.cpp: gShok2; SoluteHKFreaktoro.cpp: functionG"), ("Born coefficient", "omeg92; speciesElectroStateHKF"), ("Gibbs energy", "thermoPropertiesAqSoluteHKF*")],
  tech=CASP, note="Constants to a relative 1e-6. The reference values of the Born functions may be either of two published sets.")
P(id="T12", title="Zhang and Duan's water follows its equation",
  statement="The molar volume of water of the Zhang and Duan (2005) model is the one at which the iteration satisfies the published equation of state, with all its constants. Density, its first and second derivatives with respect to temperature and to pressure, thermal expansion, its temperature derivative and compressibility belong to that volume, in kg/m3, K and Pa, and the volume is in J/bar.",
  over=["inputs"], qtext="every temperature and pressure",
  why="no test evaluates this model, and a derivative in the wrong unit of pressure is too small to be seen in a Gibbs energy",
  files=[SV + "WaterZhangDuan2005.cpp"], mech=[("volume iteration", SV + "WaterZhangDuan2005.cpp: waterMolarVolume"), ("solvent record", SV + "WaterZhangDuan2005.cpp: propertiesWaterZhangDuan2005")],
  tech=CASP, note="Derivatives are decided for densities quadratic in temperature and pressure, for which the code's central differences are exact; their truncation and convergence of the iteration are outside (X03 caps it). Molar mass to 1e-5.")
DBF = "ThermoFun/Database.cpp"
P(id="E01", title="Copies of an engine are complete and independent",
  statement="A copied or assigned engine has the database, preferences and conventions of the original, and from then on shares nothing with it: no change to, or destruction of, either engine changes what the other computes. An engine constructed from a database does not depend on that database object afterwards.",
  over=["histories"], qtext="every sequence of copies, assignments, changes and destructions of engines",
  why="a test with one engine, or one copy that is not changed afterwards, cannot see shared state",
  files=[ENG, "ThermoFun/ThermoEngine.h"], mech=[("copy constructor, assignment and function binding", ENG)],
  tech="interprocedural ownership analysis: escape of pointers, references and closures from the original into the copy, plus value-graph comparison of contents",
  note="Sound for sharing through members, captures and helper functions of the engine; the library types' own copies are taken to be deep.")
P(id="D07", title="Copies of records and databases are complete and independent",
  statement="A copy of a database, element, substance or reaction, made by construction or assignment, has the same contents as the original and shares nothing with it: changing either leaves the other as it was.",
  over=["histories"], qtext="every field of every record type and every sequence of copies and changes",
  why="tests copy records without changing them afterwards, and compare few fields",
  files=[DBF] + ["ThermoFun/%s.cpp" % x for x in ("Element", "Substance", "Reaction")], mech=[("copy constructors and assignments", DBF + ", Element.cpp, Substance.cpp, Reaction.cpp")],
  tech="interprocedural ownership analysis over the types of all members, plus value-graph comparison of contents",
  note="The library containers' own copies are taken to be deep.")
P(id="D08", title="Adding keeps stored records, setting replaces them",
  statement="Adding a record, singly, as JSON or in a map, stores it under its symbol unless a record with that symbol is stored, which is then kept. Setting stores it in place of any record with that symbol. Records of other kinds are untouched. The number, list of symbols and list of records are those of the records stored.",
  over=["histories", "inputs"], qtext="every database content and record, for elements, substances and reactions",
  why="tests add distinct symbols to one small database",
  files=[DBF], mech=[("stores of records", DBF + ": add*, set*, addMap*, setMap*"), ("enumeration", DBF + ": numberOf*, get*List, get*s")],
  tech="static value-flow analysis: value-graph terms of the record maps after each operation",
  note="Exact for every map content; records read from files by appendData overwrite by design and are not claimed.")
P(id="E08", title="Lookups of missing symbols fail and add nothing",
  statement="Asking a database for a substance, element or reaction by a symbol that is not stored throws and leaves the database as it was. For a stored symbol the record stored under it is returned. Whether a record is contained is answered by whether its symbol is stored.",
  over=["inputs"], qtext="every symbol and database content",
  why="tests look up a few symbols that exist",
  files=[DBF], mech=[("lookups", DBF + ": getElement, getSubstance, getReaction, contains*")],
  tech="static value-flow analysis under the assumptions that the symbol is absent or present",
  note="The const lookups; the non-const accessors create records by design.")
P(id="D06", title="Element data reach the formula parser whenever elements change",
  statement="After any operation that stores element records in a database (adding, setting, maps, appended JSON, construction), the formula parser holds exactly those records' symbol, class and isotope together with their mass, entropy, heat capacity, volume, number and valence. An element restored from the formula parser has the same data.",
  over=["histories"], qtext="every operation that stores elements, in any order, with any values",
  why="tests parse formulas of databases loaded once",
  files=[DBF, "ThermoFun/Element.cpp"], mech=[("hand-over", DBF + ": setDBElement and its callers"), ("conversion", "ThermoFun/Element.cpp: toElementKey, Element(ElementKey, ElementValues)")],
  tech="static value-flow analysis: every store of an element record is followed by a hand-over of equal value-graph terms",
  note="The formula parser itself is an external library. The fill-in of an unknown valence is allowed.")
P(id="D05", title="Records are ordered by a strict weak order that agrees with equality",
  statement="For elements and for substances, operator< is a strict weak order (irreflexive, asymmetric, transitive, with transitive incomparability), operator> is its converse, operator== is an equivalence relation, and two records neither of which is less compare equal.",
  over=["inputs"], qtext="every pair and triple of records",
  why="an ordered container misbehaves only for particular triples of records, which no test builds",
  files=["ThermoFun/Element.cpp", "ThermoFun/Substance.cpp"], mech=[("comparison operators", "ThermoFun/Element.cpp, ThermoFun/Substance.cpp")],
  tech="symbolic evaluation of the operators, enumerated over all orders of the fields compared",
  note="Complete: the operators depend only on how corresponding fields compare, and all combinations are enumerated.")
P(id="E02", title="Memoized evaluations return what the evaluation itself would",
  statement="With result caching on, bounded or unbounded, a query answers from the cache only a call with the same values of all its arguments, and then returns that call's result and leaves the caller's variables as that call left them. Without a stored result it evaluates. Storing a result alters no other stored result; keys and results hold no references to the caller's variables. Arguments that are not numbers bypass the cache.",
  over=["histories", "inputs"], qtext="every sequence of queries with any arguments, any cache limit, for each of the four cached functions",
  why="only particular sequences of queries that reuse the caller's variables reveal a wrong cache key or stale reference",
  files=["ThermoFun/OptimizationUtils.h", ENG], mech=[("memoizers", "ThermoFun/OptimizationUtils.h: memoize, memoizeN")],
  tech="static value-flow analysis of the instantiated memoizers with a symbolic cache: hit and miss compared as value-graph terms",
  note="Exact for every cache content, given that evaluations depend on their arguments and the settings only.")
P(id="E03", title="Cached results never outlive the settings or data they came from",
  statement="After any change to an engine's preferences, conventions, solvent symbol or database, a query never answers with results calculated before the change: cached results are used only while every setting that an evaluation reads equals the one they were calculated with, and are discarded before the database changes, also when the change fails half-way.",
  over=["histories", "configurations"], qtext="every sequence of queries, setting changes and appended data",
  why="tests change settings on fresh engines, not between queries for the same arguments",
  files=[ENG, "ThermoFun/ThermoEngine.h"], mech=[("binding and discarding of cached functions", ENG + ": set_fn, refresh_fn, the public queries, appendData")],
  tech="static value-flow analysis: gated terms of the cached functions at every query, against the settings read by the evaluations (call-graph closure)",
  note="The set of settings that matter is computed from the source; changes through const_cast by callers are outside.")
P(id="E04", title="Queries change neither the engine nor the records",
  statement="No const operation of an engine, database, substance, reaction or element changes the object's database, settings or data, or the records passed to it. In particular evaluating properties never adds records to the database or changes the solvent symbol.",
  over=["histories", "inputs"], qtext="every public const operation, every argument and state",
  why="the implementation is reached through a pointer, so the compiler does not enforce it, and a test would have to compare whole databases after each call",
  files=[ENG, DBF, "ThermoFun/Substance.cpp", "ThermoFun/Reaction.cpp", "ThermoFun/Element.cpp"], mech=[("const operations", "ThermoFun/ThermoEngine.h, Database.h, Substance.h, Reaction.h, Element.h")],
  tech="interprocedural effect analysis: everything reachable from the object through pointers, references and iterators is followed through the call graph and checked for writes",
  note="Cached results are not observable state and are exempt; calls into other libraries on const objects are taken to be pure.")
P(id="E09", title="Queries leave the caller's pressure in Pa: as given or saturated",
  statement="Every query hands the caller's pressure variable to the solvent models, which alone may change it. A pressure given as zero (for the GEMS water code: below the triple point's) becomes water's saturation pressure at the temperature, in Pa; any other stays as given, up to rounding. A query that throws never leaves it in another unit.",
  over=["inputs", "histories"], qtext="every query, temperature and pressure, and every failure inside a model",
  why="a pressure left in bar only shows in the next query that reuses the variable, or after a failure tests do not provoke",
  files=[ENG, "ThermoFun/ThermoModelsSolvent.cpp", "ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp"], mech=[("solvent models", "ThermoFun/ThermoModelsSolvent.cpp: WaterHGK, WaterHGKreaktoro, WaterWP95reaktoro"), ("HGK code", "ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp: calculateWaterHGKgems")],
  tech="alias and effect analysis of the pressure reference through the call graph; gated value-graph terms of each value written to it",
  note="The saturation pressure functions themselves are T04's and T07's business or opaque.")
P(id="D04", title="A record returns what was set, and setting touches nothing else",
  statement="For substances, reactions and elements: after a setter the getter of the same name returns the value set and every other getter returns what it returned before; getters of different names show different data. A new substance or reaction refers to 298.15 K and 1 bar.",
  over=["inputs", "histories"], qtext="every setter, getter, value and record state",
  why="tests set and get a few fields; a setter that stores to, or clears, a sibling field shows only in the combination",
  files=["ThermoFun/%s.cpp" % x for x in ("Element", "Substance", "Reaction")], mech=[("setters and getters", "ThermoFun/Substance.cpp, Reaction.cpp, Element.cpp")],
  tech="value-graph terms of all getters over the symbolic record after each setter",
  note="Exact for every setter and getter pair.")
P(id="M02", title="Pressure corrections of gases and constant-volume substances are consistent",
  statement="For constant-volume substances the volume is the reference volume and G and H grow by V (P - Pr); without a reference volume nothing changes. Each fluid model adds its enthalpy and entropy departures, once, to H and S and gives its volume (an ideal gas R T / P); where corrected to pressure, G and H grow by V (P - Pr). Heat capacities stay, and U = H - P V and A = U - T S hold.",
  over=["inputs"], qtext="every temperature, pressure and state before the correction",
  why="tests compare a few reference numbers of few gases",
  files=[MS] + ["ThermoFun/Substances/Gases/Gas%s.cpp" % x for x in ("CORK", "PRSV", "CGF", "SRK", "PR78", "STP")], mech=[("corrections", MS + ": ConMolVol, IdealGasLawVol and the gas wrappers; ThermoFun/Substances/Gases/Gas*.cpp")],
  tech="symbolic value-graph evaluation, identities decided by algebraic normal forms",
  note="The equations of state that give the departures are opaque.")
P(id="M03", title="Models read a record's coefficient lists only as far as they go",
  statement="Whatever number of coefficients, heat capacity intervals or phase transitions a record holds, none or too few included, no model reads past the end of one of these lists: it takes what is missing as zero or not given, or raises an error.",
  over=["inputs"], qtext="every model, list length up to 13 (combinations of several lists: 0, 1, 2, 4, 7, 13), up to four intervals and three transitions, and every coefficient value",
  why="the records tests read are complete; reading past the end of one that is not rarely fails visibly",
  files=["ThermoFun/ThermoModelsSubstance.cpp", "ThermoFun/ThermoModelsReaction.cpp", "ThermoFun/Reactions", "ThermoFun/Substances"], mech=[("reaction models", "ThermoFun/Reactions"), ("heat capacity intervals", "ThermoFun/Substances/EmpiricalCpIntegration.cpp"), ("gas models", "ThermoFun/Substances/Gases"), ("solute models", "ThermoFun/Substances/Solute"), ("solid models", "ThermoFun/Substances/Solids")],
  tech="gated evaluation of every model on records with concrete list lengths and symbolic values; every index event against the length",
  note="Reads inside the fluid solvers past their entry points are outside the analysis.")
P(id="M04", title="Model bounds are checked in the record's units and only annotate",
  statement="Each model with validity limits compares its temperature in K and pressure in Pa with the record's limits, and annotates the results exactly when one is outside. The annotation goes to every property of that status and to no other, once; values, errors and statuses stay as they are.",
  over=["inputs"], qtext="every temperature, pressure, limits and results",
  why="tests evaluate within the limits, where nothing is annotated",
  files=["ThermoFun/Substance.cpp", "ThermoFun/Reaction.cpp", "ThermoFun/Common/Exception.cpp", MS], mech=[("check", "ThermoFun/Substance.cpp: checkCalcMethodBounds"), ("annotation", "ThermoFun/Common/Exception.cpp: setMessage"), ("callers", "ThermoFun/Substances")],
  tech="gated value-graph terms of the check, the annotations and the arguments at every call site",
  note="What the limits are is the record's business.")
P(id="X01", title="Failures surface as standard exceptions that say what failed",
  statement="Whatever the library throws derives from std::exception. No public operation ends the process, no destructor throws, and only malformed JSON is caught and logged instead of being passed on. The error helpers never return (the conditional one returns exactly if its condition is false), and the message holds the error and reason given, with the names of what failed.",
  over=["inputs", "fault_sequences"], qtext="every throw site, handler and public operation",
  why="failure paths are not exercised by tests",
  files=["ThermoFun/Common/Exception.cpp", "ThermoFun/Common/Exception.h", "ThermoFun/Substances/Gases/verror.h", "ThermoFun"], mech=[("error helpers", "ThermoFun/Common/Exception.cpp"), ("throw sites", "everywhere")],
  tech="types of all throw sites and handlers, reachability of process-ending calls over the call graph, value-graph terms of the error helpers",
  note="Exceptions thrown by other libraries are taken to be standard ones.")
P(id="E11", title="Pressure corrections of reactions are consistent and made once",
  statement="With the constant-volume or no-volume setting, a reaction's G and H grow by V (P - Pr) with its reference volume, and ln K, log K, T S = H - G, U and A stay consistent with them. A zero volume or the reference pressure changes nothing. Other methods get no such correction, and the model whose values already depend on pressure (Marini et al.) is not corrected again.",
  over=["inputs", "configurations"], qtext="every temperature, pressure and combination of temperature and pressure correction methods",
  why="tests evaluate reactions at their reference pressure or with one method",
  files=[ENG, "ThermoFun/ThermoModelsReaction.cpp"], mech=[("reaction dispatch", ENG + ": thermoPropertiesReaction and its pressure correction")],
  tech="gated symbolic value-graph terms of the evaluation for each pair of methods, identities decided by algebraic normal forms",
  note="Reaction volumes given by functions are E07's known finding.")
P(id="E12", title="Energy conventions shift results by constants, where they apply",
  statement="The steam-table convention subtracts the triple-point values of the database's reference from G, H, S, U and A of solvents only; the Berman-Brown convention subtracts the reference temperature times the elements' entropy from G of all others. Names are compared case-insensitively, the hydrogen ion stays zero, reaction-defined records are not converted twice, and other properties and the default convention change nothing.",
  over=["inputs", "configurations"], qtext="every substance, temperature, pressure and convention",
  why="tests use the default conventions",
  files=[ENG], mech=[("conventions", ENG + ": substance evaluation and conversion to the set conventions")],
  tech="gated symbolic value-graph terms of the evaluation for each record kind and convention",
  note="The values of the triple point and of the elements' entropies are data.")
P(id="E13", title="Models are given the properties of the right solvent",
  statement="Models that need solvent properties get those of the solvent that is set, or else of an aqueous solvent of the database: at the temperature and pressure of the query, or where the model asks for it, at the solvent's reference conditions; for the state of aggregation asked for, or else the record's own.",
  over=["inputs", "configurations"], qtext="every model that takes solvent properties, every query and solvent setting",
  why="tests use one solvent and one state",
  files=[ENG, "ThermoFun/ThermoEngine.h"], mech=[("solvent look-up", ENG + ": solvent and electro-chemical properties for models")],
  tech="symbolic value-graph evaluation: arguments reaching each opaque model compared as terms",
  note="Which aqueous solvent is taken when none is set and several exist is left open.")
P(id="E14", title="Every form of a query evaluates the same record the same way",
  statement="Queries by symbol, by record and by reaction equation give the same results: they evaluate the database's record of that symbol, the record given, or the reaction the equation denotes, at the temperature and pressure given and with the same settings. Text containing '=' is an equation; other text is a symbol.",
  over=["inputs", "configurations"], qtext="every public query form, symbol, record, temperature, pressure and setting",
  why="tests use one form per case",
  files=[ENG, "ThermoFun/ThermoEngine.h"], mech=[("public queries", ENG + ": thermoPropertiesSubstance, thermoPropertiesReaction, thermoPropertiesReactionFromReactants and the solvent queries")],
  tech="value-graph terms of each public query over opaque evaluators, compared",
  note="The parsing of an equation is D-family and chemicalfun's business.")
PJ = "ThermoFun/Common/ParseJsonToData.cpp"
P(id="D01", title="Records read from JSON hold each documented field in its unit, or its default",
  statement="Reading an element, substance or reaction takes each documented key into its field and nowhere else: quantities converted from the stated to the internal unit (or unconverted if none is stated), reference values with their uncertainty and the status 'read'. Absent, null or empty entries leave defaults, never indeterminate values. A substance is defined by a reaction only if it names one and has no methods.",
  over=["inputs"], qtext="every documented key, value and unit, present, absent, null or empty, directly or under 'properties'",
  why="tests read a few complete records; missing, null, empty and converted entries are not among them",
  files=[PJ, "ThermoFun/Element.cpp", "ThermoFun/Substance.cpp", "ThermoFun/Reaction.cpp"], mech=[("record readers", PJ + ": parseElement, parseSubstance, parseReaction")],
  tech="partial evaluation of the readers on the shapes of JSON documents with symbolic leaves; the resulting records compared as value-graph terms",
  note="One document shape per key and per way of not giving it; the JSON library and the unit conversion are opaque.")
P(id="D02", title="Methods and coefficients of a record reach their models' settings",
  statement="Each method number of a record sets exactly the setting of the model of that name, and several methods are all set. Each coefficient list reaches the parameters its model reads, in order, in the model's units whatever the stated ones, and nothing else; absent or empty lists give none. Heat capacity intervals keep order, limits and coefficients. Every parameter a model reads is filled.",
  over=["inputs", "configurations"], qtext="every method of the published enumerations, every coefficient key, unit and number of intervals",
  why="a record with a method or coefficient list the test database lacks is evaluated silently by the wrong model or with none of its coefficients",
  files=[PJ, "ThermoFun/OptimizationUtils.h"][:1], mech=[("method and coefficient readers", PJ + ": getTPMethods, setTPMethods_old, thermoParamSubst, thermoParamReac")],
  tech="partial evaluation of the readers on JSON documents with each method and coefficient set, symbolic leaves, value-graph terms compared; parameters read by models found in the syntax trees",
  note="Known finding: the Birch-Murnaghan coefficients are never read.")
BT = "ThermoFun/Batch/ThermoBatch.cpp"; OB = "ThermoFun/Batch/OutputBatch.cpp"
P(id="B01", title="A batch has each property of each record at each T-P pair in its place",
  statement="A batch calculation gives, for every symbol and temperature-pressure pair, the engine's value of each property asked for, in the order asked for, evaluated at that pair converted to K and Pa, with both loop orders and every form of the call (one pair, pairs, grids, increments). Results given by the caller replace the engine's. Unknown properties, a wrong number of given results and increments that never end raise errors.",
  over=["inputs", "configurations"], qtext="every record, property, list of T-P pairs, unit, loop order and overload",
  why="tests compare single values of single calculations",
  files=[BT, "ThermoFun/Batch/ThermoBatch.h", OB], mech=[("batch calculation", BT + ": calculate, addTPpairs and the selection of properties")],
  tech="partial evaluation of every overload on lists of fixed length, with the engine's results symbolic in (T, P, record); results compared place by place",
  note="Lists of three to four entries stand for all lengths; increments that divide the interval exactly (rounding of floating-point steps is not modelled).")
P(id="B02", title="An output keeps its results whatever its batch does later",
  statement="The output of a batch calculation shares no mutable state with the batch: later calculations and settings of the batch do not change what the output gives or writes.",
  over=["histories"], qtext="every sequence of calculations, settings and reads of outputs",
  why="tests read each output before the next calculation",
  files=[BT, OB], mech=[("construction of outputs", OB + ": Output::Impl; " + BT + ": ThermoBatch::snapshot")],
  tech="ownership analysis: symbolic evaluation of the construction with copies of the shared state marked, members of the state classified by sharing",
  note="Outputs copied from one another share their (unchanging) results.")
P(id="B03", title="Tables written by an output put each value beside its own labels",
  statement="CSV, transposed and grid tables have one row per symbol (or property) and T-P pair, labelled with it, with values converted to the units set and written with the digits and notation set; headers name the properties and their units. Undefined values are NaN exactly when asked for, separators inside names are replaced, and in grids each cell belongs to its row's and column's temperature and pressure. Wrong-length lists of units or digits raise errors.",
  over=["inputs", "configurations"], qtext="every list of symbols, properties and T-P pairs, unit, precision, separator, notation and loop order",
  why="tests write no tables",
  files=[OB, BT, "ThermoFun/Batch/ThermoBatch.h"], mech=[("tables", OB + ": toCSV, toCSVTransposed, toCSVPropertyGrid")],
  tech="partial evaluation of the writers with symbolic results; the stream writes rendered to text pieces with precision and notation, compared with the documented table",
  note="Formatting of numbers by the stream is the library's.")
UC = "ThermoFun/Common/Units.cpp"
P(id="D03", title="Unit conversions give the same quantity, or an error",
  statement="Converting a value between two expressions of the same dimension gives the same quantity in the other unit: every unit has its SI factor, products, quotients, parentheses and powers (also fractional) combine as written, and temperatures are converted with their zero points. Units of different dimensions, unknown units and malformed text raise an error, never a number or undefined behaviour; convertible() agrees.",
  over=["inputs"], qtext="every value and pair of unit expressions",
  why="tests convert few units; a wrong factor, sign of a power or lost parenthesis shows only for the units it concerns",
  files=[UC], mech=[("conversion", UC + ": convert, convertible, parseUnit, factor, dimension and the tables of units")],
  tech="partial evaluation of the conversion with the value symbolic, compared with an independent table of SI factors and dimensions",
  note="All units of the table singly, all pairs of temperature scales; composite and malformed expressions are representatives of each form. Factors to 1e-5 (customary units differ by definition).")
CSV = "ThermoFun/Common/OutputToCSV.cpp"
P(id="B04", title="Rows appended to a CSV table fit its header",
  statement="Each table of OutputToCSV is written to the file opened for it, begins with one header row per file opened, and each later row has the symbol, the temperature, the pressure and each property below its own name.",
  over=["inputs", "histories"], qtext="every result written, over opening, writing, closing and reopening",
  why="tests write these files but do not read them back",
  files=[CSV, "ThermoFun/Common/OutputToCSV.h"], mech=[("tables", CSV + ": open, write and close functions of the three tables")],
  tech="symbolic evaluation of the calls in sequence; stream writes rendered to pieces and matched with the columns of the header",
  note="Opening a file that is already open is not considered.")
P(id="X02", title="Evaluations share no mutable state with one another",
  statement="Engines, databases, models and outputs of different threads do not interfere: no evaluation, lookup or reader changes a variable that all threads share (a global, a class member or a static local), nor calls a library function with hidden shared state. What is shared is set before use and only read, is synchronized, or each thread has its own, and none of it keeps what its first use was called with.",
  over=["schedules", "histories"], qtext="every sequence and interleaving of evaluations of separate engines and databases",
  why="tests run one thread; a race shows only under particular schedules",
  files=["ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp", "ThermoFun/Substances/Gases/s_solmod3_.cpp", "ThermoFun"], mech=[("work data of the water and gas models", "ThermoFun/Substances"), ("shared tables", "file-level variables everywhere")],
  tech="effect analysis: every use of every variable that outlives an evaluation is classified as reading or changing it, over the syntax trees of the whole library",
  note="One engine or database used by two threads at once is the caller's business; so are logging and other libraries.")
P(id="X03", title="Every loop ends",
  statement="No input makes a loop run for ever: each iteration moves a counter or iterator towards a limit that the loop leaves alone, shrinks what is left to do, or the number of iterations is capped; convergence alone never decides when an iteration ends, and no loop changes the container it goes through.",
  over=["inputs"], qtext="every loop of the library, whatever the data and whether or not an iteration converges",
  why="tests take the converging path; a NaN, an oscillating iteration or an empty text hangs only for its own input",
  files=["ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp", "ThermoFun/Batch/ThermoBatch.cpp", OB, "ThermoFun/Substances"], mech=[("iterative solvers", "ThermoFun/Substances"), ("loops over data", "everywhere")],
  tech="termination analysis of every loop in the syntax trees: loop conditions and exits, variables written in the loop and by the functions it calls, steps on every way through the body",
  note="Overflow of counters, increments below the spacing of floating-point numbers, and recursion are not considered.")
N(id="V01", title="Properties of water agree with the reference formulations' data",
  statement="The densities, thermodynamic and dielectric properties of water returned for each formulation agree with the tables published for it within its stated uncertainty, over its range of validity.",
  over=["inputs"], qtext="every temperature and pressure in the range of validity",
  why="tests compare values at a few points",
  files=["ThermoFun/Substances/Solvent"], mech=[("formulations", "ThermoFun/Substances/Solvent")],
  reason="A claim on numerical values against published tables: deciding it needs evaluating the formulations in floating point, which is running them. What their source decides (exact derivatives, consistent state and records) is claimed in T04, T07, T08 and T09.")
N(id="V02", title="The density of water solves the equation of state on the right branch",
  statement="The density found for a temperature and pressure reproduces that pressure, is the liquid root or vapour root as asked for, and lies on the stable branch; on the saturation line both phases have equal Gibbs energies.",
  over=["inputs"], qtext="every temperature, pressure and state of matter asked for",
  why="tests evaluate a few liquid points far from the saturation line",
  files=["ThermoFun/Substances/Solvent/WaterUtils.cpp", "ThermoFun/Substances/Solvent/WaterHGK-JNgems.cpp", "ThermoFun/Substances/Solvent/WaterZhangDuan2005.cpp"], mech=[("density solvers", "ThermoFun/Substances/Solvent/WaterUtils.cpp")],
  reason="Which root a floating-point Newton iteration reaches from its start depends on run-time values; no static argument in reach bounds the convergence basins of these equations.")
N(id="V03", title="Gas models return the root of their equation of state that is stable",
  statement="The volumes and fugacities of the gas and fluid models (PRSV, SRK, PR78, CORK, STP, CGF) solve their equations of state, take the stable root, and give fugacity coefficients consistent with the volume.",
  over=["inputs"], qtext="every gas, temperature and pressure in range",
  why="tests evaluate one gas at a few conditions",
  files=["ThermoFun/Substances/Gases"], mech=[("solution models", "ThermoFun/Substances/Gases")],
  reason="The solvers select among roots by comparing computed values and iterate to a tolerance; the outcome is a run-time quantity. What frames them (the pressure correction of the record, bounds, coefficients read) is claimed in M02, M03 and M04.")
N(id="V04", title="Alternative models of one property agree within their uncertainty",
  statement="Where several methods describe the same property (water densities, dielectric constants, heat capacity or volume of the same mineral), their results agree within the uncertainties stated for them over the common range.",
  over=["inputs", "configurations"], qtext="every pair of methods for a property over the common range",
  why="tests use one method at a time",
  files=["ThermoFun/Substances", "ThermoFun/ThermoModelsSolvent.cpp"], mech=[("models", "ThermoFun/Substances")],
  reason="A quantitative comparison of different functions of floating-point inputs; no rule on the source decides how far apart they are.")
N(id="V05", title="Numbers written to tables read back as the results",
  statement="Reading a written table gives back the batch results to the number of digits set, in fixed and scientific notation.",
  over=["inputs"], qtext="every result and format setting",
  why="tests write no tables",
  files=[OB, CSV], mech=[("tables", OB)],
  reason="The digits are produced by the stream library from run-time values. Which value is written, with which precision and notation and in which place, is claimed in B03 and B04.")
