#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
S = "src/"
SPM = [S + "cells/Cell_SPM/" + f for f in ("Cell_SPM.hpp", "Cell_SPM.cpp", "Cell_SPM_dstate.cpp", "Cell_SPM_diffusion.cpp", "Cell_SPM_degradation.cpp", "Cell_SPM_thermal.cpp", "Cell_SPM_fitting.cpp", "State_SPM.hpp", "Model_SPM.hpp")]
ECM = [S + "cells/Cell_ECM/Cell_ECM.hpp", S + "cells/Cell_ECM/State_ECM.hpp"]
MOD = [S + "modules/" + f for f in ("Module.hpp", "Module.cpp", "Module_s.hpp", "Module_s.cpp", "Module_p.hpp", "Module_p.cpp")]

prop("P01", "Equivalent-circuit and bucket cells follow their circuit equations",
     "For every bucket or equivalent-circuit cell (any number of RC branches) and every sequence of public operations, the reported SOC, branch currents, open-circuit voltage, terminal voltage, resistance, temperature, elapsed time and charge/energy throughput are those of the circuit: SOC falls by I*dt/capacity, every branch current relaxes towards I with its own time constant, and V = OCV(SOC) - R_dc*I - sum of branch drops. "
     "Constructors install exactly the capacity, SOC and resistances they are given and refuse an SOC outside 0..1; a negative time step is refused.",
     ["inputs", "histories", "configurations"], "every parameter set (capacity, SOC, R_dc, R_p, tau, 0-3 branches), every history of set-current/voltage/SOC/temperature/state and time steps of any size and count",
     "The unit tests use the default parameters and one or two 5 s steps; bucket tests have no branch and nothing covers 2+ branches, multi-step calls or long histories.",
     ECM + [S + "cells/Cell_Bucket.hpp", S + "cells/Cell.hpp"], [("forward integration of SOC and branch currents", ECM[0] + " timeStep_CC"), ("terminal voltage", ECM[0] + " V")],
     [("state vector", "T, SOC, I, branch currents, time, Ah, Wh", ECM[1])], ["V, I, SOC, T, getOCV, getRtot, getThroughputs, getStates"])

prop("P02", "Single-particle cells follow the single-particle model equations",
     "For every state of a single-particle cell, the surface concentrations, open-circuit voltage, overpotentials, resistance and terminal voltage equal those given by the published single-particle equations evaluated on the cell's parameters, the supplied diffusion matrices and open-circuit curves, including their temperature dependence. "
     "Taking time steps at constant current advances the diffusion state and SOC exactly as those equations prescribe, for any number and size of steps, and a state whose surface concentration lies outside the particle reports no valid voltage.",
     ["inputs", "histories", "configurations"], "every admissible internal state, current, temperature, and every constant-current history",
     "Unit tests compare one default cell at 50 % SOC and 0/16 A with hard-coded voltages; other temperatures, SOCs, aged states and long pulses are never compared with an independent solution.",
     SPM, [("voltage equation", S + "cells/Cell_SPM/Cell_SPM.cpp V, getOCV"), ("diffusion ODE", S + "cells/Cell_SPM/Cell_SPM_diffusion.cpp"), ("time integration", S + "cells/Cell_SPM/Cell_SPM_dstate.cpp timeStep_CC")],
     [("zp, zn", "transformed concentrations", S + "cells/Cell_SPM/State_SPM.hpp")], ["V, getOCV, getC, getCSurf, getRdc, getRtot, getStates"])

prop("P03", "Charge, energy and time bookkeeping matches the applied current",
     "For every storage unit built of any cell types, elapsed time grows by exactly the simulated time, charge throughput by the integral of |I|, energy throughput by the integral of |I*V|, and SOC changes by minus the integral of I over capacity; none of them depends on how the same history is cut into calls, and resting or zero-length steps add nothing. "
     "In a single-particle cell the lithium removed from one electrode equals the charge moved and equals the lithium added to the other, so an equal charge and discharge return the average concentrations.",
     ["histories", "configurations"], "every history of constant-current segments, every split of a segment into calls and steps, cells alone and inside packs",
     "Tests check SOC and throughput after one or two fixed steps; no test splits a history differently, reverses it, or balances both electrodes.",
     SPM + ECM + MOD, [("cumulative variables", "timeStep_CC of each cell"), ("conservation by eigenvalue-0 mode of the diffusion matrices", S + "cells/Cell_SPM/Cell_SPM_diffusion.cpp")], (), ["getThroughputs, SOC, getStates, getC"])

prop("P04", "Cell set-points respect the voltage limits and are all-or-nothing",
     "Setting a cell's current, voltage, SOC or state succeeds, warns or fails according to where the resulting voltage lies relative to the cell's normal and safety limits in the direction of the current; a failure leaves every observable of the cell as it was, while success or a warning leaves exactly the requested value. "
     "SOC outside 0..1 and state vectors with a temperature outside the allowed range or other invalid entries are always refused, and a current set-point whose check is switched off is always applied.",
     ["inputs", "histories"], "every cell type, state and requested value, including values around and far beyond each limit",
     "Tests try a handful of values on fresh cells and do not compare the full state before and after a refusal.",
     ECM + SPM + [S + "cells/Cell.hpp", S + "cells/cell_limits.hpp", S + "utility/free_functions.hpp", S + "types/Status.hpp"],
     [("limit classification", S + "utility/free_functions.hpp check_voltage"), ("rollback", "setCurrent/setSOC/setStates of each cell")], (), ["returned status; all getters and getStates before/after"])

prop("P05", "Series modules carry one current and change it all-or-nothing",
     "After a current set-point on a series module is accepted every child carries exactly that current and the module voltage is the sum of child voltages minus the contact-resistance drops, at any nesting depth. "
     "If any child refuses, the call reports failure and every child, whatever its position, has its former current and state.",
     ["inputs", "histories", "configurations"], "every number, order and mix of children, nested modules, contact resistances, and which child refuses",
     "Tests use 2-5 equal cells and never look at all children after a refusal.",
     MOD, [("rollback loop", S + "modules/Module_s.cpp setCurrent"), ("voltage sum", S + "modules/Module_s.cpp V")], (), ["status, child I()/getStates, module V()"])

prop("P06", "Parallel modules satisfy Kirchhoff's laws",
     "After a parallel module accepts a current, and after every time step, the child currents sum to the module current and every child sees the same terminal voltage once the shared contact resistances are accounted for, so the split equals that of the linear circuit. "
     "A current set-point a child refuses is reported as a failure, with the former currents still in place; redistribution never changes the total current.",
     ["inputs", "histories", "configurations"], "every number and mix of children with different resistance, capacity and SOC, contact-resistance ladders, nested modules, charge and discharge",
     "Tests use few near-identical cells and one current; they check sums with tolerances of several milliampere.",
     MOD, [("current redistribution", S + "modules/Module_p.cpp setCurrent, redistributeCurrent"), ("terminal voltages", S + "modules/Module_p.cpp getVall")], (), ["child I() and V(), getVall, module I(), V()"])

prop("P07", "Pack quantities aggregate from the cells at any nesting depth",
     "For any tree of series and parallel modules, cell count, capacity, current, open-circuit voltage, voltage, resistance, voltage limits, highest and lowest cell voltage and hot-spot temperature equal what circuit rules give from the children (series: voltages, resistances and limits add, capacity is the smallest; parallel: currents and capacities add, voltages are common, the tightest limits apply, resistances combine along the contact ladder). "
     "The voltage check of a pack reports the worst status among its cells.",
     ["inputs", "configurations"], "every tree shape and mix of cells, contact resistances, states and currents",
     "Tests only aggregate 2-5 identical cells, mostly one level deep, so sums, minima, maxima and ladder terms coincide by symmetry.",
     MOD + [S + "utility/util.hpp", S + "utility/free_functions.hpp"], [("transform_sum/min/max over children", S + "modules/Module_s.hpp, Module_p.hpp"), ("resistance ladder", S + "modules/Module_p.cpp getRtot")], (), ["all getters of the pack and of its cells"])

prop("P08", "Saving and restoring states is lossless at every level",
     "Restoring a previously saved state vector into any cell, module or battery (or an identically built one) reproduces every observable and all later behaviour, and consumes exactly the values that unit saved, so concatenated vectors of several units can be restored in turn. "
     "From an admissible state, a vector that is refused leaves the unit, including every child of a pack, exactly as it was. (Settings and running totals of the cooling system are not part of a state vector.)",
     ["inputs", "histories", "configurations"], "every reachable state of every unit type, every pack shape, every position of an invalid entry",
     "Tests round-trip fresh cells and equal cells in a module; none checks later behaviour, mixed packs or refusals deep in a pack.",
     ECM + SPM + MOD + [S + "system/Battery.cpp"], [("getStates/setStates pairing and order", "each unit"), ("rollback", S + "modules/Module.cpp setStates")], (), ["getStates, all getters, subsequent time steps"])

prop("P09", "Copies are faithful, independent and self-contained",
     "A copy of any cell, module or battery has the same state, parameters, contact resistances, cooling and identity as the original and evolves identically under the same operations. "
     "Nothing done to one, including destroying it, affects the other, and every child in a copied pack belongs to the copy.",
     ["histories", "configurations"], "every unit type and pack shape, every moment of copying, every history afterwards on either side",
     "Tests copy one module and compare a few getters immediately; parents, destruction order and later evolution are not examined.",
     ECM + SPM + MOD + [S + "system/Battery.hpp", S + "types/Deep_ptr.hpp"], [("deep copy", S + "types/Deep_ptr.hpp"), ("copy of modules", S + "modules/Module_s.hpp, Module_p.hpp")], (), ["all getters and getStates of both, getFullID, getParent"])

prop("P10", "Voltage always reflects the present state",
     "The terminal voltage reported by any unit is a function of its present state only: it never depends on which getters were called before or how the state was reached. "
     "Reading any quantity has no effect on states or on later results.",
     ["histories", "configurations"], "every interleaving of reads with operations on cells, modules and batteries, with degradation and temperature changes",
     "Stale values only appear for particular read/write orders; the tests read voltage at a few fixed points.",
     SPM + MOD, [("voltage caching and invalidation", S + "cells/Cell_SPM, " + S + "modules")], [("Vcell_valid", "cache flag", SPM[0]), ("Vmodule_valid", "cache flag", MOD[0])], ["V() against a fresh unit given the same states"])

prop("P11", "Results are deterministic and independent of threading",
     "The same history on the same pack gives bit-identical states whether child steps run in parallel threads or sequentially, and on every repetition. "
     "Each child takes each time step exactly once.",
     ["schedules", "histories", "configurations"], "every pack size relative to the number of threads, every history, every schedule of the worker threads",
     "Tests run one pack once; they neither compare with the sequential mode nor vary the number of children against the number of threads.",
     [S + "utility/parallelisation.hpp"] + MOD, [("work distribution", S + "utility/parallelisation.hpp run")], (), ["getStates of the packs; number of calls per index"])

prop("P12", "Degradation only ages cells, and only when enabled",
     "With any combination of degradation models, ageing never reverses: lost lithium, SEI and plating thickness and crack surface never shrink; electrode thickness, volume fraction and diffusivity never grow from ageing (save the reversible, current-proportional term of SEI porosity model 1). "
     "With no model selected, or with ageing blocked for a unit (which applies to every cell below it), these quantities do not change at all, and cycling behaviour is unaffected by merely selecting another cell's models.",
     ["histories", "configurations"], "every combination of degradation models and every history of charge, discharge and rest, for cells alone and within packs",
     "Tests run no degradation model over a history; model combinations are only exercised for 'does not crash'.",
     SPM + MOD, [("degradation rates", S + "cells/Cell_SPM/Cell_SPM_degradation.cpp"), ("blocking", S + "StorageUnit.hpp setBlockDegAndTherm")], (), ["degradation entries of getStates before/after each step"])

prop("P13", "Degradation rates follow the documented model equations",
     "For each selectable SEI, surface-crack, loss-of-active-material and plating model the change of every degradation state over a step equals the model's rate law evaluated at the cell's state, temperature and current, times the time step; contributions of several selected models add. "
     "Anode current consumed by side reactions is taken out of the anode and booked as lost lithium, and selecting a model affects only the states that model describes.",
     ["inputs", "configurations"], "every model and combination, every state, temperature and current",
     "No unit test evaluates a degradation rate.",
     SPM + [S + "cells/Cell_SPM/param/" + f for f in ("SEIparam.hpp", "CSparam.hpp", "LAMparam.hpp", "DEG_ID.hpp")], [("rate laws", S + "cells/Cell_SPM/Cell_SPM_degradation.cpp"), ("assembly", S + "cells/Cell_SPM/Cell_SPM_dstate.cpp dState_degradation")], (), ["getStates before/after a step"])

prop("P14", "Thermal models conserve energy",
     "With cell-level or coupled thermal modelling, the heat generated in a cell that has a thermal model equals its irreversible and entropic losses, temperature changes equal net heat over heat capacity, and heat leaving one body through an interface enters its neighbour; with thermal modelling off temperatures never change. "
     "With coupled modelling the coolant of a module receives exactly the heat given up by its children plus contact-resistance losses, and cells relax monotonically towards their surroundings at rest.",
     ["histories", "configurations"], "every pack shape, contact resistance, initial temperature spread and current history, for each thermal setting",
     "The tests are compiled with thermal modelling off; the coupled model is never executed by a test.",
     [S + "cells/Cell_SPM/Cell_SPM_thermal.cpp"] + MOD + [S + "cooling/CoolSystem.cpp", S + "cooling/CoolSystem_HVAC.cpp"], [("heat generation", S + "cells/Cell_SPM/Cell_SPM_dstate.cpp"), ("heat exchange", S + "modules/Module.cpp thermalModel_coupled")], (), ["T of cells and modules, accumulated heats"], "compile-time thermal model selection")

prop("P15", "Cooling systems are controlled and accounted as specified",
     "For every control strategy and temperature sequence the fan and air-conditioning settings follow the documented on/off-with-hysteresis or proportional law within their minimum and maximum, and flow, heat-transfer coefficient and power are consistent with each other. "
     "Operating energy, evacuated heat, absorbed heat and time are running totals of exactly what each step added, and collecting the load of a pack returns each unit's energy once and resets it.",
     ["inputs", "histories", "configurations"], "every cooling type and strategy, every sequence of temperatures, heats and time steps",
     "No unit test drives a cooling system.",
     [S + "cooling/" + f for f in ("CoolSystem.hpp", "CoolSystem.cpp", "CoolSystem_HVAC.hpp", "CoolSystem_HVAC.cpp", "CoolSystem_open.hpp", "CoolSystem_open.cpp")], [("control law", S + "cooling/CoolSystem.cpp control"), ("energy balance", S + "cooling/CoolSystem.cpp dstate")], (), ["getflowrate, getH, getEoperation, T, getQcoolAC_tot"], "compile-time cooling data level")

prop("P16", "Cycling a unit ends where and when it should, with truthful accounting",
     "Constant-current, constant-voltage, combined and rest phases on any unit stop at whichever of the voltage, current or time limits is met first (not before, and at most one step beyond), report which one, and never leave a unit's own or the safety voltage window. "
     "The time, charge and energy reported for the phase equal those the unit itself experienced, with discharge charge positive in magnitude, and invalid requests change nothing.",
     ["inputs", "histories", "configurations"], "every unit, starting state, current, voltage limit, time limit, step size and storage interval",
     "Tests follow a few full cycles on three cells with coarse tolerances; limits that coincide, are already met, or are reached by short steps are not covered.",
     [S + "procedures/Cycler.hpp", S + "procedures/Cycler.cpp"], [("limit detection and adaptive steps", S + "procedures/Cycler.cpp CC, CV, CCCV, rest")], (), ["returned status, throughput data, unit V/I/states"])

prop("P17", "Measuring capacity is accurate and leaves the unit as found",
     "A capacity test returns the charge obtained between the unit's full and empty voltage, to within its stated cut-off accuracy, independent of the SOC it starts from. "
     "It does not age the unit, and afterwards the unit's states, settings and later behaviour are as if the test had not been made.",
     ["inputs", "histories", "configurations"], "every unit, starting state and preceding history",
     "Tests compare one capacity with a constant; neither start dependence nor side effects are examined.",
     [S + "procedures/Cycler.cpp"], [("backup/restore around the test", S + "procedures/Cycler.cpp testCapacity")], (), ["returned capacity, getStates before/after"])

prop("P18", "Recorded data files contain exactly the stored samples",
     "Every stored sample appears once and in order in the written file with the values the unit had at that moment (to the six significant digits written), however storing, writing and continuing are interleaved, and each unit writes to a file named after the prefix and its full identity. "
     "Summary storage levels report the same totals and histograms as would be computed from the samples.",
     ["histories", "configurations"], "every interleaving of steps, stores and writes, for cells, modules and packs, for each storage level",
     "Tests write files but never read them back.",
     [S + "types/data_storage/" + f for f in ("CellDataStorage.hpp", "CellDataWriter.hpp", "cell_data.hpp", "module_data.hpp")] + [S + "utility/free_functions.hpp"], [("storage and flush", S + "types/data_storage"), ("file output", S + "utility/free_functions.hpp write_data")], (), ["csv files in the results folder"], "compile-time storage level")

prop("P19", "Battery terminals follow the module, multipliers and converter",
     "A battery's voltage, current, capacity, limits, cell count and set-points are those of its module scaled by the numbers of series and parallel repetitions, for every combination of scaling and power level. "
     "Converter losses are non-negative, follow the loss equations of the converter for every input voltage and current, depend only on the magnitude of the current, and are part of the heat the battery's air conditioning handles.",
     ["inputs", "configurations"], "every module, series/parallel scaling, voltage and current",
     "Tests compare a few loss values with constants; scaled batteries are not tested.",
     [S + "system/Battery.hpp", S + "system/Battery.cpp", S + "power_conversion/Converter.hpp", S + "power_conversion/Converter.cpp"], [("scaling", S + "system/Battery.hpp"), ("loss model", S + "power_conversion/Converter.cpp getLosses")], (), ["battery getters, setCurrent, getLosses"])

prop("P20", "Interpolated curves are exact on their table and bounded by it",
     "Interpolating any strictly increasing table, equally spaced or not, returns the tabulated value at every node, lies between neighbouring nodes elsewhere, is linear between them, and outside the table is either the end value or an error, as requested. "
     "Open-circuit and entropic curves loaded from file give exactly the file's data.",
     ["inputs", "configurations"], "every table (size, spacing, values) and every query point including nodes, ends and beyond",
     "No unit test in the stable set interpolates arbitrary tables or compares loaded curves with the files.",
     [S + "utility/interpolation.hpp", S + "types/XYdata.hpp", S + "types/OCVcurves.hpp"], [("search and equal-spacing shortcut", S + "utility/interpolation.hpp linInt")], (), ["interp results"])

prop("P21", "Numeric files are read exactly as written",
     "Reading any well-formed one-, two- or N-column numeric file returns every number, in order and at full precision, regardless of line endings, blank trailing lines, a byte-order mark or number format, and profiles and matrices keep their shape. "
     "A missing or unreadable file is reported as an error rather than as data.",
     ["inputs"], "every numeric content and file layout variation",
     "Tests read only the shipped files.",
     [S + "utility/io/read_CSVfiles.hpp"], [("column readers", S + "utility/io/read_CSVfiles.hpp")], (), ["loaded vectors and matrices"])

prop("P22", "Ranges, histograms and small containers keep their contracts",
     "Evenly spaced ranges have the requested first value, step, last value and length and iterate, search and index consistently; histograms count every sample in exactly the bin whose edges enclose it, with out-of-range samples in the end bins; bounded containers keep what was added, up to their capacity. "
     "Owning pointers copy deeply, degradation-model identifiers print the models selected, and rank-one updates of a Cholesky factor give the factor of the updated matrix.",
     ["inputs", "histories"], "every range definition, sample stream, and sequence of container operations",
     "No stable unit test exercises these containers beyond what the shipped cells use.",
     [S + "types/FixedData.hpp", S + "types/Histogram.hpp", S + "types/SmallVector.hpp", S + "types/Deep_ptr.hpp", S + "types/matrix.hpp", S + "utility/slide_aux.hpp", S + "cells/Cell_SPM/param/DEG_ID.hpp"], [("range arithmetic", S + "types/FixedData.hpp"), ("binning", S + "types/Histogram.hpp")], (), ["container contents"])

prop("P23", "A voltage set-point yields that voltage or reports failure",
     "When setting the voltage of any cell, module or battery reports success, the unit's terminal voltage equals the requested one within the solver's tolerance, without any simulated time, charge or ageing passing. "
     "A target that is not reached is reported as a failure, never as success.",
     ["inputs", "histories", "configurations"], "every unit, state and target voltage inside and outside the reachable range",
     "Tests set a voltage near the present one on two cell types.",
     [S + "utility/free_functions.hpp"] + ECM + MOD, [("iterative and direct solution", S + "utility/free_functions.hpp setVoltage_iterative")], (), ["status, V(), getStates"])

prop("P24", "Ageing procedures run the requested protocol",
     "A cycle-ageing, use-case or check-up procedure applied to any unit performs the requested number of cycles between the requested voltages with the requested currents, so that the throughput and time it reports agree with what the cells experienced. "
     "A check-up first brings the unit to its documented start voltage, then measures without disturbing it, and what is written to file reflects the unit at that moment.",
     ["inputs", "histories", "configurations"], "every procedure parameter set (cycles, currents, voltages, check-up interval, balancing) and unit",
     "The procedure test runs a few fixed scenarios and asserts almost nothing about the outcome.",
     [S + "procedures/Procedure.hpp", S + "procedures/Procedure.cpp"], [("protocol loop", S + "procedures/Procedure.cpp cycleAge, useCaseAge"), ("check-up", S + "procedures/Procedure.cpp checkUp")], (), ["throughput of cells, files written"])

prop("P25", "Open-circuit-voltage fitting returns the best parameters it searched",
     "Simulated open-circuit discharge curves follow the electrode curves and stoichiometry bookkeeping for any parameters, the fit error is the root-mean-square difference to the measured curve, and a parameter search returns the parameters of smallest error among the candidates together with that error. "
     "Curves that are not valid open-circuit curves are rejected.",
     ["inputs", "configurations"], "every electrode curve pair, parameter set, measured curve and search grid",
     "No test runs the fitting.",
     [S + "procedures/determine_OCV.hpp", S + "procedures/determine_OCV.cpp"], [("discharge simulation", S + "procedures/determine_OCV.cpp discharge"), ("grid search", S + "procedures/determine_OCV.cpp fitAMnAndStartingPoints")], (), ["returned curves, errors and parameters"])

prop("P26", "Legal use never corrupts memory or breaks the program",
     "No sequence of documented operations on cells, modules, batteries, cyclers and their data types reads or writes outside its objects, uses freed objects, overflows or otherwise invokes undefined behaviour, or terminates the program. "
     "Invalid arguments are answered with a status or an exception.",
     ["inputs", "histories", "configurations"], "every sequence of public operations with ordinary and extreme arguments",
     "The tests run uninstrumented and stay on benign paths.",
     [S + "cells", S + "modules", S + "system", S + "types", S + "utility", S + "procedures"], [("bounds and lifetime discipline", "whole library")], (), ["sanitizer reports, crashes"])

prop("P27", "Cell-to-cell variation and pack factories build what they are asked for",
     "A cell built with variation factors has capacity, resistance and degradation rates scaled by exactly those factors and behaves as a nominal cell whose quantities are scaled, and reports them back. "
     "Prefabricated packs contain the requested number and arrangement of cells, each with its own identity, parent and contact resistance, ready for use.",
     ["inputs", "configurations"], "every variation factor and every factory with its parameters",
     "Tests build a few packs without inspecting composition or the effect of the factors.",
     SPM + [S + "factories/makeBattery.cpp", S + "factories/makeBattery.hpp"], [("parametrised constructor", S + "cells/Cell_SPM/Cell_SPM.cpp"), ("factories", S + "factories/makeBattery.cpp")], (), ["getters of cells in the pack"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
