"""Which harness executables, in which build variants, decide which property (and the texts that go to MANIFEST.json)."""
VARIANTS = {
    "default": dict(flags=""),
    "tm1": dict(flags="-DSLIDE_VERIF_T_MODEL=1"),
    "tm2": dict(flags="-DSLIDE_VERIF_T_MODEL=2"),
    "st0": dict(flags="-DSLIDE_VERIF_DATASTORE_CELL=noStorage"),
    "st1": dict(flags="-DSLIDE_VERIF_DATASTORE_CELL=storeCumulativeData -DSLIDE_VERIF_DATASTORE_MODULE=storeCumulativeData"),
    "sth": dict(flags="-DSLIDE_VERIF_DATASTORE_CELL=storeHistogramData -DSLIDE_VERIF_DATASTORE_COOL=1"),
    "st2": dict(flags="-DSLIDE_VERIF_DATASTORE_MODULE=storeTimeData -DSLIDE_VERIF_DATASTORE_COOL=2 -DSLIDE_VERIF_DATASTORE_BATT=2 -DSLIDE_VERIF_T_MODEL=2"),
}
SAN = "-fsanitize=address,undefined -fsanitize=float-cast-overflow -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern"
VARIANTS["asan"] = dict(flags=SAN, opt="-O1 -g1")
VARIANTS["asan0"] = dict(flags=SAN.replace("init=pattern", "init=zero"), opt="-O1 -g1")
VARIANTS["asan-st2"] = dict(flags=SAN + " " + VARIANTS["st2"]["flags"], opt="-O1 -g1")
VARIANTS["asan-sth"] = dict(flags=SAN + " -DSLIDE_VERIF_T_MODEL=1 " + VARIANTS["sth"]["flags"], opt="-O1 -g1")
for v in ("asan-st2", "asan-sth"):
    VARIANTS[v + "0"] = dict(flags=VARIANTS[v]["flags"].replace("init=pattern", "init=zero"), opt="-O1 -g1")
VARIANTS["tsan"] = dict(flags="-fsanitize=thread", opt="-O1 -g1")
ALL = ["chk_" + x for x in "ecm packs spm life util cycler battery cool therm store proc ocv fact mem".split()]


MEM_SLOW = {"P09.copy": 0.25, "P08.roundtrip": 0.5, "P03.book": 0.5, "P10.reads": 0.5, "P10.present": 0.5, "P06.kirchhoff": 0.5, "P24.cycle": 0.5, "P23.setpoint": 0.5}


def mem_scale(sub, tier):
    """Share of a sub-check's own number of cases that the memory check repeats."""
    if sub.startswith("P26."):
        return 1.0
    if sub == "P18.flush":
        return 0.25
    return (0.02 if tier == "quick" else 0.005) * MEM_SLOW.get(sub, 1.0)


def mem_scale2(sub, tier):
    """The same in the builds with other compile-time options."""
    return 0.25 if sub in ("P26.mix", "P26.build") else 0.0 if sub.startswith("P26.") else mem_scale(sub, tier)


def race_scale(sub, tier):
    """Share of the cases repeated with the thread sanitizer."""
    return 0.0 if sub == "P11.par" else 0.15 if sub != "P11.race" else 1.0


TECH = "property-based testing: "
CHECKS = {
    "P01": dict(
        parts=[("chk_ecm", "default")],
        technique=TECH + "stateful histories against an independent circuit model",
        rule="Random parameter sets and operation histories (current, voltage, SOC, temperature, steps, state transplant) on cells with 0-3 RC branches, every observable compared with an independent circuit after every operation; non-trivial: at least one positive-length step at non-zero current (constructor cases: all).",
        note="Generated-input search, shrunk to a choice-list replay. Trusts the forward-Euler circuit written in common.hpp; SOC within 1e-9 of 0 or 1 is treated as undecidable.",
        assumptions=["OCV of the dummy curve is the straight line 2.0..4.3 V over SOC 0..1", "steps keep dt/tau below 0.5 so the explicit scheme is stable"],
    ),
    "P05": dict(
        parts=[("chk_packs", "default")],
        technique=TECH + "model-based set-points on random trees of modules",
        rule="Random series packs (nested, mixed cells, contact resistances) taken through current and voltage set-points, including children chosen to refuse; status, every child current/state and the module voltage are compared with the circuit; non-trivial: at least two children and (accepted non-zero current, or a refusal by one child).",
        note="Generated-input search over pack shapes and set-points; reference sums are computed from the leaves only.",
    ),
    "P06": dict(
        parts=[("chk_packs", "default")],
        technique=TECH + "Kirchhoff invariants and a differential linear-circuit solution on random parallel packs",
        rule="Random parallel packs (nested, different resistances/capacities/SOC, contact ladders) under current set-points and time steps; sums, equal terminal voltages, the linear-circuit split and rollback on refusal are checked; non-trivial: at least two branches and non-zero current or a refusal.",
        note="Single-particle and equivalent-circuit cells are not mixed in one parallel group (different open-circuit curves make the solver fail, which it reports).",
        assumptions=["branch R*capacity within the range in which the pack's fixed-point solver converges; non-convergence reported as failure is accepted outside it"],
    ),
    "P07": dict(
        parts=[("chk_packs", "default"), ("chk_therm", "tm2")],
        technique=TECH + "differential: pack getters against circuit rules evaluated on the leaves",
        rule="Random trees with states, currents and contact resistances; every pack getter against the rule evaluated on the mirror tree; non-trivial: at least two leaves that differ.",
        note="Generated-input search; depth up to 3, up to 5 children per module.",
    ),
    "P02": dict(
        parts=[("chk_spm", "default")],
        technique=TECH + "differential against an independent single-particle reference over random states and histories",
        rule="Random admissible and inadmissible internal states, temperatures, currents, parameter sets and constant-current histories; every algebraic output and every integrated state is compared with an independently written reference; non-trivial: see each sub-check (non-zero current or non-uniform profile, >=100 steps for histories).",
        note="Reference equations are in harness/spm.hpp, evaluated on the supplied matrices and curves. Trusts the OCV/diffusion data files as given.",
        assumptions=["constant-current steps small enough for the explicit scheme"],
    ),
    "P12": dict(
        parts=[("chk_spm", "default"), ("chk_life", "default")],
        technique=TECH + "monotonicity invariant and blocked/unblocked twins over random histories",
        rule="Random degradation-model combinations and histories of charge, discharge, rest, zero-length steps and temperature changes; ageing states may only move in the ageing direction, and not at all when no model is selected or ageing is blocked at any level above the cell; non-trivial: models selected and non-zero current.",
        note="Generated-input search. The reversible, current-proportional anode term of SEI porosity model 1 is exempt, as stated in the property.",
    ),
    "P13": dict(
        parts=[("chk_spm", "default")],
        technique=TECH + "differential: every state increment against independently written rate laws",
        rule="One model or a random combination, random state/temperature/current history; every degradation-state increment over each step is compared with the rate laws; non-trivial: some rate is non-zero.",
        note="Rate laws are written independently in harness/spm.hpp; the first stress-driven step after construction (no previous stress) is not compared.",
    ),
    "P03": dict(
        parts=[("chk_life", "default")],
        technique=TECH + "conservation invariants and metamorphic history splitting over random units and histories",
        rule="Random cells, packs and batteries under random operations: time, charge, energy and SOC booked by every cell in every step; the same history cut differently; rests and zero-length steps; lithium inventory of both electrodes. Non-trivial: a positive-length step with non-zero current (book, lithium), at least two pieces (split), a rest or a zero step under current (zero).",
        note="Generated-input search. Energy is bounded by the voltages the cell passes through during the step (the quadrature rule is not fixed by the property).",
    ),
    "P04": dict(
        parts=[("chk_life", "default")],
        technique=TECH + "differential set-points: unchecked twin predicts the voltage, classification and all-or-nothing oracle",
        rule="One set-point (current, SOC, state vector, voltage) on a random cell after a short history, aimed at ordinary values and around every limit; the status follows the voltage of a twin with the value set unchecked, a failure leaves every observable, a success exactly the value. Every case tests a decision; non-trivial: see sub-checks.",
        note="Generated-input search; voltages within 1e-9 V of a threshold are not judged.",
    ),
    "P08": dict(
        parts=[("chk_life", "default")],
        technique=TECH + "save/restore round-trips on random units with twin futures, and refusal rollback",
        rule="Save after a random history, restore into the same or an identically built unit with another history (or several units from one concatenated vector); all observables, the span consumed and the following operations are compared; vectors made invalid at a random position must be refused without effect. Non-trivial: several cells or a later step with current.",
        note="Cooling settings and running totals are not part of the state vector and are not compared.",
    ),
    "P09": dict(
        parts=[("chk_life", "default")],
        technique=TECH + "copy twins: identity, observables, same future, independence, destruction",
        rule="copy(), copy constructor, copy assignment and copies of a child, after a random history; non-trivial: several cells or a later step with current.",
        note="Generated-input search over unit trees.",
    ),
    "P10": dict(
        parts=[("chk_life", "default")],
        technique=TECH + "metamorphic: with/without reads, and a freshly built twin with the same states",
        rule="Random histories with random reads in between against the same history without reads; after every operation V, OCV and resistance against a fresh unit given the same states. Every case non-trivial for reads, at least two operations for the twin.",
        note="Generated-input search.",
    ),
    "P11": dict(
        parts=[("chk_life", "default"), ("chk_life", "tsan", race_scale)],
        technique=TECH + "differential: worker threads against sequential execution, repeated, plus schedules of run(); again with the thread sanitizer",
        rule="The same history on the same pack with and without worker threads and repeated; run() with random task counts, thread counts and delays. Non-trivial: at least two children and a time step; more than one task and thread.",
        note="Schedules are those the operating system produces with random task lengths and yields; not exhaustive.",
    ),
    "P20": dict(
        parts=[("chk_util", "default")],
        technique=TECH + "differential against extended-precision interpolation; file round-trips",
        rule="Random strictly increasing tables (equally spaced, equal within 1%, irregular; 1 to hundreds of nodes) as vectors, arrays, views, ranges and files, queried at nodes, next to them, inside, outside; each compared with a linear-search interpolation in extended precision; non-trivial: at least two nodes and a query not left of the table (file cases: all).",
        note="Tolerance is that of a careful double-precision implementation, so any implementation of linear interpolation passes.",
    ),
    "P21": dict(
        parts=[("chk_util", "default")],
        technique=TECH + "round-trip of generated files through every reader",
        rule="Well-formed numeric files (number formats, separators, LF/CRLF, blank trailing lines, byte-order mark, 1..200 rows, 1..8 columns) written, read by every reader whole or partly, values compared exactly with strtod of the text; missing files, directories, files without numbers; non-trivial: at least two rows (missing-file cases: all).",
        note="Files live in a scratch directory of the check and are removed after each case.",
    ),
    "P22": dict(
        parts=[("chk_util", "default")],
        technique=TECH + "model-based: containers, ranges and histograms against plain standard-library models",
        rule="Random ranges, histograms (samples on and next to edges, far out, infinite), bounded vectors pushed beyond capacity, owning pointers under random operation sequences, views, matrices, Cholesky updates against simple models; non-trivial: at least two elements/samples or one copy.",
        note="Samples within 1e-9 of a bin width of an edge may go to either of the two bins unless the arithmetic is exact.",
    ),
    "P23": dict(
        parts=[("chk_cycler", "default")],
        technique=TECH + "invariant over generated set-points: success means the voltage is there, failure means nothing changed; targets taken from a copy must be found",
        rule="Random cells, packs and batteries after a short history; the target is a voltage a copy has at another moderate current, a voltage next to the present one, anywhere in and around the window, or absurd; non-trivial: success with a moved current, or a reported failure.",
        note="A target that a copy has at a current below 1C with every cell between 2.9 and 4.1 V has to be found.",
    ),
    "P16": dict(
        parts=[("chk_cycler", "default")],
        technique=TECH + "replay oracle: the same current or voltage applied step by step to a copy shows when each limit is met; conservation of time and charge between the cells and the reported throughput",
        rule="Random units after a short history; one phase with random current, set voltage, limits (ahead, met at once, far outside, coinciding with the present voltage), step, storage interval, diagnostic mode; non-trivial: at least one step taken, or a phase refused.",
        note="CC takes up to two steps between looks, so a limit must be seen at the latest at the second of two consecutive replayed steps beyond it.",
    ),
    "P17": dict(
        parts=[("chk_cycler", "default")],
        technique=TECH + "independent measurement on a copy, metamorphic start-independence, twin comparison of the unit and of what it does afterwards",
        rule="Random cells, modules of two and batteries after a short history, degradation models on or blocked, diagnostic mode for cells; non-trivial: a capacity was returned.",
        note="The independent measurement steps 5 or 10 s with interpolated end points; agreement within 0.1 % plus 0.05 % of the nominal capacity.",
    ),
    "P19": dict(
        parts=[("chk_battery", "default")],
        technique=TECH + "differential: a battery against its module alone times the multipliers, and an independently written converter",
        rule="Random modules alone and in a battery with random multipliers under the same operations; converter losses over random power, voltage, current including the kinks of the curves; loss counters under random histories; refused and accepted modules. Non-trivial: multipliers other than 1 with current; non-zero current.",
        note="Losses of a step are accepted between those at its first and last voltage. The heat that reaches the air conditioning is decided by the thermal checks.",
    ),
    "P15": dict(
        parts=[("chk_cool", "default")],
        technique=TECH + "model-based: control laws, heat balance and running totals against a reference cooling system over random operation sequences",
        rule="Regular, open and HVAC systems of 1..3000 cells with every control strategy under random temperatures (on, next to and between all thresholds), heat exchanges, resets; the same inside random packs and batteries; collection of the load of random packs. Non-trivial: at least one control call and one heat exchange; at least two systems that worked.",
        note="A temperature within 1e-9 K of a threshold may be judged either way; the 20 % minimum of proportional AC control may be read with the gain of the fan or of the AC. The AC energy is COP times heat, as documented in the code.",
    ),
    "P14": dict(
        parts=[("chk_therm", "default"), ("chk_therm", "tm1"), ("chk_therm", "tm2")],
        technique=TECH + "differential against an interface-by-interface heat balance over random packs and histories, in three builds (thermal model off, per cell, coupled)",
        rule="Random single-particle cells, packs and batteries with random temperatures, contact resistances, cooling strategies, currents, steps and blocking: temperatures, coolant totals and heat counters after every step against a balance in which every interface takes from one body what it gives the other; relaxation at rest; constant temperatures with the model off. Non-trivial: a positive-length unblocked step with current.",
        note="Cells without a thermal model (equivalent-circuit cells keep their temperature) are left out; degradation is off so that the losses can be evaluated from the state after the step. The container of a battery is only judged with coupled modelling.",
        assumptions=["the AC power of a step is taken from the AC's own counter, whose law P15 decides"],
    ),
    "P24": dict(
        parts=[("chk_proc", "default"), ("chk_proc", "sth")],
        technique=TECH + "differential against the protocol carried out step by step; files read back and compared with a model of what should be in them",
        rule="Random units are put through cycle ageing, the daily use case, check-ups and rebalancing with random parameters while a copy is taken through the documented protocol with a cycler by hand; all observables and every written file must agree. Non-trivial: at least one complete cycle or day, a cell that had to be moved, a unit that was in use.",
        note="Single phases are those of the cycler, which P16 and P17 judge. Runs whose steps throw are discarded when both sides throw alike.",
        assumptions=["full identities of the units of a pack are distinct"],
    ),
    "P27": dict(
        parts=[("chk_fact", "default")],
        technique=TECH + "metamorphic relations between nominal and varied cells, and prefabricated packs walked against a structural specification",
        rule="A cell with a capacity factor at scaled current must follow the nominal cell in all intensive quantities and be scaled in all extensive ones; resistance and degradation factors act on exactly what they describe; every factory's pack is walked and compared with its specification, its totals recomputed from its cells, and used. Non-trivial: factors differ from one and current flowed; every generated pack.",
        note="The full-size packs are inspected at rest only.",
        assumptions=["factors between 0.1 and 5", "thermal model disabled (default build)"],
    ),
    "P25": dict(
        parts=[("chk_ocv", "default")],
        technique=TECH + "random electrode curves, measured curves and search grids against a reference of the lithium bookkeeping and an exhaustive search",
        rule="Random curves (legal and corrupted), simulated discharges, errors, full grid searches and hierarchical searches are compared with independent computations over the same candidates. Non-trivial: curves of at least three points, grids of at least 30 candidates whose best is not the first, searches of several levels with unique best candidates.",
        note="Points of a simulated discharge may carry the potential of the time step before. Candidates exactly on the end of a curve are left out. The fixed-size search of estimateOCVparameters is not run.",
        assumptions=["hierarchical searches that reach a non-positive amount of material are left out"],
    ),
    "P18": dict(
        parts=[("chk_store", v) for v in ("default", "st0", "st1", "sth", "st2")],
        technique=TECH + "model-based histories of stores and writes, files read back and compared; five storage configurations",
        rule="Random units taken through random interleavings of operations, stores and writes under several prefixes; the model keeps what the getters showed at every store; afterwards every file is read back and must hold exactly the stored samples (or histograms of them) in order, in exactly the expected files. Non-trivial: at least two writes, stores between them, something changed between stores.",
        note="Values are compared to the six significant digits that are written. Operations that throw end the case. Module energy is bounded by the voltages before and after each step.",
        assumptions=["full identities of the units of a pack are distinct"],
    ),
    "P26": dict(
        parts=[(e, "asan", mem_scale) for e in ALL] + [(e, v, mem_scale2) for v in ("asan-st2", "asan-sth") for e in ("chk_therm", "chk_store", "chk_mem")],
        memory=True,
        technique=TECH + "random operation sequences with ordinary and extreme arguments, and a share of every other check's generated cases, under the address and undefined-behaviour sanitizers, checked containers, patterned uninitialised memory and a repeated-case leak test, in three configurations",
        rule="Pools of units are used, copied, moved, assigned, dismantled and destroyed at random; modules are built and rebuilt; arbitrary bytes are read as data files; data types and cooling systems get extreme arguments; and the generated cases of all other checks are repeated. A crash, sanitizer report, growing memory, or an outcome that changes with the initial contents of memory is a violation. Non-trivial: as stated by each sub-check.",
        note="Statuses and exceptions are both acceptable answers. Documented limits are respected by the generators: at most 100 children per module, valid indices, batteries with a module, complete state vectors. Cases that take longer than the CPU limit with instrumentation are not judged.",
        assumptions=["read errors outside the library's own objects that stay inside one allocation are only seen where the containers check their index"],
    ),
}
