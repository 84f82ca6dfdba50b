"""Build variants and per-property plans."""
BASE = ["-std=c++11", "-g1", "-fno-omit-frame-pointer", "-ffp-contract=off"]
HB = ["-std=c++17", "-g1", "-fno-omit-frame-pointer", "-ffp-contract=off"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
RC = ["-D_QK_RANGE_CHECK_=1"]
GA = ["-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # range-checked, address + undefined-behaviour sanitizers, uninitialised locals filled with a pattern
    "asan": dict(cxx="g++", lib=BASE + ["-O1"] + SAN + RC + GA + ["-ftrivial-auto-var-init=pattern"],
                 harness=HB + ["-O1"] + SAN + RC + GA, link=SAN),
    # the same without the range checks (as a release build has it)
    "asan-nrc": dict(cxx="g++", lib=BASE + ["-O1"] + SAN + GA + ["-ftrivial-auto-var-init=pattern"],
                     harness=HB + ["-O1"] + SAN + GA, link=SAN),
    # release-like: optimised, no instrumentation
    "opt": dict(cxx="g++", lib=BASE + ["-O3"], harness=HB + ["-O1"], link=[]),
}
TS = ["-fsanitize=thread"]
SER = ["-Dqk=qks", "-DC21_SERIAL"]
for _n, _rc in (("tsan", RC), ("tsan-nrc", [])):
    # OpenMP library under ThreadSanitizer on the harness's own runtime, next to a serial copy of the library
    VARIANTS[_n] = dict(slow=2, cxx="g++", lib=BASE + ["-O1", "-fopenmp"] + TS + _rc, harness=HB + ["-O1"] + TS + _rc, link=TS, wrap=["setarch", "-R"],
                        copies=[dict(lib=BASE + ["-O1"] + _rc + SER, harness=HB + ["-O1"] + _rc + SER)])
# optimised OpenMP library on the same runtime, no race detection: results only
VARIANTS["omp-opt"] = dict(cxx="g++", lib=BASE + ["-O3", "-fopenmp"], harness=HB + ["-O1"], link=[], copies=[dict(lib=BASE + ["-O3"] + SER, harness=HB + ["-O1"] + SER)])

# clang's sanitizers (also check alignment assumptions)
CS = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-Wno-everything", "-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "noomp")]
VARIANTS["clang"] = dict(cxx="clang++", lib=BASE + ["-O1"] + CS + RC, harness=HB + ["-O1"] + CS + RC, link=CS)
VARIANTS["clang-nrc"] = dict(cxx="clang++", lib=BASE + ["-O1"] + CS, harness=HB + ["-O1"] + CS, link=CS)
# two copies of the library whose uninitialised locals hold zeros and a pattern
FB = ["-Dqk=qks", "-DC22_B"]
VARIANTS["fill"] = dict(cxx="g++", lib=BASE + ["-O2", "-ftrivial-auto-var-init=zero"] + RC, harness=HB + ["-O1", "-DC22_COPIES"] + RC, link=[],
                        copies=[dict(lib=BASE + ["-O2", "-ftrivial-auto-var-init=pattern"] + RC + FB, harness=HB + ["-O1"] + RC + FB)])
VARIANTS["memcheck"] = dict(slow=4, cxx="g++", lib=BASE + ["-O1"], harness=HB + ["-O1"], link=[], wrap=["valgrind", "-q", "--leak-check=no", "--undef-value-errors=yes", "--expensive-definedness-checks=yes"])

def plan(q, t, qv="asan"):
    q = q * 3 // 2
    return dict(quick=[(qv, q), ("asan-nrc", q // 2), ("opt", 3 * q)], thorough=[("asan", t), ("asan-nrc", t // 2), ("opt", t * 2)])

PROPS = {}
def P(id, src, q, t, rule, require=(), **kw):
    d = dict(src=src, rule=rule, require=list(require))
    d.update(plan(q, t)); d.update(kw); PROPS[id] = d

P("C01", "c01.cpp", 60000, 200000, "random histories of range operations on a pool of four ranges; distinct = different resulting boxes",
  ["op assign to itself", "op resize to itself", "op extrude", "op expand", "op shift", "op set", "empty boxes", "ranges printed", "one-off bound comparisons"])
P("C02", "c02.cpp", 150000, 400000, "random sub-box / enclosing-box pairs, iterated to the end with copies taken on the way; distinct = different box pairs",
  ["iterated boxes", "boxes without cells", "copies resumed", "single steps", "boxes without dimensions", "long boxes"])
P("C03", "c03.cpp", 30000, 100000, "random histories of array operations over three arrays of ints, strings or double chunks; distinct = different histories",
  ["rejections", "empty regions", "op swap", "op copy construct", "op assign", "op pull", "op scale", "op copy_to", "histories of large arrays"])
P("C04", "c04.cpp", 60000, 200000, "random ranges and subdivision counts; distinct = different (range, counts)",
  ["empty pieces", "non-empty pieces", "long ranges", "very many pieces"])
P("C05", "c05.cpp", 20000, 100000, "random misuse of every operator, grid, iterator and array, and random error-object histories; distinct = different misuses",
  ["errors observed", "messages compared", "bounds cases", "misuse of current_source setup", "unfinished parts", "set up again", "the same operator after the error"])
P("C06", "c06.cpp", 8000, 100000, "random meshes, data boxes, ghost depths and resize/copy/assign sequences; distinct = different geometry histories",
  ["resizes", "copies", "assignments", "variables"])
P("C07", "c07.cpp", 40000, 100000, "random sets of bases and identifiers compared pairwise and in triples, clone chains; distinct = different sets",
  ["clones of old clones", "base comparisons", "identifier comparisons", "clones", "component mismatches rejected"])
P("C08", "c08.cpp", 8000, 60000, "random histories of registry requests on two registries; distinct = different histories",
  ["creations", "failed reads", "component conflicts", "exchanges", "fills", "crowded registries", "creations cut short"])
P("C09", "c09.cpp", 40000, 80000, "random uniform and stretched grids, random stretch sequences; distinct = different grids",
  ["uniform grids", "stretched grids", "linear stretchings", "symmetric stretchings", "odd symmetric rejected", "arguments changed after construction", "copied grids", "assigned grids", "copies of stretched grids followed"])
P("C10", "c10.cpp", 12000, 60000, "random grids, variables and values exported, printed, or exported under injected I/O faults; distinct = different requests",
  ["files verified", "printed values", "fault: the device is full", "fault: write fails part way", "fault: the directory does not exist", "bad requests", "chunk regions written", "copied chunks written", "reshaped chunks written"])
P("C11", "c11.cpp", 15000, 80000, "random grids, values, dimension and variable selections; distinct = different selections",
  ["wrapped ghost cells", "other ghost cells", "interior cells", "operators used before elsewhere"])
P("C12", "c12.cpp", 12000, 100000, "random grids, values, boundary kinds, dimension and variable selections; distinct = different selections",
  ["ghost cells set by outflow", "ghost cells set by no-slip", "ghost cells set by free-slip", "ghost cells set by conducting wall", "interior cells", "operators used before elsewhere"])
P("C13", "c13.cpp", 20000, 40000, "random 1-3 D fluid states (uniform, smooth, noisy, shocks, supersonic both ways, blasts, layers), unit scales, adiabatic indices, prior contents; distinct = different states with at least one comparable cell",
  ["operators used before elsewhere", "cells compared", "state tiny steps", "state sonic"] + ["faces axis %d %s" % (d, k) for d in range(3) for k in ("subsonic", "supersonic upward", "supersonic downward")])
P("C14", "c14.cpp", 20000, 40000, "random 1-3 D fields (uniform, smooth, noisy, steps, sparse, large, longitudinal), light speeds of both signs up to SI size, prior contents; distinct = different fields",
  ["cells compared", "negative light speeds", "SI light speeds", "field longitudinal", "field tiny steps", "operators used before elsewhere", "1-D grids", "2-D grids", "3-D grids"])
P("C15", "c15.cpp", 12000, 60000, "random fluids, fields, species counts, charges, masses, prior rates, hostile ghost values; distinct = different states",
  ["cells compared", "ghost cells untouched", "power balances", "species 1", "species 4", "species 5 or more", "SI constants", "neutral species", "operators used before elsewhere"])
P("C16", "c16.cpp", 12000, 60000, "random values, steps and stage histories, plus convergence runs on an oscillator; distinct = different histories",
  ["operators used before elsewhere", "values compared"] + ["three-stage stage %d" % k for k in range(3)] + ["one-stage stage 0", "third-order convergences", "first-order convergences"])
P("C17", "c17.cpp", 6000, 30000, "random states, velocities, grids, single stages, mirrored problems and periodic histories; distinct = different (state, set-up)",
  ["operators used before elsewhere", "cells compared", "mirrored problems", "full steps", "zero-velocity histories", "constant histories"] + ["axis %d velocity %s" % (d, s) for d in range(3) for s in ("positive", "negative", "zero")])

P("C18", "c18.cpp", 6000, 50000, "random fluid, field and advection problems on fully periodic or walled grids with hostile ghost cells, single rates and whole steps; distinct = different (state, boundaries)",
  ["fluid sums, periodic", "fluid sums, no-slip walls", "fluid sums, free-slip walls", "field sums, periodic", "full steps", "totals compared", "uniform fluids", "uniform sonic fluids", "uniform fields", "uniform histories", "advection steps", "uniform advected states"])
P("C19", "c19.cpp", 15000, 80000, "random grids, parameters, output lists and earlier contents for every initialiser; distinct = different (initialiser, grid, result)",
  ["operators used before elsewhere", "cells compared", "1-D grids", "2-D grids", "3-D grids"] + ["profile " + k for k in ("gaussian", "magnetic pulse", "shock tube", "radial shock tube", "plane wave along 0", "plane wave along 1", "plane wave along 2", "two-fluid shock tube", "current sheet", "constant")])
P("C20", "c20.cpp", 3000, 20000, "random whole simulations (fluid, field, one- and two-fluid plasma, advection; mixed boundaries; one- and three-stage; hostile ghosts) advanced side by side with the model; distinct = different problems",
  ["fluid steps", "field steps", "two-fluid plasma steps", "one-fluid plasma steps", "advection steps", "ghost-independence runs", "cells compared", "long histories", "operators used before elsewhere"] + ["boundary %d on a fluid" % k for k in range(4)] + ["boundary %d on a field" % k for k in (0, 1, 4)])

P("C21", "c21.cpp", 0, 0, "random operators and plasma steps on random grids, each run with several team sizes, delays and forced thread orders against the serial copy; distinct = different problems",
  ["values compared", "parallel regions", "forced orders", "free interleavings", "runs with delays", "distinct thread orders"] + ["runs of " + k for k in ("rk1", "ssprk3", "euler", "maxwell", "lorentz_force", "current_source", "ssprk2_advection", "plasma steps", "swap", "bc_periodic", "initialiser")],
  technique="runtime monitoring: ThreadSanitizer plus bitwise comparison with a serial copy, on an interposed OpenMP runtime that forces thread orders and injects delays",
  level_note="Sampled problems, team sizes, thread orders and delays; races are judged by ThreadSanitizer's happens-before on the orders run, results bit for bit against a serial copy of the library in the same process. Trusts ThreadSanitizer and harness/gomp_stub.cpp.",
  copy_src=["c21_work.cpp"], extra_src={v: ["c21_work.cpp", "gomp_stub.cpp"] for v in ("tsan", "tsan-nrc", "omp-opt")},
  quick=[("tsan", 4000)], thorough=[("tsan", 8000), ("tsan-nrc", 4000), ("omp-opt", 8000)])

P("C22", "c22.cpp", 0, 0, "random correct programs (simulations from library operators only, operator sequences with misuse, geometry and copies), run three times in differently dirtied memory under each instrumented build; distinct = different programs",
  ["programs: simulations", "programs: operator sequences", "programs: geometry and copies", "values compared", "files compared", "leak balances", "compared with differently filled locals"],
  technique="sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer (gcc and clang), valgrind memcheck, allocation balances, and bitwise comparison of repeated runs in differently dirtied memory",
  level_note="Sampled correct programs; memory errors and undefined behaviour are judged by the sanitizers and memcheck, dependence on uninitialised memory also by comparing runs with differently filled heap and locals. Trusts those tools; says nothing about programs not drawn.",
  copy_src=["c22_work.cpp"], extra_src={v: ["c22_work.cpp"] for v in VARIANTS},
  quick=[("memcheck", 128), ("asan", 1200), ("asan-nrc", 1200), ("clang", 1200), ("fill", 2400)],
  thorough=[("memcheck", 2000), ("asan", 10000), ("asan-nrc", 10000), ("clang", 10000), ("clang-nrc", 10000), ("fill", 30000)])
P("C23", "c23.cpp", 10000, 100000, "every operator with random variables, parameters and contents, in two registries with different unrelated variables; distinct = different (operator, contents, registries)",
  ["variables that had to stay", "results compared", "exchanged variables", "exchange chains", "unknown stages", "reset variables", "outputs with other earlier contents", "operators used before elsewhere", "crowded registries"] + ["runs of " + k for k in ("swap", "fill", "print", "rk1", "ssprk3", "euler", "maxwell", "lorentz_force", "current_source", "ssprk2_advection", "bc_periodic", "bc_copy_out", "bc_no_slip", "bc_free_slip", "bc_conducting_wall", "gaussian", "shock_tube", "radial_shock_tube", "magnetic_pulse", "electromagnetic_wave_1D", "brio_wu_shock_tube", "gem_challenge")])
P("C24", "c24.cpp", 20000, 100000, "random problems for each operator, relabelled, mirrored, shifted, rescaled, or embedded in more dimensions; distinct = different (problem, transformation)",
  ["cells compared"] + ["%s, %s" % (t, o) for t in ("relabelled", "mirrored", "relabelled and mirrored", "shifted") for o in ("fluid", "field", "advection", "Lorentz force", "current")] + ["scaled, " + o for o in ("fluid", "field", "advection")] + ["%s, %s" % (t, o) for t in ("1-D as 2-D", "1-D as 3-D", "2-D as 3-D") for o in ("fluid", "field", "advection", "Lorentz force", "current")])

P("C26", "c26.cpp", 0, 0, "random smooth waves, shock tubes and uniform plasmas with known exact solutions, simulated on two resolutions; distinct = different problems",
  ["cells compared", "steps"] + ["convergence of " + k for k in ("advected waves", "electromagnetic waves", "waves between conducting walls", "density waves", "sound waves", "sound between walls", "shock tubes", "plasma oscillations")],
  technique="runtime monitoring: simulations run on two resolutions, their errors against exact solutions of the equations compared",
  level_note="Sampled problems with known solutions; judged by the size of the error and by its decrease under refinement. Involves no model of the numerical method. Trusts the exact solutions in the harness (Riemann problem, plane and standing waves, matrix exponential).",
  quick=[("opt", 1800), ("asan", 120)], thorough=[("opt", 20000), ("asan", 1500), ("asan-nrc", 1500)])

VARIANTS["tsan-ser"] = dict(slow=2, cxx="g++", lib=BASE + ["-O1"] + TS, harness=HB + ["-O1"] + TS, link=TS, wrap=["setarch", "-R"])
P("C27", "c27.cpp", 0, 0, "random groups of simulations, operator sequences and geometry programs, each run alone, then with alternating steps, then on threads of their own; distinct = different groups",
  ["observations compared", "switches between programs", "programs on threads", "programs: operators", "programs: geometry", "identical programs side by side"] + ["programs: simulation %d" % k for k in range(4)],
  technique="runtime monitoring: bitwise comparison of what programs observe alone, interleaved and on concurrent threads, under AddressSanitizer and ThreadSanitizer",
  level_note="Sampled groups of programs and interleavings; every observation is compared bit for bit with that of the same program alone, races are judged by ThreadSanitizer. Making unique clones of identifiers on several threads at once is outside the property.",
  quick=[("opt", 6000), ("asan", 1200), ("tsan-ser", 1200)], thorough=[("opt", 60000), ("asan", 12000), ("asan-nrc", 6000), ("tsan-ser", 12000)])

P("C28", "c28.cpp", 8000, 80000, "random problems of every kind stated in two systems of units: simulations, advection, single operators, initial conditions, grids; distinct = different problems",
  ["values compared", "positions compared", "simulated fluids", "simulated fields", "advected profiles", "Lorentz forces", "currents", "time steps", "boundary values", "Gaussians", "magnetic pulses", "shock tubes", "radial shock tubes", "plane waves", "two-fluid shock tubes", "current sheets"])

VARIANTS["omp"] = dict(cxx="g++", lib=BASE + ["-O3", "-fopenmp"], harness=HB + ["-O2", "-fopenmp"], link=["-fopenmp"], env=dict(OMP_WAIT_POLICY="passive"))
P("C25", "c25.cpp", 0, 0, "the seven shipped programs, their files caught by stand-ins for opening files, followed for as many frames as the tier allows; distinct = different (program, frames followed)",
  ["programs run", "cells compared"] + [n + " frames" for n in ("advected Gaussian", "shock tube", "magnetic pulse", "wave", "two-fluid shock tube", "current sheet", "reconnection challenge")],
  technique="runtime monitoring: trace checker over the frames the real programs write (files caught by stand-ins), against a reference model",
  examples=True, timeout=800, quick=[("omp", 1), ("asan", 6), ("opt", 6)], thorough=[("omp", 1), ("asan", 7), ("asan-nrc", 6), ("opt", 6)])
