#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=None)))
def m(name, where): return dict(name=name, where=where)

prop("C01", "Index ranges behave as integer boxes",
 "After any sequence of constructions, copies, assignments (including to itself), resizes, extrusions, expansions, shifts and bound changes, a range reports exactly the half-open integer box those operations define: its number of dimensions, bounds, lengths, row-major strides (last dimension fastest) and volume. Equality holds exactly when two ranges have the same bounds, inclusion exactly when every bound of one lies inside the other in every dimension, and printing a range shows its bounds. An empty (zero-length) dimension gives volume zero.",
 ["inputs","histories"], "every sequence of range operations, every dimension count, negative, empty and large bounds",
 "Tests exercise a handful of fixed 2-, 3- and 7-dimensional ranges, one operation each; operation sequences, empty boxes, self assignment and printing are never run.",
 ["src/lib/range.h","src/lib/range.cpp"],
 [m("range::setup is the single writer of bounds and strides","src/lib/range.cpp"), m("range::includes / operator==","src/lib/range.cpp, src/lib/range.h")],
 [dict(name="_lower/_upper/_stride", meaning="box bounds and row-major strides", where="src/lib/range.h")])

prop("C02", "Iterating a sub-box visits every cell once, in order, then stops",
 "Iterating a sub-box of a box visits each cell of the sub-box exactly once in row-major order, at every step reports the cell's coordinates and its row-major position within the enclosing box, and then reports that it is exhausted; the reported end position is one past the position of the last cell visited. A sub-box that is empty, has a different number of dimensions or is not contained in the enclosing box yields no cells. A copied or assigned iterator continues independently from the same position, and stepping along one dimension moves the coordinate and the position by exactly one cell of that dimension.",
 ["inputs","histories"], "every pair of boxes up to five dimensions, any iteration prefix, any copy or step point",
 "Tests count the iterations of two fixed 2-D boxes and look at the first cell only; they never check positions, order, empty boxes, copies or higher dimensions.",
 ["src/lib/indexer.h","src/lib/indexer.cpp"],
 [m("indexer::recursive_increment_dim (odometer)","src/lib/indexer.cpp"), m("indexer constructor inclusion test","src/lib/indexer.cpp")],
 [dict(name="_index/_linear_index/_exists", meaning="current cell, its position, validity", where="src/lib/indexer.h")])

prop("C03", "Array operations touch exactly the cells they address",
 "Filling, filling a region, scaling a region, copying a region into an equally large region (cells correspond in row-major order), pulling a whole array, swapping, copying and assigning change exactly the addressed cells to the specified values and leave every other cell of every array unchanged. A copy or assigned array equals its source and is independent of it. Region copies or swaps of different sizes, and fills or copies addressing cells outside an array, are rejected with an error that leaves all contents unchanged.",
 ["inputs","histories"], "every sequence of array operations over arrays of any shape, bounds and element type, all regions incl. empty ones",
 "Tests run one fill, one swap and two pulls on one fixed 2-D integer array and never check copies, mismatched shapes, untouched neighbours of a copy destination or the double-valued chunks used by the solvers.",
 ["src/lib/indexer_interface.h","src/data/datachunk.h","src/data/datachunk.cpp","src/data/functions.h"],
 [m("indexer_interface::pull/fill/swap/copy","src/lib/indexer_interface.h"), m("datachunk::operator= / multiply_by_scalar","src/data/datachunk.cpp"), m("copy_to / full_copy","src/data/functions.h")])

prop("C04", "Subdividing a range gives an exact partition",
 "Splitting a range into a requested number of pieces along each dimension yields exactly that many pieces, each a valid (possibly empty) sub-range of the original; together they cover every cell of the original exactly once, and pieces with larger piece coordinates lie at larger cell coordinates.",
 ["inputs"], "every range (incl. non-zero origins and very long dimensions) and every positive number of pieces, divisible or not, more pieces than cells included",
 "No test uses subdivision at all.",
 ["src/lib/range_set.h","src/lib/range_set.cpp"], [m("range_set::setup","src/lib/range_set.cpp")])

prop("C05", "Misuse is reported as a readable error and corrupts nothing",
 "Running an operator with the wrong number of input or output variables, inconsistent charge and mass lists or an odd number of variables to exchange, reading a variable that does not exist, and asking a range-checked build for a dimension outside a grid or iterator, for a cell outside a grid, or for the address of a cell beyond an array's storage each raise the library's error and leave the values of all existing variables unchanged and usable. The error's message is exactly the text it was built from, followed by anything appended, and stays readable through copies, assignments and re-throws for as long as the error object lives.",
 ["inputs","histories"], "every solver, every wrong variable count, every out-of-range dimension, every message length, every chain of copies/assignments/appends",
 "No test provokes an error; messages are only ever printed when a test fails.",
 ["src/lib/exception.h","src/solver/solver.h","src/variable/variable_manager.cpp","src/lib/indexer.cpp","src/grid/grid.cpp","src/grid/rectilinear.cpp"],
 [m("qk::exception","src/lib/exception.h"), m("argument-count checks at the top of each solve()","src/solver/*.cpp"), m("_QK_RANGE_CHECK_ bounds checks","src/lib/indexer.cpp, src/grid/*.cpp, src/lib/indexer_interface.h"), m("variable_manager::input_variable","src/variable/variable_manager.cpp")])

prop("C06", "Ghost layers surround the interior exactly",
 "For any mesh box, per-cell data box and ghost depth, a chunk's storage is the mesh widened by that depth on both sides of every mesh dimension times the data box, its interior is the mesh times the data box, and along each mesh dimension the outer slabs are exactly the ghost cells adjacent to the lower and upper face and the inner slabs the equally deep interior cells next to that face. A variable built for a mesh holds storage with one slot per basis point and component for every widened cell, and re-sizing, copying or assigning a chunk reproduces this geometry exactly.",
 ["inputs","configurations"], "every mesh of 1 to 4 dimensions with any origin, any ghost depth, any data box, any sequence of resizes and copies",
 "The one variable test checks a total volume and two lengths for one fixed mesh; slab bounds, ghost depths and resizes are never checked.",
 ["src/data/extended_datachunk.h","src/data/extended_datachunk.cpp","src/data/datachunk.cpp","src/data/dataset.cpp","src/variable/variable.cpp"],
 [m("extended_datachunk::resize","src/data/extended_datachunk.cpp"), m("dataset::resize","src/data/dataset.cpp")])

prop("C07", "Variable and basis identity is a consistent strict order",
 "Ordering of bases, and of variable identifiers, is irreflexive, asymmetric and transitive, and two of them are unordered exactly when they are equal, that is, when name and basis (name and number of points) agree. Comparing two identifiers with the same name but different component lists raises an error. Every unique clone of an identifier keeps its components and basis and has a name different from its source and from every other clone.",
 ["inputs","histories"], "all triples of bases and identifiers, any number of clones",
 "No test compares identifiers or bases.",
 ["src/basis/basis.h","src/variable/variable_id.h","src/variable/variable_id.cpp"],
 [m("basis operator</==","src/basis/basis.h"), m("variable_id operator</== and unique_clone","src/variable/variable_id.h")])

prop("C08", "The variable registry never loses, aliases or invents data",
 "Over any history of requests, asking to write a given identifier always yields the same storage, created on first request with the identifier's name, components and basis and zero-filled; different identifiers never share storage, and values stay as last written regardless of how many other variables are created. Reading an identifier that was never created raises an error and creates nothing, requesting a known name with different components raises an error, a creation cut short because memory ran out leaves every variable as it was and can be repeated, and the time, time step and grid reported are the ones last set.",
 ["histories"], "every interleaving of creations, reads, writes, exchanges and failed requests over any number of identifiers and bases",
 "The registry is not used by any test.",
 ["src/variable/variable_manager.h","src/variable/variable_manager.cpp","src/solver/swap.cpp","src/solver/fill.cpp"],
 [m("variable_manager::output_variable/input_variable/add_variable","src/variable/variable_manager.cpp"), m("swap::solve exchanges contents","src/solver/swap.cpp")],
 [dict(name="_variables", meaning="identifier to storage map", where="src/variable/variable_manager.h")])

prop("C09", "Grid cells tile the domain",
 "On a zero-based uniform grid, cell widths times cell counts equal the domain widths and the centre of cell i along a dimension is start + (i + 1/2) times the cell width, for interior and ghost cells alike, whichever query is used. On a stretched grid, after any sequence of linear or symmetric stretchings with any positive real exponent p, the cell widths are positive and sum to the domain width, the k-th of n faces lies at fraction (k/n)^(1/p) of the domain counted from its upper end (linear) or of each half domain counted from its outer end (symmetric), centres are the midpoints of consecutive cells starting at the domain start, symmetric stretching is mirror symmetric, exponent one gives uniform cells, and other dimensions are unaffected; symmetric stretching of an odd number of cells raises an error.",
 ["inputs","histories"], "all domains (integral or fractional widths, any origin), resolutions, dimensions, stretch sequences and exponents",
 "No test constructs a grid.",
 ["src/grid/grid.cpp","src/grid/rectilinear.cpp","src/grid/structured.cpp","src/grid/structured.h"],
 [m("rectilinear::xc/centroid/dx","src/grid/rectilinear.cpp"), m("structured::bias_array/apply_bias_*/recalculate_xcs","src/grid/structured.cpp")])

prop("C10", "Exported files and printouts represent the data faithfully",
 "A successful export writes a VTK file whose header describes the grid (points per axis, origin at the domain start, cell spacing, cell count) and which lists, for every requested variable in order and each of its components, every interior value exactly once with the first axis fastest, to at least 15 significant digits; printing lists every interior value once with its index. A chunk asked to write one component of a region writes exactly that component's values over the region in the same order, whatever shape it had before. Ghost cells never appear, exporting or printing changes no data, and an export that cannot be completed (unopenable file, full device, unknown variable, unsupported or mixed basis) raises an error instead of reporting success.",
 ["inputs","configurations","fault_sequences"], "all 1-3 D grids, component counts, value magnitudes, variable lists, and I/O failures at open and at write",
 "No test writes or prints a variable, and none injects an I/O fault.",
 ["src/variable/variable_manager.cpp","src/variable/variable.cpp","src/data/datachunk.cpp","src/grid/rectilinear.cpp","src/solver/print.cpp"],
 [m("variable_manager::write_vtk","src/variable/variable_manager.cpp"), m("datachunk::write_VTK","src/data/datachunk.cpp"), m("rectilinear::write_vtk","src/grid/rectilinear.cpp"), m("print::solve","src/solver/print.cpp")])

prop("C11", "Periodic boundaries wrap the interior exactly",
 "After applying periodic boundaries to any selection of dimensions and variables, every ghost cell beyond a face of a selected dimension (and inside the interior in the other dimensions) holds, for every component, exactly the value of the interior cell one domain length away. Interior cells, ghost cells beyond unselected dimensions and variables not selected are bit-for-bit unchanged, and applying the boundary again changes nothing.",
 ["inputs","configurations"], "all grids at least as long as the ghost depth, all component counts and basis sizes, all dimension selections, all values incl. infinities, NaN and signed zeros",
 "No test runs a boundary condition.",
 ["src/solver/bc_periodic.cpp","src/data/functions.h","src/data/extended_datachunk.cpp"],
 [m("bc_periodic::solve","src/solver/bc_periodic.cpp"), m("copy_to over ghost slabs","src/data/functions.h")])

prop("C12", "Wall boundaries mirror the interior with the right signs",
 "Outflow, no-slip, free-slip and conducting-wall boundaries set each ghost cell beyond a face of a selected dimension to the interior cell mirrored in that face: outflow copies every component, no-slip reverses all three momenta, free-slip reverses only the momentum normal to the wall, and a conducting wall normal to the first axis reverses the electric field and the normal magnetic field while copying the tangential magnetic field. All other components are copied unchanged; interior cells, ghost cells beyond unselected dimensions and unselected variables are bit-for-bit unchanged; applying the boundary again changes nothing.",
 ["inputs","configurations"], "all grids at least as long as the ghost depth, dimension selections, lists of variables and values",
 "No test runs a boundary condition.",
 ["src/solver/bc_copy_out.cpp","src/solver/bc_no_slip.cpp","src/solver/bc_free_slip.cpp","src/solver/bc_conducting_wall.cpp"],
 [m("mirror loops and sign reversal","src/solver/bc_*.cpp"), m("datachunk::multiply_by_scalar","src/data/datachunk.cpp")])

prop("C13", "Fluid rate of change is the limited HLL flux balance",
 "For every physically valid fluid state, the fluid operator adds to the rate of change of each interior cell exactly the sum over dimensions of (left face flux minus right face flux) divided by the cell width, where each face flux is the HLL flux of the two van Albada limited linear face states for the given adiabatic index: fully upwinded where the flow through the face is supersonic in either direction, and the HLL average otherwise (faces onto which supersonic streams converge from both sides excepted). It adds to what is already stored rather than replacing it.",
 ["inputs","configurations"], "all valid 1-3 D states (sub- and supersonic, both directions, every axis, smooth and discontinuous), adiabatic indices, anisotropic grids and prior contents",
 "No test runs the fluid solver.",
 ["src/solver/euler.cpp","src/spatial_solver/functions.h"],
 [m("solve_HLL_mp","src/solver/euler.cpp")])

prop("C14", "Field rate of change is the limited Rusanov flux balance of Maxwell",
 "For every electromagnetic field, the field operator adds to the rate of change of each interior cell the sum over dimensions of (left face flux minus right face flux) divided by the cell width, where each face flux is the Rusanov flux with speed |c| of the curl equations dE/dt = c^2 curl B, dB/dt = -curl E on van Albada limited face states. Components along an axis are unaffected by variation along that axis, the result does not depend on the sign of c, and the contribution is added to what is already stored.",
 ["inputs","configurations"], "all 1-3 D fields, light speeds (SI sized and negative included), anisotropic grids and prior contents",
 "No test runs the field solver.",
 ["src/solver/maxwell.cpp"], [m("solve_rusanov_mp","src/solver/maxwell.cpp")])

prop("C15", "Plasma coupling follows the Lorentz force and Ampere current",
 "In every interior cell the Lorentz operator adds q/m (rho E + p x B) to the momentum rates and q/m times the scalar product of p and E to the energy rate and nothing to the density rate, and the current operator subtracts (q/m) p / eps0, summed over all species, from the electric-field rates and nothing else. Consequently magnetic forces do no work and the power given to the fluids equals the power lost by the field. Ghost cells and all other variables are unchanged.",
 ["inputs","configurations"], "all fluid and field states, charges of both signs, any number of species, 1-3 D grids",
 "No test runs the source operators.",
 ["src/solver/lorentz_force.cpp","src/solver/current_source.cpp","src/solver/current_source.h","src/solver/lorentz_force.h"],
 [m("low_order_solve_idx","src/solver/lorentz_force.cpp"), m("fv_solve_idx","src/solver/current_source.cpp")])

prop("C16", "Time integrators perform the exact SSP Runge-Kutta combinations",
 "Each stage of the one-stage and three-stage integrators writes, for every stored value, exactly the convex combination of the scheme: u1 = u0 + dt R; u2 = 3/4 u0 + 1/4 u1 + 1/4 dt R; u3 = 1/3 u0 + 2/3 (u2 + dt R), using the current time step and rate, and modifies only that stage's output. Driven with rates from an ordinary differential equation, the three-stage scheme is third-order accurate and the one-stage scheme first-order, and a zero rate leaves the state unchanged.",
 ["inputs","histories"], "all values, signs and sizes of time step, component counts, any order and repetition of stages, long step sequences with the time step changing between steps",
 "No test runs an integrator.",
 ["src/solver/ssprk3.cpp","src/solver/rk1.cpp"], [m("stage_0/1/2","src/solver/ssprk3.cpp"), m("stage_0","src/solver/rk1.cpp")])

prop("C17", "Advection transports every component upwind with the limited SSPRK2 scheme",
 "Each stage of the advection operator updates every interior cell and component by the net upwind flux through its faces along every dimension, using the limited upwind-biased face value for the sign of that dimension's velocity, with the first stage a full step from the old state and the second the average of the old state and a further full step. With periodic boundaries the total of every component is conserved, constant states and zero velocity leave the state unchanged, and reversing both velocity and data along an axis reverses the result.",
 ["inputs","configurations","histories"], "1-3 D grids, all velocity sign patterns incl. zero, time steps, component counts, multi-step histories",
 "No test runs the advection solver.",
 ["src/solver/ssprk2_advection.cpp"], [m("advection_iterate/advection_inout","src/solver/ssprk2_advection.cpp")])

prop("C18", "Updates conserve totals and keep uniform states steady",
 "On a fully periodic grid the rates produced by the fluid, field and advection operators sum to zero over the interior for every conserved component, so full time steps conserve mass, momentum, energy and field totals to rounding. Any uniform state, moving or not, in any number of dimensions, is left exactly steady to rounding, and between reflecting walls total mass and energy are still conserved.",
 ["inputs","configurations","histories"], "all states, grids, time steps and number of steps",
 "No test runs a solver, let alone sums over a domain.",
 ["src/solver/euler.cpp","src/solver/maxwell.cpp","src/solver/ssprk2_advection.cpp","src/solver/bc_periodic.cpp","src/solver/ssprk3.cpp"],
 [m("each face flux is added to one cell and subtracted from its neighbour","src/solver/euler.cpp, src/solver/maxwell.cpp, src/solver/ssprk2_advection.cpp")])

prop("C19", "Initial conditions set every cell to the documented profile",
 "Each initialiser sets every interior cell of its output variables, in one, two or three dimensions, to its profile evaluated at that cell's centre and to nothing else: Gaussian, planar and radial shock tubes, magnetic pulse, travelling plane electromagnetic wave, two-fluid Brio-Wu shock tube and the GEM current sheet, with absent dimensions treated as coordinate zero and components not part of the profile zero. The result depends only on the grid and the parameters, not on earlier contents.",
 ["inputs","configurations"], "all parameters, grids of each dimension, prior contents and stack or heap garbage",
 "No test runs an initialiser.",
 ["src/solver/gaussian.cpp","src/solver/shock_tube.cpp","src/solver/radial_shock_tube.cpp","src/solver/magnetic_pulse.cpp","src/solver/electromagnetic_wave_1D.cpp","src/solver/brio_wu_shock_tube.cpp","src/solver/gem_challenge.cpp","src/solver/fill.cpp"],
 [m("profile loops","src/solver/<initialiser>.cpp")])

prop("C20", "A complete simulation matches an independent model of the method",
 "Running a simulation by composing initial condition, boundaries, rate reset, fluid, field and coupling operators, integrator stages and the final exchange, in one to three dimensions and over many steps, reproduces an independently written model of the same method to rounding-level accuracy (as far as the scheme itself does not amplify rounding). The interior result does not depend on the contents of ghost cells before boundaries are applied, nor on corner ghost cells.",
 ["inputs","configurations","histories"], "random physical set-ups (fluid, Maxwell, two-fluid plasma, advection), boundary mixes, grids, time steps, step counts",
 "No test runs more than constructors and single array operations.",
 ["src/solver/*.cpp","src/variable/variable_manager.cpp","src/example"],
 [m("composition of solvers through the variable registry","src/example/*")])

prop("C21", "OpenMP execution is race free and gives the serial result",
 "When built with OpenMP, every operator gives the same results as the serial build for every number of threads and every order or interleaving in which the threads run, and no two threads access the same memory location without synchronisation where one of them writes.",
 ["schedules","inputs"], "all thread counts, chunk execution orders and interleavings, over random states",
 "The tests are built without OpenMP and run no parallel loop.",
 ["src/solver/euler.cpp","src/solver/maxwell.cpp","src/solver/ssprk3.cpp","src/solver/ssprk2_advection.cpp","src/lib/parallelization.h","CMakeLists.txt"],
 [m("omp parallel for with private work arrays, one cell written per iteration","src/solver/*.cpp")])

prop("C22", "Correct use is free of undefined behaviour and reproducible",
 "Any program that uses the public interface within its preconditions never reads or writes outside allocated storage, never uses freed or uninitialised memory, never leaks variables, and executes no undefined behaviour, in range-checked and unchecked builds. Its interior results, exported files and reported values are a function of its inputs only: repeating it gives bit-identical results whatever ran before and whatever uninitialised memory happened to contain.",
 ["programs","inputs","histories","configurations"], "random programs mixing all public operations on random grids",
 "Tests run without sanitizers and cover 8 short cases; one undefined construct (aligned loads on unaligned storage) sits in code no test reaches.",
 ["src/lib","src/data","src/variable","src/grid","src/solver"],
 [m("bounds and lifetime handling throughout","src/"), m("variable_manager destructor","src/variable/variable_manager.cpp")])

prop("C23", "Operators write only their declared outputs",
 "Running any operator leaves every variable that is not among its outputs, the grid, the time and the time step bit-for-bit unchanged, reads nothing but its inputs and its own outputs, and gives the same result when many unrelated variables exist. Exchange swaps complete contents pairwise, and the reset operator sets every value including ghosts of exactly its outputs.",
 ["inputs","histories","configurations"], "every operator, with bystander variables of the same and different shapes, created before and after, any listing order",
 "No test runs an operator.",
 ["src/solver/*.cpp","src/variable/variable_manager.cpp"], [m("explicit input/output variable lists","src/solver/solver.h")])

prop("C24", "Numerics have no preferred axis or direction",
 "Relabelling the axes of a problem (grid, data and vector components together), mirroring it along an axis (with normal vector components reversed, and magnetic fields transforming as axial vectors), or shifting it periodically gives the correspondingly relabelled, mirrored or shifted rates for the fluid, field, advection and coupling operators, to rounding. A problem that varies along only some axes gives the same result as the lower-dimensional problem, and scaling all lengths and times together scales the rates accordingly.",
 ["inputs","configurations"], "all states and grids in 2 and 3 dimensions, all axis permutations, mirrors and shifts",
 "No test runs a solver.",
 ["src/solver/euler.cpp","src/solver/maxwell.cpp","src/solver/ssprk2_advection.cpp","src/solver/lorentz_force.cpp","src/solver/current_source.cpp"],
 [m("per-dimension flux code written out three times for the field, indexed by dimension for the fluid","src/solver/maxwell.cpp, src/solver/euler.cpp")])

prop("C25", "The shipped programs export the frames of the simulations they describe",
 "Each of the seven shipped programs (advected Gaussian, Sod shock tube, magnetic pulse, plane wave, two-fluid Brio-Wu shock tube, Harris current sheet, GEM reconnection challenge) writes one VTK frame for its initial profile and one after every fixed number of equal time steps, numbered from zero in order and as many as it announces; the first frame holds the documented initial profile on the program's grid, and every later frame holds the state that the described scheme (three-stage or two-stage, with the program's boundaries, species, time step and couplings) reaches by then.",
 ["inputs","histories"], "all frames of all shipped programs",
 "No test runs any program; a frame is the result of up to 125 steps of two fluids and a field.",
 ["src/example/advection/advect_gaussian.cpp","src/example/euler/sod_shock_tube.cpp","src/example/maxwell/gaussian_pulse.cpp","src/example/maxwell/wave_1D.cpp","src/example/plasma/two_fluid_brio_wu.cpp","src/example/plasma/harris_current_sheet.cpp","src/example/plasma/gem_challenge.cpp"],
 [m("time loop with boundary, rate, coupling, integrator stages, exchange and export","src/example/*")])

prop("C26", "Simulations converge to the exact solutions of the equations",
 "With a stable time step, simulations of smooth periodic flow, of electromagnetic and sound waves (travelling, or standing between conducting or reflecting walls), of subsonic shock tubes and of uniform plasmas in electric and magnetic fields stay close to the exact solutions of the advection, Euler, Maxwell and multi-fluid equations, whatever the direction of travel, amplitude, units, adiabatic index or number of dimensions. Refining the grid together with the time step reduces the error at the order of the method: about second order for smooth waves, about first order where there are shocks, third order in time for uniform plasmas.",
 ["inputs","configurations","histories"], "all wave numbers, polarisations, directions, amplitudes, background flows, shock-tube states, species and fields with known solutions",
 "No test runs a simulation; agreement with a solution of the equations shows only over many steps and several resolutions.",
 ["src/solver/euler.cpp","src/solver/maxwell.cpp","src/solver/ssprk2_advection.cpp","src/solver/lorentz_force.cpp","src/solver/current_source.cpp","src/solver/ssprk3.cpp","src/solver/bc_periodic.cpp","src/solver/bc_conducting_wall.cpp","src/solver/bc_free_slip.cpp","src/solver/bc_copy_out.cpp"],
 [m("limited linear face states with HLL/Rusanov/upwind fluxes","src/solver/euler.cpp, src/solver/maxwell.cpp, src/solver/ssprk2_advection.cpp, src/spatial_solver/functions.h"), m("three-stage integrator","src/solver/ssprk3.cpp")])

prop("C27", "Programs sharing no objects do not influence each other",
 "Several simulations or other programs in one process that share no registry, grid, operator or array observe exactly what each observes when it runs alone, bit for bit: whatever the order in which their calls alternate, when objects are created and destroyed, when one of them meets an error, and also when each runs on a thread of its own (making unique clones of identifiers excepted).",
 ["schedules","programs","histories"], "all groups of programs, all alternations of their calls, all thread interleavings",
 "Every test runs one thing at a time; hidden shared state shows only when two programs are under way together.",
 ["src/solver","src/lib","src/data","src/grid","src/variable"],
 [m("no state outside objects but the counter behind unique clones","src/variable/variable_id.h"), m("work arrays are locals","src/solver/*.cpp")])

prop("C28", "Results do not depend on the system of units",
 "Stating a problem in other units (of length, time, mass density, field strength, charge over mass) gives the same results in those units: grid positions and widths, initial conditions, boundary values, forces, currents, stage combinations and time steps are homogeneous in their arguments and contain no dimensional threshold, floor, cap or default, so that factors of any size between the units come out exactly. The one exception is the constant 1e-12 with which the limiter guards its slope ratios: values must not be so small that it matters.",
 ["inputs","configurations","histories"], "all problems and all systems of units in which no value under- or overflows",
 "Every test uses numbers of order one; a dimensional threshold shows only in other units.",
 ["src/solver","src/grid/rectilinear.cpp","src/grid/structured.cpp","src/spatial_solver/functions.h"],
 [m("formulas in terms of dimensionless ratios and the adiabatic index only","src/solver/*.cpp"), m("constant 1e-12 added to slopes","src/solver/euler.cpp, src/solver/maxwell.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
