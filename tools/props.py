T = "TLA+ specification, TLC exhaustive; traces of the real code validated against it by TLC"

def P(id, title, statement, over, text, why, files, mech, note, technique=T, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                         "observe_at": list(observe), "hook_needed": None},
                technique=technique, level_note=note)

NOT_APPLICABLE = {}

PROPS = [
P("C01", "Time advances by the largest allowed step and never oversteps its limits",
  "A simulation run takes each time step with the largest size that exceeds neither the CFL fraction of the stable step, nor the next requested output time, nor the final time; every step is prepared, attempted and committed exactly once, with the same size. Time and cycle counts of accepted states never decrease, and the run ends exactly when the final time (within the smallest step size) or the maximal number of cycles is reached, not earlier and not later.",
  ["inputs", "histories", "configurations"],
  "all sequences of stable step estimates, final times, cycle limits, CFL numbers, output requests and restarts",
  "No test runs the driver loop at all; the interplay of limits and histories is unbounded.",
  ["include/fub/RunSimulation.hpp", "src/RunSimulation.cpp"],
  [("limited_dt = min(final, next output, cfl*stable)", "RunSimulation.hpp: RunSimulation"),
   ("outer and inner loop conditions", "RunSimulation.hpp: RunSimulation")],
  "The driver's design model is explored exhaustively for small times; the real driver is run under every schedule of estimates and failures within the same bounds plus seeded random larger ones, and every run is validated event by event. Assumes a solver whose stable step depends only on the grid's contents.",
  observe=["calls into the solver handed to the driver"]),
P("C02", "A failed time step is rolled back completely and retried with its estimate",
  "If a time step fails and backups are enabled, the run continues from exactly the last accepted state, as if the failed attempt had never happened, with a step limited by the CFL fraction of the estimate that the failure reported; fresh estimates are used again after the next success. If backups are disabled, the run stops at the failure. No output and no caller ever sees contents of a failed attempt.",
  ["fault_sequences", "histories"],
  "all sequences of step failures with any estimates, at any step, leaving arbitrary partial changes behind",
  "No test contains a failing time step; the guarantee quantifies over fault sequences.",
  ["include/fub/RunSimulation.hpp"],
  [("backup copy and assignment after errors", "RunSimulation.hpp: RunSimulation"), ("failure_dt", "RunSimulation.hpp")],
  "Every placement of one (quick) or two (thorough) failures is enumerated on the real driver, longer sequences are drawn at random; the specification tracks identity of grid contents. Assumes deep copies of the solver.",
  observe=["calls into the solver handed to the driver", "outputs"]),
P("C03", "Every requested output is written exactly once, at the states it asked for",
  "An output requested every n cycles or every interval of time receives each accepted state at which it is due, exactly once, and no other; no step crosses a requested output time, and round-off in the time never loses or repeats an output. Non-positive frequencies and intervals switch a request off; the members of a composite output are served independently, and a single output handed to the driver also receives the final state.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all combinations of outputs with any frequencies and intervals, all time units, step histories and failures",
  "No test runs the output classes; round-off and failure histories cannot be sampled by a few examples.",
  ["include/fub/output/OutputAtFrequencyOrInterval.hpp", "include/fub/output/MultipleOutputs.hpp", "include/fub/output/AsOutput.hpp", "include/fub/RunSimulation.hpp"],
  [("NextOutputTime / ShallOutputNow", "OutputAtFrequencyOrInterval.hpp"), ("any_of / accumulate over members", "MultipleOutputs.hpp"), ("inner loop until ShallOutputNow", "RunSimulation.hpp")],
  "As for C01 with up to three outputs of the real classes; time units are chosen such that multiples of the interval are inexact. Beyond times where the smallest step size drops below the resolution of double the property is not claimed.",
  observe=["invocations of the outputs"]),
P("C04", "Subcycled levels share the coarse step out and stay synchronized",
  "In a subcycled hierarchy step the coarsest level advances once by the requested step; each finer level performs exactly as many substeps as its refinement ratio within every step of the next coarser one, each of the corresponding share of the step, with consecutive substep numbers, one after another and before the coarser level itself advances. Levels that regridding creates or changes take part with fresh ghost cells, each substep sees ghost cells of its own time, and at the end all levels are at the same time with refreshed ghost cells.",
  ["inputs", "histories", "configurations"],
  "all hierarchies, refinement ratios, regridding histories and step sequences",
  "No test drives more than a single level; the guarantee ranges over regridding histories.",
  ["include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp"],
  [("AdvanceLevel recursion", "SubcycleFineFirstSolver.hpp: AdvanceLevel"), ("ghost cell filling", "DimensionalSplitLevelIntegrator.hpp: PreAdvanceLevel; SubcycleFineFirstSolver.hpp: AdvanceHierarchy")],
  "All orders of operations that the step contract allows are explored with TLC for up to three levels; the real solvers run against a recording context with every placement of one failure and one regrid in small hierarchies and random larger ones. The grid back ends (AMReX, SAMRAI) are not built here; the context stands in for them.",
  observe=["operations on the integrator context"]),
P("C05", "A hierarchy step conserves mass across refinement levels",
  "Whatever fluxes the numerical method computes, a completed hierarchy step leaves the total conserved quantity of a closed hierarchy unchanged: on every coarse-fine interface the coarse flux is replaced by the time-weighted fluxes of the finer level's steps - each flux accumulated exactly once with the step it was used for, in a register reset in this step, applied once after both levels are advanced - and covered coarse cells take the finer level's data before the result is stored.",
  ["inputs", "histories", "configurations"],
  "all fluxes, hierarchies, splittings, regridding histories, with and without subcycling",
  "Conservation is a statement over all fluxes and all interleavings of levels; no test advances a hierarchy.",
  ["include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp"],
  [("ResetCoarseFineFluxes, ApplyFluxCorrection, CoarsenConservatively", "SubcycleFineFirstSolver.hpp, NoSubcycleSolver.hpp: AdvanceLevel"), ("AccumulateCoarseFineFluxes with the split step", "DimensionalSplitLevelIntegrator.hpp: AdvanceLevelNonRecursively")],
  "As for C04; conservation is proved by exhaustive exploration to follow from the local rules of the contract, and recomputed from the recorded operations of the real solvers.",
  observe=["operations on the integrator context"]),
P("C06", "An unsubcycled hierarchy step advances every level once by the same step",
  "Without subcycling, each existing level performs exactly one step of the full size within a hierarchy step, finer levels before coarser ones, each with its ghost cells refreshed after regridding and after its result is stored; at the end all levels are at the same time.",
  ["inputs", "histories", "configurations"],
  "all hierarchies and regridding histories",
  "No test drives this solver; the guarantee ranges over regridding histories.",
  ["include/fub/solver/NoSubcycleSolver.hpp"],
  [("AdvanceLevel recursion", "NoSubcycleSolver.hpp: AdvanceLevel")],
  "As for C04. That a finer level's ghost cells are refreshed from a coarser level that has yet to advance is accepted as the solver's design.",
  observe=["operations on the integrator context"]),
P("C07", "A level step sweeps every direction over exactly the whole step",
  "In a level step each direction is advanced by exactly the level's step in total, for every splitting method and number of dimensions. Directions alternate between ascending and descending order with the parity of cycle plus substep. Every sweep uses fluxes computed in it for its direction and step from completed states, updates the level once with them, and states are completed before they are used again or stored; a repeated sweep sees refreshed boundary cells; sweeps are numbered consecutively.",
  ["inputs", "histories", "configurations"],
  "all splitting methods, dimensions, cycles and substeps",
  "No test runs the level integrator; the sweep order depends on histories of cycles and substeps.",
  ["include/fub/solver/DimensionalSplitLevelIntegrator.hpp", "include/fub/split_method/SplittingMethod.hpp"],
  [("sweep lambda", "DimensionalSplitLevelIntegrator.hpp: AdvanceLevelNonRecursively"), ("MakeSplitDirections", "SplittingMethod.hpp")],
  "As for C04, with Godunov, Strang, lumped Strang and type-erased splittings in one to three dimensions.",
  observe=["operations on the integrator context"]),
P("C08", "A too large step aborts the whole hierarchy step with a usable estimate",
  "Before fluxes are computed, each sweep compares its step with the stable step of the current states (the minimum over all processes). If it is too large, or a hook or source term reports failure, nothing further is done: every enclosing splitting and level returns the failure, and the caller receives the failing level's stable step multiplied by the total refinement ratio, as a step of the coarsest level. Without failures a step always succeeds. The stable step of a hierarchy is the minimum over all levels, directions and source terms, in units of the coarsest level's step.",
  ["fault_sequences", "inputs", "configurations"],
  "every position of a failure in every hierarchy step and all stable steps",
  "Failures cannot be provoked by the existing tests; the guarantee is about every failure point.",
  ["include/fub/solver/SubcycleFineFirstSolver.hpp", "include/fub/solver/NoSubcycleSolver.hpp", "include/fub/solver/DimensionalSplitLevelIntegrator.hpp", "include/fub/solver/SplitSystemSourceLevelIntegrator.hpp"],
  [("scale_dt_on_error", "SubcycleFineFirstSolver.hpp: AdvanceLevel"), ("level_dt < split_dt", "DimensionalSplitLevelIntegrator.hpp"), ("ComputeStableDt", "SubcycleFineFirstSolver.hpp, NoSubcycleSolver.hpp, SplitSystemSourceLevelIntegrator.hpp")],
  "Every failure point is enumerated in small hierarchies, others at random. The unsubcycled solver reports the level's step unscaled, which is its coarse unit.",
  observe=["operations on the integrator context", "results of AdvanceHierarchy and ComputeStableDt"]),
P("C10", "A source term is advanced by exactly the step, apart from the sweeps",
  "When a system is combined with a source term, each level step advances the source by exactly the level's step in total, according to the chosen splitting, only from completed states and never in the middle of the sweeps nor after the result was corrected or stored; the hooks before and after level and hierarchy steps reach both parts exactly once, with the level's arguments, and a failure of either aborts the step.",
  ["inputs", "fault_sequences", "configurations"],
  "all splittings of system and source, hierarchies and failures of the source term",
  "No test combines a system with a source term.",
  ["include/fub/solver/SplitSystemSourceLevelIntegrator.hpp"],
  [("AdvanceLevelNonRecursively", "SplitSystemSourceLevelIntegrator.hpp"), ("PreAdvanceLevel, PostAdvanceLevel, Pre/PostAdvanceHierarchy", "SplitSystemSourceLevelIntegrator.hpp")],
  "As for C04; source terms with both signatures of the optional hooks.",
  observe=["operations on the context and the source term"]),
P("C09", "Splitting methods advance each operator by exactly the step, or fail cleanly",
  "A splitting method composes a step of any number of operators such that every operator is advanced by exactly the step in total, in positive substeps, first used in the given order; the Strang variants are symmetric in time, Godunov splitting uses each operator once, and for two operators the composition is the documented one. The first failing operator ends the composition, nothing is called afterwards and its error is returned unchanged. Type-erased methods behave as the method they hold, independently of copies.",
  ["inputs", "fault_sequences"],
  "all methods, numbers of operators, steps and positions of a failure",
  "No test covers the splitting methods; failures at nested positions need every position.",
  ["include/fub/split_method/SplittingMethod.hpp", "src/split_method/GodunovSplitting.cpp", "src/split_method/StrangSplitting.cpp", "src/split_method/StrangSplittingLumped.cpp"],
  [("Advance, AdvanceRecursively", "SplittingMethod.hpp"), ("AnySplitMethod", "SplittingMethod.hpp")],
  "Complete enumeration for up to five operators and every failure position.",
  observe=["calls of the operators", "returned results"]),
P("C11", "The conservative update changes each cell by the difference of its face fluxes",
  "Updating a patch along any direction replaces every conserved component of every cell of the patch by its previous value plus dt/dx times the flux through its lower face minus the flux through its upper face, whatever the shape, padding, rank and direction of the views, and identically for the sequential, the vectorized and the OpenMP policies. Fluxes and previous states stay unchanged, nothing outside the cells of the patch is accessed, and the sum over the patch changes by the fluxes through its two sides only.",
  ["inputs", "configurations"],
  "all patches, views, directions, values and execution policies",
  "Vector remainders, strides and policies multiply; no test calls the update at all.",
  ["src/HyperbolicPatchIntegrator.cpp", "include/fub/HyperbolicPatchIntegrator.hpp"],
  [("UpdateConservatively", "HyperbolicPatchIntegrator.cpp"), ("UpdateConservativelyPatchView", "HyperbolicPatchIntegrator.cpp")],
  "All row lengths around the vector width, ranks 1 to 3, all directions, padded and offset views, storage that ends at a guard page. Exact integer arithmetic.",
  observe=["contents of all memory around the patch after each update"]),
P("C12", "Index boxes, views and rows address exactly the cells they name",
  "Index boxes behave as sets of cells: Contains, Intersect, Grow, Shrink, Embed, Project, neighbours and sides denote the sets their names say, in all ranks. ForEachIndex visits each cell exactly once. A sub-view, slice or sub-range of a view addresses exactly those elements of the original that lie in the requested range, including empty ranges. ForEachRow visits, for several views at once, corresponding whole rows that together are exactly the cells of the views and no others, and always terminates.",
  ["inputs"],
  "all boxes, views, ranks, strides and ranges, including empty ones",
  "The existing tests fix a few shapes; every shape, padding and empty range counts.",
  ["include/fub/PatchDataView.hpp", "include/fub/StateRow.hpp", "include/fub/core/mdspan.hpp", "include/fub/core/span.hpp", "include/fub/ForEach.hpp"],
  [("IndexBox operations, PatchDataView::Subview, SliceLast", "PatchDataView.hpp"), ("ForEachRow", "StateRow.hpp"), ("subspan", "core/mdspan.hpp")],
  "Small boxes enumerated, larger random; results are compared as sets of cells and addresses. The order of visiting is left open.",
  observe=["returned boxes", "addresses of visited elements"]),
P("C13", "States move between views, arrays, rows and buffers without loss",
  "For every equation, loading a state from a view yields exactly the values of its cell in each named variable and component, and storing a state writes exactly those and nothing else - by index, through advanced pointers, through rows, for single states, full arrays of states and partial arrays, for complete and conservative states, constant, dynamic and empty component counts. Parts of a view keep addressing their cells. Names, component numbers and buffers agree on one order of distinct, complete components.",
  ["inputs", "histories", "configurations"],
  "all equations, layouts, boxes, chunk remainders and sequences of loads and stores",
  "Every algorithm moves its data through these templates; tests see a few layouts only.",
  ["include/fub/State.hpp", "include/fub/StateArray.hpp", "include/fub/StateRow.hpp", "include/fub/StateUtil.hpp", "include/fub/Equation.hpp", "include/fub/ext/Eigen.hpp"],
  [("Load, Store, LoadN, StoreN, Advance, Begin, End", "State.hpp, StateArray.hpp"), ("ForEachRow, Row", "StateRow.hpp"), ("VarNames, IndexMapping, GetComponent", "Equation.hpp, State.hpp, StateUtil.hpp")],
  "Random histories over random layouts of the gas, gas mixture, shallow water, advection and Burgers equations; memory is compared completely after every operation. Lanes beyond a partial load are unspecified.",
  observe=["contents of all memory and states after each operation"]),
P("C14", "A sweep over a patch gives every face its own stencil, and none else",
  "Computing numeric fluxes over a patch evaluates, for every face of the requested face box and direction, the method on exactly the states left and right of that face in order, with the given step and cell size, and writes the result to that face only. The stable step of a patch is the least over all stencils inside the patch, or, if a mask is given, over the stencils that the mask leaves active. Sequential, vectorized and OpenMP sweeps, and rows of any length, give the same result and access nothing else.",
  ["inputs", "configurations"],
  "all patches, stencil widths, directions, row lengths, masks and execution policies",
  "Vector remainders, partial loads and policies multiply; tests run a few rows of one method.",
  ["include/fub/flux_method/FluxMethod.hpp", "include/fub/StateRow.hpp", "include/fub/Execution.hpp"],
  [("ComputeNumericFluxes, ComputeStableDt", "flux_method/FluxMethod.hpp")],
  "A stand-in method with exact integer values and widths 1 to 3 under the real sweeps; rows around the vector width; storage that ends at a guard page.",
  observe=["all written faces, the returned step, the states the method was shown"]),
P("C15", "Walls mirror, outflows continue, rotations are orthogonal",
  "A reflective wall fills each ghost cell with the mirror image of its inner cell: scalars are copied, vectors are reflected at the wall's normal. An outflow boundary continues the last inner cell. Both write the ghost cells of the chosen side only. Reflecting a state at a plane negates the normal part of its momentum and velocity and nothing else; rotating a state multiplies its vectors by an orthogonal matrix that maps the one direction to the other and leaves scalars alone.",
  ["inputs", "configurations"],
  "all equations, ranks, directions, sides, widths, fill boxes and unit vectors",
  "No test fills a boundary; errors show in single components of single directions.",
  ["src/boundary_condition/ReflectiveBoundary.cpp", "include/fub/boundary_condition/ReflectiveBoundary.hpp", "include/fub/boundary_condition/TransmissiveBoundary.hpp", "include/fub/Equation.hpp", "include/fub/equations/PerfectGas.hpp"],
  [("ReflectiveBoundary", "ReflectiveBoundary.hpp, ReflectiveBoundary.cpp"), ("TransmissiveBoundary", "TransmissiveBoundary.hpp"), ("Rotate, Reflect, MakeRotation", "PerfectGas.cpp, PerfectGasMix.cpp, IdealGasMix.cpp, Equation.hpp")],
  "Random boxes and integer states for the gas equations in one to three dimensions; integer normals with integer length. The opposite direction may be mapped by the negative identity.",
  observe=["contents of all memory around the patch", "states after reflection and rotation"]),
P("C16", "Tagging marks exactly the cells its criterion names and removes no mark",
  "The gradient detector tags a cell exactly if the relative difference of a quantity to one of its neighbours in some direction exceeds the tolerance, in every cell of the patch whose neighbours exist, whatever the row length and execution policy. The tag buffer extends marks to exactly the cells within its width of a marked cell, clipped to the patch, independent of the order of visiting. Tagging of cut cells marks exactly the cut cells. Marks that are set stay set, and nothing outside the patch is accessed.",
  ["inputs", "configurations"],
  "all patches, states, tolerances, buffer widths and policies",
  "No test runs a tagging method; chunk remainders and neighbours at patch edges decide.",
  ["include/fub/tagging_method/GradientDetector.hpp", "src/tagging_method/TagBuffer.cpp", "src/tagging_method/TagCutCells.cpp"],
  [("TagCellsForRefinement", "GradientDetector.hpp, TagBuffer.cpp, TagCutCells.cpp")],
  "Random boxes, marks and integer states, rows around the vector width. A difference equal to the tolerance is left open.",
  observe=["all tags after the call"]),
P("C18", "Equations compute their laws: fluxes, pressures and changes of variables",
  "For every supported conservation law, with any gamma, gas constant, numbers of species and passive scalars, the physical flux, the completed state, the primitive, kinetic and derived variables are those of the law's formulas, and changes of variables invert each other. Scalar, vectorized and masked forms agree; masked cells come out empty. Reflections and rotations act on the vectors only, setting a velocity changes the motion only, and isentropic changes of pressure keep entropy, composition and total enthalpy.",
  ["inputs", "configurations"],
  "all admissible states, directions, parameters, numbers of species and masks",
  "Tests sample no equation beyond a few literal states; scalar, array and masked forms are written separately for every dimension and drift apart.",
  ["src/equations/PerfectGas.cpp", "src/equations/PerfectGasMix.cpp", "src/equations/ShallowWater.cpp", "src/equations/Advection.cpp", "src/equations/Burgers.cpp", "include/fub/equations/PerfectGas.hpp", "include/fub/equations/PerfectGasMix.hpp", "include/fub/equations/EulerEquation.hpp"],
  [("Flux, CompleteFromCons, CompleteFromPrim", "PerfectGas.cpp, PerfectGasMix.cpp, ShallowWater.cpp"), ("euler::Pressure, Velocity, SetVelocity, IsentropicExpansionWithoutDissipation", "EulerEquation.hpp"), ("SetIsentropicPressure", "PerfectGasMix.hpp")],
  "Random states with Mach numbers up to 3 and pressures over three decades; rounding tolerance 1e-11 of the terms. Reference Mach numbers other than one are judged for fluxes and changes of variables only.",
  observe=["returned fluxes and states"]),
P("C19", "Numerical fluxes of the HLL family are consistent, conservative and upwind",
  "For all admissible pairs of states, HLL and HLLEM return the flux, face pressure and intermediate state of their method: consistent with the physical flux, mirror symmetric, conservative across the fan, equal to the upwind flux in supersonic flow; HLLEM leaves contact, shear and species waves at rest undisturbed and, with Larrouturou's correction, carries scalars and tangential motion with the mass flux. Signal speeds enclose the waves of both states and the stable step lets none cross a cell. Scalar, vectorized and masked forms agree, in all directions; closed faces are ignored.",
  ["inputs", "configurations"],
  "all pairs of admissible states, directions, equations, numbers of species and masks",
  "No test evaluates these fluxes; each variant is written out per dimension, scalar and vectorized, and few states reveal a sign or an index.",
  ["include/fub/flux_method/HllMethod.hpp", "src/equations/perfect_gas/HllemMethod.hpp", "src/equations/perfect_gas/EinfeldtSignalVelocities.hpp", "src/equations/euler_equations/EinfeldtSignalVelocities.hpp", "src/equations/ShallowWater.cpp"],
  [("ComputeNumericFlux, SolveRiemannProblem, ComputeStableDt", "HllMethod.hpp, HllemMethod.hpp"), ("EinfeldtSignalVelocities", "EinfeldtSignalVelocities.hpp"), ("ShallowWaterSignalVelocities", "ShallowWater.cpp")],
  "Random states with Mach numbers up to 9, contacts, shear layers, collisions and supersonic pairs; tolerance 1e-11 of the terms.",
  observe=["returned fluxes, pressures, states, speeds and steps"]),
P("C20", "Exact Riemann solvers and Godunov's method solve the Riemann problem",
  "For all pairs of states without vacuum, the exact Riemann solvers return the entropy solution: the middle pressure (height) and velocity lie on the wave curves of both sides, the state at the face, or along any given ray, is that of the shock, rarefaction or contact found there and carries the transverse velocity of its own side, and the reported signals are the speeds of the outermost waves, however faint the waves are. Godunov's flux is the flux of that state and the stable step is the time the fastest wave needs for a cell. Burgers' equation and linear advection are solved likewise. Scalar, vectorized and masked forms agree in all directions; closed faces carry no flux.",
  ["inputs", "configurations"],
  "all pairs of states without vacuum, directions, rays, gammas, gravities and masks",
  "Tests look at single literal pairs; the solution has ten regions per side whose boundaries and mirror images are written out by hand, and faint waves expose cancellation.",
  ["src/equations/perfect_gas/ExactRiemannSolver.hpp", "include/fub/flux_method/GodunovMethod.hpp", "src/equations/ShallowWater.cpp", "src/equations/Burgers.cpp", "src/equations/Advection.cpp", "include/fub/NewtonIteration.hpp"],
  [("ExactRiemannSolver::SolveRiemannProblem, ComputeMiddleState, ComputeSignals", "ExactRiemannSolver.hpp, ShallowWater.cpp, Burgers.cpp, Advection.cpp"), ("Godunov::ComputeNumericFlux, ComputeStableDt", "GodunovMethod.hpp")],
  "Random states with Mach numbers up to 3 to both sides, contacts, collisions and relative differences down to 1e-9; near the edge of a wave the states of both sides are accepted. The vectorized stable step of gases is not implemented by the library.",
  observe=["middle states, signals, sampled states, fluxes and steps"]),
P("C21", "Reconstruction and second and third order methods",
  "Limited slopes (minmod, van Leer, central, none) depend on the two differences as documented and vanish at extrema; gradients in conservative, primitive and characteristic variables are the limited slopes of these variables. Reconstruction gives the state at the upper or lower face of a cell after half a step, which is the Hancock predictor of the equations in the chosen variables - with the Mach number scaling of the equation, for all species and passive scalars - and its inverse recovers the cell. The MUSCL methods hand exactly these two states of the face to the Riemann solver below, with unchanged step, cell size, direction and cut-cell data; slopes that would need covered cells are zero, closed faces have no flux, and the stable step is that of the two inner cells. The third order Runge-Kutta flux is the documented combination of its three stages. Scalar, vectorized and masked forms agree in every direction and number of dimensions.",
  ["inputs", "configurations"],
  "all stencils of states whose reconstruction is physical, limiters, variables, methods, directions, dimensions, gammas, Mach numbers, species counts, steps and masks",
  "Tests run single smooth problems in one dimension without Mach number scaling, species or cut cells; scalar, SIMD and masked code are separate and hand written.",
  ["include/fub/flux_method/Gradient.hpp", "include/fub/flux_method/Reconstruct.hpp", "include/fub/flux_method/MusclHancockMethod.hpp", "include/fub/flux_method/MusclHancockMethod2.hpp", "src/equations/perfect_gas/MusclHancockPrimMethod.hpp", "src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp", "src/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"],
  [("ConservativeGradient, PrimitiveGradient, CharacteristicsGradient", "Gradient.hpp"), ("ConservativeReconstruction, PrimitiveReconstruction, CharacteristicsReconstruction", "Reconstruct.hpp"), ("MusclHancock, MusclHancock2, MusclHancockPrim, MusclHancockCharacteristic, ThirdOrderRungeKutta", "flux_method, perfect_gas")],
  "Random stencils with relative differences up to 60%; results are compared up to rounding.",
  observe=["slopes, gradients and reconstructed states", "states handed to the Riemann solver, fluxes and steps"]),
P("C17", "Type-erased wrappers are values",
  "Boundary conditions, initial data, tagging methods, flux methods, time integrators, reconstructions, limiters and geometries behave as values behind their wrappers: wrapping takes a copy of the object, copies of a wrapper are independent of their original from then on, moving hands the object itself on without making another one and leaves the source empty, assignment releases the old object exactly once, and a copy that throws changes nothing. Every call reaches exactly the object in the wrapper, once, with the caller's own data and arguments, and returns its answer; parts that an object does not implement, and empty wrappers that are documented to do nothing, do nothing. Casts succeed for the exact type only and give the object itself. References to callables share the callable.",
  ["histories", "failures of copies"],
  "all histories of wrapping, copying, moving, swapping, assigning, clearing, casting and calling any number of wrappers, with copies that fail at any of them",
  "Tests wrap one object and call it; sharing, leaks and the state after moves and failed copies show only in longer histories.",
  ["include/fub/AnyBoundaryCondition.hpp", "include/fub/AnyInitialData.hpp", "include/fub/AnyTaggingMethod.hpp", "include/fub/HyperbolicMethod.hpp", "include/fub/geometry/PolymorphicGeometry.hpp", "include/fub/cutcell_method/AnyMdLimiter.hpp", "include/fub/core/function_ref.hpp"],
  [("AnyBoundaryCondition, AnyInitialData, AnyTaggingMethod", "Any*.hpp"), ("AnyFluxMethod, AnyTimeIntegrator, AnyReconstruction, AnyCast", "HyperbolicMethod.hpp"), ("PolymorphicGeometry, AnyLimiter, function_ref", "geometry, cutcell_method, core")],
  "Histories of 60 operations on four wrappers of each kind around two types of objects.",
  observe=["calls that reach the objects, their life times and identities", "answers, casts and exceptions"]),
P("C22", "Geometries are signed distances",
  "Polygons give the distance to their nearest edge, positive exactly for points inside by the even-odd rule, for any number of vertices, with repeated points, horizontal edges and self-crossings; cones give the distance to the nearest point of base or mantle, half spaces the signed distance along their unit normal, bent tubes the distance between their pieces' walls and bisecting planes. Unions take the largest value, complements change the sign, turning about a point by an angle and revolving about the axis move the geometry, geometries of the plane extend along the third coordinate, and wrapped or copied geometries have the same values. Points read from a file are all the lines that hold points, in order.",
  ["inputs", "compositions"],
  "all points, polygons of any size and shape, cones, half spaces, bent tubes, and trees of unions, complements and motions of any depth; files with blank lines, comments and any last line",
  "Tests evaluate two polygons at a few points; the polygon code is vectorized in chunks with a remainder.",
  ["include/fub/geometry/", "src/geometry/"],
  [("Polygon::ComputeDistanceTo", "Polygon.cpp"), ("ConeIF, Halfspace, ExpandTube, ReadPointsFromFile", "Cone.cpp, Halfspace.cpp, ExpandTube.cpp"), ("PolymorphicUnion, Invert, RotateAroundPoint, RotateAxis", "Union.cpp, geometry headers")],
  "Random polygons of up to 40 edges, trees of depth three, points near and far, level with vertices and on a lattice.",
  observe=["values at points", "points read"]),
P("C23", "Counters, timers and their statistics",
  "A name has one counter, with one address for the life of the registry. A counter's count, total, extremes, mean, variance and deviation are those of exactly the values added since the last reset (zero if there are none). Every timer that is started adds the time from its start to its end once, to its own counter, no matter how often it is moved or whether another timer takes its place; moved-from and resting timers add nothing. Gathered statistics combine for every counter the values of that very counter on all processes, whatever the order in which the processes made their counters, and arrive at the root only. Printed tables have one row per counter with these numbers in the asked unit, ordered by share.",
  ["histories", "processes"],
  "all histories of counting, resetting, starting, moving, replacing and ending timers, any number of processes and any order of the counters on them",
  "Tests use a counter or two on one process; replaced timers and processes that make their counters in different orders do not appear.",
  ["include/fub/counter/", "src/counter/"],
  [("Counter", "Counter.cpp"), ("Timer", "Timer.cpp"), ("CounterRegistry, print_statistics", "CounterRegistry.cpp, CounterRegistry.hpp")],
  "Histories of 50 operations with three timers and twelve counters; three processes with shuffled counters.",
  observe=["values, counts, recorded times", "gathered results on every process, printed tables"]),
P("C24", "Thermodynamic state of mixtures of ideal gases",
  "Whatever the history of setters, copies, moves and readings, a reactor - its scalar state and every lane of its arrays - holds exactly the composition, temperature and density that were set last, in fractions that are normalised and free of negative amounts, and everything read from it follows from these: pressure and molar mass by the law of ideal gases, energies, enthalpies and heat capacities by the polynomials of the mechanism, means over mass and amounts, entropy. Setting an energy or enthalpy reaches it by the temperature alone; setting a pressure at constant entropy follows the isentrope and returns the velocity of the wave. Copies are independent, masked lanes are left out but stay valid, compositions that cannot be read are refused.",
  ["inputs", "histories"],
  "all histories of setters with any composition, temperature, density, pressure and mask, on any number of reactors that are copied and moved",
  "Tests set a state once and read a number; caches, the array twin of every function and the switch of polynomials at 1000 K show only in histories and at odd temperatures.",
  ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "include/fub/equations/ideal_gas_mix/FlameMasterReactor.hpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp"],
  [("FlameMasterReactor setters and getters, copy and move", "FlameMasterReactor.cpp"), ("Burke2012::ComputeThermoData", "Burke2012.cpp")],
  "Histories of up to 22 operations on three reactors, temperatures from 180 K to 3300 K; coefficients of enthalpies as published (nine digits).",
  observe=["all quantities read after every operation, scalar and arrays"]),
P("C25", "Chemical kinetics in a closed volume",
  "Rates of reactions and production are those of the mechanism for the current state: law of mass action with its third bodies and falloff, zero net production of every element, no use of what is absent. Advancing a reactor by any time conserves volume, mass, elements, inert species and internal energy, keeps fractions fractions, changes species at the rate of their reactions, adds up over partial steps, leads to equilibrium, and leaves everything readable at the new state; without time or reactants nothing changes. Watching an integration shows it from begin to end without changing it, and the time of the steepest rise of temperature is that of the steepest step.",
  ["inputs", "histories"],
  "all compositions, temperatures, pressures, durations and histories of advances",
  "No test advances a reactor and looks at conservation; a sign in one of 54 rates, a stale density or temperature shows only for particular states and histories.",
  ["src/equations/ideal_gas_mix/FlameMasterReactor.cpp", "src/equations/ideal_gas_mix/mechanism/Burke2012.cpp"],
  [("FlameMasterReactor::Advance, AdvanceAndFindMaxdT, GetProductionRates, GetReactionRates", "FlameMasterReactor.cpp"), ("Burke2012::ComputeProductionRates", "Burke2012.cpp")],
  "Hydrogen, oxygen and diluents at 250-3300 K, 0.2-30 bar, durations of 1e-12 s to 10 s; energies within 3e-6 since the polynomials of enthalpies do not quite meet at 1000 K.",
  observe=["rates", "states before and after", "states and times seen by the feedback"]),
P("C26", "Integration of ordinary differential equations",
  "The ODE solver returns the solution of the user's equations at the end of the interval to within its tolerances, forwards and backwards in time, for any dimension, stiff or not, with or without a given Jacobian, as often as it is used, and a clone does the same as its original. The user's functions are called with buffers of the dimension of the system and times of the interval only; feedback is called from the begin to the end in order, with the states of the solution. A step size that becomes too small is answered by one more attempt from the initial values in two halves; every other failure of the kernel is reported as what it is, and never as success.",
  ["inputs", "failures"],
  "all systems, dimensions, intervals, tolerances and sequences of answers of the Fortran kernel",
  "Tests integrate one problem; failures of the kernel and the second attempt never occur in them.",
  ["include/fub/ode_solver/", "src/ode_solver/RadauSolver.cpp", "src/ode_solver/OdeSolverFactory.cpp"],
  [("RadauSolver::Integrate, Clone", "RadauSolver.cpp"), ("OdeSolver", "OdeSolver.hpp"), ("OdeSolverFactory", "OdeSolverFactory.cpp")],
  "Seven families of problems with known solutions and three that fail; a scripted kernel that answers with every code.",
  observe=["solutions, feedback, arguments of callbacks, exceptions", "calls of the kernel"]),
P("C27", "Mixtures of ideal gases in motion",
  "For any mixture in one to three dimensions, conversions between conserved quantities, complete states and the reactor keep density, momentum, species and energy, and give one consistent thermodynamic state; fluxes are those of the equation along the axis; Einfeldt's speeds bound the waves of both states; the HLL flux is consistent, conservative, mirror symmetric and upwind; both MUSCL-Hancock methods take the limited slopes of their variables half a cell towards the face and half a step ahead by the same conservation laws, with every species counted once, on every axis. Scalar, array and masked versions agree; lanes that are masked out stay zero and do not limit the time step, and covered cells never enter a result. Rotations and reflections change the momentum only.",
  ["inputs"],
  "all compositions, temperatures, densities, velocities, axes, dimensions and masks",
  "No test calls these methods; they are compiled only.",
  ["include/fub/equations/IdealGasMix.hpp", "src/equations/IdealGasMix.cpp", "include/fub/equations/ideal_gas_mix/", "src/equations/ideal_gas_mix/"],
  [("IdealGasMix::Flux, CompleteFromCons, CompleteFromReactor, SetReactorStateFromComplete", "IdealGasMix.cpp"), ("EinfeldtSignalVelocitiesImpl", "EinfeldtSignalVelocitiesImpl.hpp"), ("MusclHancockPrimitive, MusclHancockCharacteristic", "ideal_gas_mix/")],
  "T 200-3000 K, 0.01-50 bar, Mach up to 4; HLL with averages of the squared speeds of sound as in the code.",
  observe=["states, fluxes, speeds, time steps"]),
P("C28", "Cells that are cut by walls",
  "Every open face is divided without remainder into the part that is open across both of its cells and the parts that the left, the right or both cells shade; centroids of cells, walls, strips and open parts lie where the geometry puts them. A stabilised flux is the mean over the face of its own flux and, on the shaded parts, of the flux mixed with that of the wall in the shading cell by its distance; closed faces carry nothing, whatever the solid cell behind them holds. A step changes a cut cell by the balance of its faces and its wall over its open volume, a regular cell by the difference of its fluxes, a solid cell not at all, and nothing else in memory. The wall reflects the gas: its reference state is the gas brought to rest there by a shock or a rarefaction, and its flux is what the reference state carries and the pressure of the gas on the wall. The stable step is that of the fastest open face.",
  ["inputs"],
  "all volume fractions, face fractions, normals and centroids, states, axes, dimensions, patches and ghost cells",
  "There are no tests of any part of the treatment of cut cells; AMReX, which these parts are written for, is not there when the tests are built.",
  ["include/fub/cutcell_method/KbnStabilisation.hpp", "src/cutcell_method/", "src/CutCellData.cpp", "src/AMReX/cutcell/TimeIntegrator.cpp", "src/AMReX/cutcell/FillCutCellData.cpp", "src/AMReX/TimeIntegrator.cpp"],
  [("FillCutCellData, GetAbsolute...Centroid, IsCutCell", "FillCutCellData.cpp, CutCellData.cpp"), ("ComputeStableFluxComponents, MyStab_ComputeStableFluxComponents", "KbnStabilisation.cpp, MyStabilisation.cpp"), ("KbnCutCellMethod", "KbnStabilisation.hpp"), ("TimeIntegrator, TimeIntegrator2, ForwardIntegrator", "AMReX/cutcell/TimeIntegrator.cpp, AMReX/TimeIntegrator.cpp")],
  "Patches of up to 12 cells in two and three dimensions with arbitrary fractions, perfect gases; a stand-in for AMReX.",
  observe=["shares, places, fluxes, updated cells, time steps", "all memory around the results"]),
]
