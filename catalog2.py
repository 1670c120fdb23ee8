prop("P07", "Time integration advances states by the scheme for every step history",
 "Over every history of fixed and variable steps, the integrators' velocity and acceleration residuals and their derivatives are those of the Newmark and trapezoid schemes for the given parameters, per degree of freedom and whatever the scheduling. States advanced with them satisfy the scheme's own balance: with the undamped second-order parameters energy is conserved, and stale storage or earlier steps never leak into a later one.",
 ["histories", "schedules", "inputs"], "for every sequence of time steps and states, admissible parameter, number of unknowns and interleaving of work items", T1 + " No test advances more than one step.",
 ["src/hyperbolic/Newmark.hpp", "src/parabolic/TrapezoidIntegrator.hpp"], [("per-unknown residual and derivative evaluation", "src/hyperbolic/Newmark.hpp"), ("first-order integrator", "src/parabolic/TrapezoidIntegrator.hpp")])
prop("P14", "Saved simulation state is a faithful, immutable snapshot history",
 "A state requested from the data map is exactly what was recorded when that state was saved: later recordings under the same or other names, overwriting recorded arrays in place, clears, requests and saves that fail part-way (memory exhausted) neither alter earlier snapshots nor appear in them, states are numbered in saving order, and the number of states is the number of completed saves. When nothing has been saved the current recordings are the state; otherwise asking for a state that does not exist is an error, and a returned state never carries the history itself.",
 ["histories", "fault_sequences"], "for every history of record, save, clear and request operations and every failing allocation", "The tests record and save one or two states with no failure in between.",
 ["src/PlatoStaticsTypes.hpp"], [("DataMap saveState/getState", "src/PlatoStaticsTypes.hpp")],
 tech="deterministic simulation: seeded histories with allocation-failure injection, oracle = list of snapshots",
 note="Sampled histories with injected allocation failures against a list of snapshots.")
prop("P12", "A rocket burn is the pressure balance of its burning geometry, step by step",
 "Over any history of parameter changes, burns, re-initialisations and failing geometries, the recorded times, pressures and thrusts are those of the quasi-steady mass balance of the geometry at each instant, with the geometry asked once and evolved once per step by the burn-rate law, and one record per instant up to the burn time. An interrupted burn is reported and does not affect the next; a thrust profile file reported as written holds exactly the recorded thrusts.",
 ["histories", "fault_sequences", "inputs"], "for every sequence of parameter changes, geometries, failing geometry calls or allocations, and every disk fault during output", "The unit tests run one burn of one cylinder with a healthy geometry and never look at a failing disk.",
 ["src/Plato_AlgebraicRocketModel.hpp", "src/Plato_Cylinder.hpp", "src/Plato_GeometryModel.hpp", "src/Plato_RocketMocks.hpp"], [("time loop with inner Newton solve", "src/Plato_AlgebraicRocketModel.hpp solve/newton"), ("cylinder evolution", "src/Plato_Cylinder.hpp"), ("thrust file", "src/Plato_AlgebraicRocketModel.hpp outputThrustProfile")],
 tech="deterministic simulation: seeded burn histories with geometry, allocation and disk faults, oracle = closed-form balance",
 note="Sampled histories against the closed-form pressure balance; initial guesses are kept where that balance is the solution the model documents.")
prop("P13", "The nonlinear-solver record is what was reported, in order, and survives crashes",
 "Over any history of nonlinear iterations, the absolute and relative convergence measures follow successive residual norms, non-finite norms are refused, and the diagnostics file holds one line per reported header, iteration and stop reason, in order and with the reported values. Every iteration already reported is in the file after a crash or disk error, silent records write nothing, a closed file is refused, every stop reason is named as itself, and only the two documented criteria are accepted.",
 ["histories", "crash_points", "fault_sequences"], "for every sequence of norms and stop reasons, every crash point in the writes and every sequence of write errors, short writes and full disk", "The unit tests print single records to a healthy disk and never crash.",
 ["src/NewtonRaphsonUtilities.hpp"], [("measures against the previous norm", "src/NewtonRaphsonUtilities.hpp compute_*_residual_norm_error"), ("flushed diagnostics lines", "src/NewtonRaphsonUtilities.hpp print_newton_raphson_*")],
 tech="deterministic simulation: seeded iteration histories over a simulated disk with crashes and write faults, oracle = reported history",
 note="Sampled histories and crash points; durability is to the operating system (a process crash), not to power loss.")
prop("P15", "Material interpolation follows its current parameters over continuation histories",
 "Over any history of constructions from values or parameter lists, parameter settings, continuation updates, copies and evaluations, each interpolation model (SIMP, RAMP, Heaviside penalty, no penalty, Heaviside and hyperbolic-tangent projections) evaluates its law with its own current parameters, in value and in derivative. Omitted parameters take their documented defaults, a continuation update raises the exponent by its increment and never beyond its bound, copies are independent, and an interrupted update leaves the old or the new parameters.",
 ["histories", "fault_sequences", "inputs", "schedules"], "for every history of parameter settings, updates, copies and evaluations, every argument, and every failing allocation", "The unit tests evaluate freshly built models at a few points; no test omits a setting or follows a continuation to its bound.",
 ["src/Simp.hpp", "src/Ramp.hpp", "src/Heaviside.hpp", "src/NoPenalty.hpp", "src/HeavisideProjection.hpp", "src/HyperbolicTangentProjection.hpp"], [("continuation update", "src/Simp.hpp, src/Ramp.hpp, src/Heaviside.hpp update"), ("parameter maps", "src/Simp.hpp, src/Ramp.hpp, src/Heaviside.hpp setParameters"), ("cached projection factors", "src/HyperbolicTangentProjection.hpp")],
 tech="deterministic simulation: seeded continuation histories with allocation-failure injection, oracle = parameter model and closed-form laws",
 note="Sampled histories against closed-form laws and derivatives under a model of the current parameters.")
prop("P17", "Aggregated stress and flux norms are those of their definitions",
 "For every criterion set-up (plain p-norm, weighted norm, Barlat norm with any transformation, any real exponent) and any history of evaluations, each cell's contribution is its volume times the norm to that exponent, the aggregate is the corresponding root and its gradient scaling the derivative of that root. Values exist for every stress, including zero, hydrostatic and uniaxial ones, do not depend on scheduling or stale storage, and incomplete set-ups are refused.",
 ["inputs", "schedules", "histories"], "for every exponent, weight, transformation, tensor (repeated principal values included), evaluation history and interleaving of cells", T1,
 ["src/TensorPNorm.hpp", "src/VectorPNorm.hpp"], [("per-cell norm functors and aggregate", "src/TensorPNorm.hpp"), ("vector norm", "src/VectorPNorm.hpp")])
prop("P16", "Materials evaluate exactly the constants and temperature laws they were given",
 "Over any history of parses, settings, copies and evaluations of coexisting materials, every scalar, conductivity, expansivity and stiffness of a material is the one last given, with documented defaults for omitted terms, symmetric, constant or quadratic in temperature as declared, in value and derivative. Incomplete, mistyped or contradictory descriptions are refused and, like parses interrupted by exhausted memory, leave the material as it was; heat flux and heat content follow the material at every cell, schedule and stale output.",
 ["histories", "fault_sequences", "inputs", "schedules"], "for every description of a material, history of parses, failing allocation, temperature and interleaving of cells", "The unit tests parse a few complete descriptions in isolation; none parses twice, omits terms in the plane or on the line, or mixes forms.",
 ["src/MaterialModel.hpp", "src/MaterialModel.cpp", "src/Rank4Voigt.cpp", "src/IsotropicStiffness.cpp", "src/ThermoelasticMaterial.hpp", "src/ThermalConductivityMaterial.hpp", "src/ThermalMassMaterial.hpp", "src/ThermalFlux.hpp", "src/ThermalContent.hpp", "src/VoigtMap.hpp", "src/ParseTools.hpp"],
 [("coefficient tables and defaults", "src/MaterialModel.cpp, src/Rank4Voigt.cpp, src/IsotropicStiffness.cpp"), ("constant/law storage by name", "src/MaterialModel.hpp MaterialModel"), ("factories", "src/ThermoelasticMaterial.hpp, src/ThermalConductivityMaterial.hpp, src/ThermalMassMaterial.hpp")],
 tech="deterministic simulation: seeded parse/evaluate histories with allocation-failure injection on the simulated device, oracle = generated description",
 note="Sampled histories against the generated description.")
prop("P11", "Parallel reductions agree on every process, and failures never hang or pass silently",
 "For every number of processes, set of (overlapping, reordered) communicators and order of arrival, each process's machine reports its size and rank in its own communicator, and sum, max, min and element-wise allReduce return on every member the same reduction of exactly what all members contributed in that call, whatever the delays and the order in which contributions are combined. Local values are not changed, results are not written past their length, an MPI error or the death of a member surfaces as an exception on the processes it affects, no process waits for ever, and a machine ends MPI exactly if it started it.",
 ["schedules", "fault_sequences", "inputs", "histories"], "for every number of processes, group structure, arrival order, delay, reduction order, contributed values, MPI error and process death", "The tests run on one process; no test has two processes, two communicators, or an MPI error.",
 ["src/alg/ParallelComm.hpp", "src/alg/ParallelComm.cpp"], [("machine construction over a communicator", "src/alg/ParallelComm.cpp Machine"), ("reductions", "src/alg/ParallelComm.cpp sum/max/min/allReduce")],
 tech="deterministic simulation: simulated MPI processes with seeded arrival, delay, error and crash, oracle = exact reduction, agreement and progress",
 note="Sampled worlds of 1-16 simulated processes; MPI itself is the simulator's.")
prop("P10", "Sensitivities are exact derivatives of the evaluated quantities",
 "For every physics and kind of evaluation (residual, Jacobian with respect to each state, its rates and local history, gradients with respect to controls and configuration), exactly the quantities named by the evaluation carry derivatives, as many as the element has unknowns of that kind. The value of every element evaluation is the same whatever is differentiated, and every derivative is the rate of change of that value, also where values are zero, storage is reused and cells interleave.",
 ["inputs", "schedules", "histories"], "for every physics, dimension, evaluation kind, element state (zeros included), storage history and every interleaving of cells", "The unit tests check a few derivative values of single operators; most operators are tested with one evaluation kind only and none under interleaving.",
 ["src/SimplexFadTypes.hpp", "src/elliptic/EllipticSimplexFadTypes.hpp", "src/parabolic/ParabolicSimplexFadTypes.hpp", "src/hyperbolic/HyperbolicSimplexFadTypes.hpp", "src/geometric/GeometricSimplexFadTypes.hpp", "src/Simplex.hpp", "src/SimplexMechanics.hpp", "src/SimplexThermal.hpp", "src/SimplexThermomechanics.hpp", "src/SimplexElectromechanics.hpp", "src/SimplexPlasticity.hpp", "src/SimplexThermoPlasticity.hpp", "src/SimplexStabilizedMechanics.hpp", "src/SimplexProjection.hpp", "src/SimplexStructuralDynamics.hpp", "src/Plato_TopOptFunctors.hpp"],
 [("scalar types of each evaluation kind", "src/*SimplexFadTypes.hpp"), ("element layouts per physics", "src/Simplex*.hpp"), ("element operators evaluated on differentiated scalars", "src/*.hpp")],
 tech="deterministic simulation: seeded element evaluations on the simulated device, oracle = rate of change of the plain evaluation",
 note="Sampled element states; derivatives are compared with fourth-order differences of the undifferentiated evaluation.")
prop("P18", "A time-dependent value is its expression at the given time",
 "Over any history of coexisting time expressions, copies, evaluations at any times and in any order, refused texts and failed allocations, a boundary value given as an expression of time evaluates to that expression (with its own definitions, branches and functions) at exactly the time asked for, small and large times included. Malformed texts, undefined names and unknown functions are refused on every evaluation, and an expression that cannot be assembled in full is an error, never a different value.",
 ["histories", "inputs", "fault_sequences"], "for every expression and its definitions, sequence of times, interleaving of expressions and copies, and every failing allocation", "No unit test evaluates a time expression at all.",
 ["src/PlatoMathExpr.hpp"], [("time substituted as text into the expression", "src/PlatoMathExpr.hpp value")],
 tech="deterministic simulation: seeded evaluation histories with allocation-failure injection, oracle = generated program's value",
 note="Sampled histories against the generated program; values at branch boundaries closer than rounding are not judged.")
prop("P19", "A GPU linear solve returns the solution of its system or reports failure",
 "Over any history of solver set-ups, systems and releases, a solve that returns without an error leaves in the solution vector the solution of exactly the system it was given, with matrix and right-hand side unchanged; an error of the solver library, a failed solve, or a divergence declared fatal is never passed over in silence. The solver runs with exactly the configuration of its file (documented defaults if there is none, an error if it cannot be read), predefined configurations are well formed and carry the requested tolerance, iteration limit and convergence type, and every library object is released exactly once and in order.",
 ["histories", "fault_sequences", "inputs"], "for every sequence of systems, block sizes, library errors, divergence and failure, configuration file, disk fault and failing allocation", "The AmgX solver is not even compiled in the test configuration; no test has a library call, a read or an allocation fail.",
 ["src/alg/AmgXLinearSolver.cpp", "src/alg/AmgXLinearSolver.hpp", "src/alg/AmgXConfigs.cpp", "src/alg/AmgXConfigs.hpp", "src/alg/PlatoAbstractSolver.hpp"], [("upload, set up, solve, status, download", "src/alg/AmgXLinearSolver.cpp solve"), ("configuration file", "src/alg/AmgXLinearSolver.cpp loadConfigString"), ("predefined configurations", "src/alg/AmgXConfigs.cpp configurationString")],
 tech="deterministic simulation: simulated solver library and disk with seeded errors, divergence and read faults, oracle = residual of the given system",
 note="Sampled histories; the AmgX library itself is the simulator's (exact dense solve, life-cycle checks).")
prop("P20", "A static analysis returns the balanced state with the prescribed values",
 "For every mesh numbering, division into blocks, materials, density distribution, surface and body loads, unit strains of a cell problem and prescribed values, a static thermal, mechanical, thermomechanical or electromechanical analysis returns the state that carries the prescribed values and balances the loads in every other equation of the discretised model; requested output fields are those of that state. This holds at every point of any history of analyses with one problem, whatever the interleaving of assembly work items, and after solves or allocations that failed; a failed linear solve is reported.",
 ["schedules", "inputs", "histories", "fault_sequences"], "for every mesh, model description, design, history of analyses, interleaving of assembly work items, failed solve and failing allocation", "The analyses are not compiled by the test configuration; the upstream tests check a handful of states on one regular mesh with the serial back end.",
 ["src/elliptic/Problem.hpp", "src/elliptic/VectorFunction.hpp", "src/elliptic/ElastostaticResidual.hpp", "src/elliptic/ThermostaticResidual.hpp", "src/elliptic/ThermoelastostaticResidual.hpp", "src/elliptic/ElectroelastostaticResidual.hpp", "src/WorksetBase.hpp", "src/SpatialModel.hpp", "src/EssentialBCs.hpp", "src/NaturalBCs.hpp", "src/BodyLoads.hpp", "src/ApplyConstraints.hpp", "src/SurfaceLoadIntegral.hpp", "src/SurfacePressureIntegral.hpp", "src/LinearElasticMaterial.cpp", "src/LinearElectroelasticMaterial.cpp"],
 [("Newton loop of the analysis", "src/elliptic/Problem.hpp solution"), ("assembly of residual and Jacobian", "src/elliptic/VectorFunction.hpp"), ("loads and prescribed values", "src/NaturalBCs.hpp, src/BodyLoads.hpp, src/EssentialBCs.hpp, src/ApplyConstraints.hpp")],
 tech="deterministic simulation: whole analyses on generated meshes under seeded schedules, solver failures and allocation failures, oracle = independent finite element balance",
 note="Sampled analyses in two dimensions; Omega_h (mesh storage, expression evaluation) and AmgX (linear solver) are the simulator's.")
prop("P21", "Criteria and gradients are those of the analysed model",
 "For every static analysis, design and state, each criterion (energies, effective energies of cell problems, flux and stress norms, volume, solution criterion, stress constraints and weighted sums, quotients and least squares of these) evaluates to its defining expression at that state and design, and its design and shape gradients are the rates at which the criterion changes when densities or node positions change and the analysis is repeated. This holds at every point of any history of analyses, evaluations and gradients with one problem, whatever the interleaving of work items and after failed solves or allocations; evaluating leaves state and design as they were, and a failed adjoint solve is reported.",
 ["schedules", "inputs", "histories", "fault_sequences"], "for every mesh, model, criterion, design, history of evaluations, interleaving of work items, failed solve and failing allocation", "The analyses are not compiled by the test configuration; the upstream tests compare a few gradients of single terms, never the total derivative of an analysis with prescribed values or a nonsymmetric model.",
 ["src/elliptic/Problem.hpp", "src/elliptic/PhysicsScalarFunction.hpp", "src/elliptic/SolutionFunction.hpp", "src/elliptic/WeightedSumFunction.hpp", "src/elliptic/DivisionFunction.hpp", "src/elliptic/LeastSquaresFunction.hpp", "src/elliptic/InternalElasticEnergy.hpp", "src/elliptic/InternalThermalEnergy.hpp", "src/elliptic/InternalThermoelasticEnergy.hpp", "src/elliptic/InternalElectroelasticEnergy.hpp", "src/elliptic/FluxPNorm.hpp", "src/Plato_AugLagStressCriterionGeneral.hpp", "src/Plato_AugLagStressCriterionQuadratic.hpp", "src/NaturalBCUtilities.hpp", "src/ThermalFlux.hpp"],
 [("adjoint solves", "src/elliptic/Problem.hpp criterionGradient, criterionGradientX"), ("criterion values and partial derivatives", "src/elliptic/PhysicsScalarFunction.hpp"), ("combinations", "src/elliptic/WeightedSumFunction.hpp, DivisionFunction.hpp, LeastSquaresFunction.hpp")],
 tech="deterministic simulation: histories of analyses and evaluations on generated problems under seeded schedules, solver and allocation failures; oracle = independent element reference and five-point differences of the repeated analysis",
 note="Sampled problems in two dimensions; Omega_h and AmgX are the simulator's. The stress constraints are judged by their gradients only.")
prop("P22", "A transient thermal analysis returns the balanced history, its criteria and their gradients",
 "For every mesh numbering, blocks, materials (temperature dependent ones included), density distribution, loads, prescribed values, initial fields, time step and trapezoid parameter, a transient heat or thermomechanical analysis returns a history that starts at the initial state, carries the prescribed values, follows the trapezoid rule and balances every other equation at every step; saved output fields are those of each step. Each criterion evaluates to its definition summed over the history it is given, and its design and shape gradients are the rates at which it changes when the analysis is repeated, at every point of any history of solves, evaluations, restored solutions, failed solves and failed allocations; a failed solve is reported.",
 ["schedules", "inputs", "histories", "fault_sequences"], "for every mesh, model description, design, number and size of steps, history of calls, interleaving of assembly work items, failed solve and failing allocation", "The analyses are not compiled by the test configuration; the upstream tests check a few states and partial derivatives on one regular mesh with the serial back end.",
 ["src/parabolic/Problem.hpp", "src/parabolic/VectorFunction.hpp", "src/parabolic/HeatEquationResidual.hpp", "src/parabolic/TransientThermomechResidual.hpp", "src/parabolic/PhysicsScalarFunction.hpp", "src/parabolic/InternalThermalEnergy.hpp", "src/parabolic/InternalThermoelasticEnergy.hpp", "src/parabolic/TemperatureAverage.hpp", "src/parabolic/TrapezoidIntegrator.hpp", "src/ComputedField.hpp", "src/ThermalContent.hpp", "src/ThermalFlux.hpp"],
 [("time loop and Newton steps", "src/parabolic/Problem.hpp solution"), ("adjoint recursion", "src/parabolic/Problem.hpp criterionGradient, criterionGradientX"), ("criteria over the history", "src/parabolic/PhysicsScalarFunction.hpp")],
 tech="deterministic simulation: whole transient analyses under seeded schedules, solver failures and allocation failures, oracle = independent finite element balance, trapezoid rule and differences of the repeated analysis",
 note="Sampled problems in two dimensions; Omega_h and AmgX are the simulator's; shape gradients are judged without body and pressure loads and with uniform initial fields.")
prop("P23", "A dynamic analysis returns the balanced history, its criteria and their gradients",
 "For every mesh numbering, blocks, elastic materials with density and Rayleigh damping, density distribution, time dependent loads and supports, initial displacements and velocities, time step and Newmark parameters, a transient mechanical analysis returns a history that starts at the initial state, carries the prescribed values of each instant, follows Newmark's rule and balances inertia, damping, stress and loads at every step; saved output fields are those of each step. Each criterion evaluates to its definition over the history it is given, and its design and shape gradients are the rates at which it changes when the analysis is repeated, at every point of any history of solves, evaluations, restored solutions, failed solves and failed allocations; a failed solve is reported.",
 ["schedules", "inputs", "histories", "fault_sequences"], "for every mesh, model description, design, number and size of steps, history of calls, interleaving of assembly work items, failed solve and failing allocation", "The analyses are not compiled by the test configuration; the upstream tests check a few states and partial derivatives on one regular mesh with the serial back end.",
 ["src/hyperbolic/HyperbolicProblem.hpp", "src/hyperbolic/HyperbolicVectorFunction.hpp", "src/hyperbolic/ElastomechanicsResidual.hpp", "src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp", "src/hyperbolic/HyperbolicInternalElasticEnergy.hpp", "src/hyperbolic/HyperbolicStressPNorm.hpp", "src/hyperbolic/Newmark.hpp", "src/hyperbolic/InertialContent.hpp", "src/LinearStress.hpp", "src/EssentialBCs.hpp", "src/NaturalBC.hpp", "src/CubicLinearElasticMaterial.cpp", "src/IsotropicLinearElasticMaterial.cpp"],
 [("time loop", "src/hyperbolic/HyperbolicProblem.hpp solution"), ("adjoint recursion", "src/hyperbolic/HyperbolicProblem.hpp criterionGradient, criterionGradientX"), ("criteria over the history", "src/hyperbolic/HyperbolicPhysicsScalarFunction.hpp")],
 tech="deterministic simulation: whole dynamic analyses under seeded schedules, solver failures and allocation failures, oracle = independent finite element balance, Newmark's rule and differences of the repeated analysis",
 note="Sampled problems in two dimensions; Omega_h and AmgX are the simulator's; shape gradients are judged without body and pressure loads and with uniform initial fields.")
prop("P24", "An elasto-plastic analysis returns an admissible, balanced history, its criteria and their design gradients",
 "For every mesh numbering, blocks, elastic and J2 hardening parameters, penalties, density distribution, loads, supports growing with pseudo-time and allowed numbers of steps, an elasto-plastic analysis, with or without temperature, returns a history of at most the allowed number of equal steps reaching the whole load: every step carries its prescribed values, every cell's internal variables follow from the previous step's by the J2 return mapping with isotropic and kinematic hardening, and every other equation of the mixed displacement-pressure(-temperature) formulation, with thermal expansion and heat conduction where there is a temperature, balances. When a step does not converge the analysis is repeated with more steps until the allowed number is reached, and an analysis that did not converge is never used for a criterion. Requested output fields are those of each step. Elastic and plastic work and their weighted sums evaluate to their definition over the history, and their design gradients are the rates at which they change when the analysis is repeated, at every point of any history of analyses, evaluations, restored histories, continuation updates, failed solves and failed allocations; a failed solve is reported.",
 ["schedules", "inputs", "histories", "fault_sequences"], "for every mesh, model description, design, number of steps, history of calls, interleaving of assembly work items, failed solve and failing allocation", "The analyses are not compiled by the test configuration; the upstream tests check stored states of a few problems on one regular mesh with the serial back end.",
 ["src/PlasticityProblem.hpp", "src/NewtonRaphsonSolver.hpp", "src/NewtonRaphsonUtilities.hpp", "src/PathDependentAdjointSolver.hpp", "src/LocalVectorFunctionInc.hpp", "src/GlobalVectorFunctionInc.hpp", "src/BasicLocalScalarFunction.hpp", "src/WeightedLocalScalarFunction.hpp", "src/J2PlasticityLocalResidual.hpp", "src/J2PlasticityUtilities.hpp", "src/InfinitesimalStrainPlasticityResidual.hpp", "src/InfinitesimalStrainThermoPlasticityResidual.hpp", "src/PlasticWorkCriterion.hpp", "src/ElasticWorkCriterion.hpp", "src/Projection.hpp"],
 [("load steps and step growth", "src/PlasticityProblem.hpp solution, solveForwardProblem, resizeTimeDependentStates"), ("Newton iterations with condensed cell variables", "src/NewtonRaphsonSolver.hpp solve"), ("adjoint recursion", "src/PlasticityProblem.hpp backwardTimeIntegration, src/PathDependentAdjointSolver.hpp"), ("criteria over the history", "src/BasicLocalScalarFunction.hpp")],
 tech="deterministic simulation: whole elasto-plastic analyses under seeded schedules, solver failures and allocation failures, oracle = J2 return mapping per cell, independent mixed finite element balance and differences of the repeated analysis",
 note="Sampled problems in two dimensions with some isotropic hardening; Omega_h and AmgX are the simulator's; shape gradients are judged only for one unloaded step (with loads or several steps the library omits terms, see DESIGN.md).")
prop("P25", "Mass properties and geometric criteria are those of the meshed body",
 "For every three-dimensional mesh numbering, division into blocks with their own material densities, and design, the criteria that describe the body alone — mass, centre of gravity and inertia in any order and selection, inertia turned into the principal axes about the wanted centre of gravity when all ten are requested, penalised volume, and weighted sums, quotients and least squares of these — evaluate to their defining integrals against the wanted values, and their design and shape gradients are the derivatives of those (their state gradients zero), in geometry problems and, for mass properties, in static analyses. This holds at every point of any history of evaluations and updates, whatever the interleaving of work items and after allocations that failed; inputs keep their values, and a description with unequal numbers of properties, weights and wanted values, an unknown property or one named twice is refused.",
 ["schedules", "inputs", "histories", "fault_sequences"], "for every mesh, blocks, densities, criterion, history of evaluations, interleaving of work items and failing allocation", "The criteria are not compiled by the test configuration; the upstream tests check single values of a few criteria on one regular mesh of one block with the serial back end.",
 ["src/geometric/MassPropertiesFunction.hpp", "src/geometric/MassMoment.hpp", "src/geometric/Volume.hpp", "src/geometric/GeometryScalarFunction.hpp", "src/geometric/WeightedSumFunction.hpp", "src/geometric/DivisionFunction.hpp", "src/geometric/LeastSquaresFunction.hpp", "src/geometric/ScalarFunctionBaseFactory_def.hpp", "src/geometric/WorksetBase.hpp", "src/elliptic/MassPropertiesFunction.hpp", "src/elliptic/MassMoment.hpp", "src/elliptic/DivisionFunction.hpp", "src/elliptic/LeastSquaresFunction.hpp", "src/elliptic/WeightedSumFunction.hpp"],
 [("description to sums, quotients and least squares of moments", "src/geometric/MassPropertiesFunction.hpp createLeastSquaresFunction, computeRotationAndParallelAxisTheoremMatrices"), ("moments of a block", "src/geometric/MassMoment.hpp evaluate"), ("sum over blocks and assembly of gradients", "src/geometric/GeometryScalarFunction.hpp")],
 tech="deterministic simulation: seeded histories of evaluations on generated tetrahedral meshes under seeded schedules and allocation failures, oracle = independent moments of the body in extended precision and their differences",
 note="Sampled bodies of at most 48 tetrahedra; Omega_h (mesh storage, eigenvalues of 3x3 matrices) is the simulator's. Inertia is the library's definition: cell mass concentrated at the cell's centre.")
