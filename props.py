PROPS = {
 "P01": dict(units=["p01_vector.cpp"], quick=dict(runs=30000, time=90), thorough=dict(runs=400000, time=1500),
   rule="Seeded sequences of vector/workset operations with generated shapes and values on the simulated device, compared with extended-precision references.",
   real="BLAS1/BLAS2/BLAS3 kernels, Kokkos views, KokkosBatched LU/Trsm", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena)"),
 "P02": dict(units=["p02_sparse.cpp"], quick=dict(runs=20000, time=90), thorough=dict(runs=400000, time=1500),
   rule="Seeded sequences of sparse-matrix operations on generated block-CRS matrices on the simulated device, compared with dense extended-precision references.",
   real="PlatoMathHelpers, PlatoMathFunctors, Plato_Solve, CrsMatrix, KokkosKernels spgemm/spadd", stub="Kokkos::Serial range dispatch (replaced by the simulated device; third-party kernels run unpreempted), heap (checking arena)"),
 "P03": dict(units=["p03_constraints.cpp"], quick=dict(runs=40000, time=90), thorough=dict(runs=400000, time=1500),
   rule="Seeded symmetric systems and constraint lists (with consistently repeated constraints) applied on the simulated device, compared entry by entry with the constrained system.",
   real="ApplyConstraints, CrsMatrix, Kokkos atomics (compare-exchange loop)", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena)"),
 "P04": dict(units=["p04_kinematics.cpp"], quick=dict(runs=30000, time=90), thorough=dict(runs=400000, time=1500),
   rule="Seeded meshes of cells, states and stresses pushed through the kinematic and divergence operators on the simulated device, with reused output storage, compared with tensor definitions.",
   real="StabilizedKinematics, EMKinematics, TMKinematics, PressureGradient, Strain/Stress/Flux/PressureDivergence, complex strain and stress divergence", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena)"),
 "P05": dict(units=["p05_fields.cpp"], repo=["alg/Basis.cpp", "alg/Cubature.cpp"], quick=dict(runs=30000, time=90), thorough=dict(runs=400000, time=1500),
   rule="Seeded cells, nodal fields and material parameters pushed through the transfer, inertia, damping, stabilization, weighting and integration operators on the simulated device, with reused output storage, compared with their definitions.",
   real="interpolation/projection, inertia, Rayleigh damping, dynamic residual, misfit, energies, stabilization, penalty/weighting/projection, basis and cubature", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena)"),
}
PROPS["P06"] = dict(units=["p06_plasticity.cpp"], repo=["TensileEnergyDensity.cpp"], quick=dict(runs=24000, time=90), thorough=dict(runs=400000, time=1500), timeunit="load increments",
   rule="Seeded load histories of elastic and plastic increments per cell, plus constitutive operators on generated strains, on the simulated device, with reused state storage, compared with the flow rule and the tensor definitions.",
   real="J2 plasticity utilities, thermoplasticity utilities, Cauchy/deviatoric stress and strain, elastic work, von Mises, principal values, tensile energy, isotropic moduli", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena); the plastic multiplier is supplied by the workload instead of the Newton solve")
PROPS["P08"] = dict(units=["p08_bingo.cpp"], repo=["CustomMaterial.cpp", "ExpressionEvaluator.cpp"], sim=["psim_io.cpp"], quick=dict(runs=60000, time=90), thorough=dict(runs=400000, time=1500),
   rule="Seeded equation files (tables with missing, malformed, torn rows) read through a simulated disk with short, interrupted and failing reads, open failures and allocation failures; outcome compared with a reference reading of the bytes.",
   real="CustomMaterial, ExpressionEvaluator, libstdc++ file streams", stub="disk (in-memory, fault-injecting), heap (checking arena)")
PROPS["P09"] = dict(units=["p09_expression.cpp"], repo=["ExpressionEvaluator.cpp"], quick=dict(runs=80000, time=90), thorough=dict(runs=400000, time=1500),
   rule="Seeded histories of accepted, refused and interrupted (failing allocation) parses and evaluations on long-lived evaluators, compared with the value of the generated expression tree; heap conservation.",
   real="ExpressionEvaluator, Teuchos parameter lists", stub="heap (checking arena with injected allocation failures)")
PROPS["P07"] = dict(units=["p07_time.cpp"], quick=dict(runs=30000, time=90), thorough=dict(runs=400000, time=1500), timeunit="seconds of integrated model time",
   rule="Seeded histories of fixed and variable time steps of linear oscillators and decay problems advanced with the integrators' residuals and derivatives on the simulated device, compared with the scheme and its energy balance.",
   real="NewmarkIntegrator, TrapezoidIntegrator", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena); the equilibrium solve is the workload's own (diagonal)")
PROPS["P14"] = dict(units=["p14_datamap.cpp"], quick=dict(runs=60000, time=60), thorough=dict(runs=400000, time=900),
   rule="Seeded histories of recordings, saves (some with a failing allocation), clears and requests on one data map, compared with a list of snapshots.",
   real="DataMap", stub="heap (checking arena with injected allocation failures)")
PROPS["P15"] = dict(units=["p15_continuation.cpp"], quick=dict(runs=120000, time=90), thorough=dict(runs=400000, time=900), timeunit="continuation updates",
   rule="Seeded histories of constructions, parameter settings, continuation updates (some with a failing allocation), copies and evaluations of several coexisting interpolation models, compared with their laws under a model of the current parameters.",
   real="MSIMP, RAMP, Heaviside, NoPenalty, HeavisideProjection, HyperbolicTangentProjection, Sacado derivatives", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena with injected allocation failures)")
PROPS["P13"] = dict(units=["p13_newton.cpp"], sim=["psim_io.cpp"], quick=dict(runs=90000, time=90), thorough=dict(runs=400000, time=900), timeunit="nonlinear iterations",
   rule="Seeded histories of nonlinear solves (norm sequences with stagnation, growth, non-finite values, all stop reasons) reported through a simulated disk with write errors, full disk, short writes and crashes; the record is compared with the reported history.",
   real="NewtonRaphsonUtilities, libstdc++ file streams", stub="disk (in-memory, fault-injecting, crashing), heap (checking arena); residual norms are the workload's")
PROPS["P12"] = dict(units=["p12_rocket.cpp"], sim=["psim_io.cpp"], quick=dict(runs=120000, time=90), thorough=dict(runs=800000, time=900), timeunit="seconds of burn",
   rule="Seeded histories of burns of a cylinder or a simulator-driven geometry (which may fail at any call), with parameter changes, failing allocations, re-initialisation and outputs through a faulty simulated disk, compared with the closed-form pressure balance.",
   real="AlgebraicRocketModel, Cylinder, RocketMocks, libstdc++ file streams", stub="disk (in-memory, fault-injecting), geometry model (seeded mass rates and failures) in about half of the runs, heap (checking arena with injected allocation failures)")
PROPS["P17"] = dict(units=["p17_norms.cpp"], quick=dict(runs=60000, time=90), thorough=dict(runs=400000, time=900),
   rule="Seeded norm set-ups (plain, weighted, Barlat with generated transformations, real exponents) evaluated over generated cells with reused result storage on the simulated device, compared with definitions through an independent principal-value solver; derivatives and aggregate compared with their formulas.",
   real="TensorPNorm, WeightedNorm, BarlatNorm, TensorNormFactory, VectorPNorm, Sacado derivatives", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena)")
PROPS["P16"] = dict(units=["p16_materials.cpp"], repo=["MaterialModel.cpp", "Rank4Voigt.cpp", "IsotropicStiffness.cpp"], quick=dict(runs=60000, time=90), thorough=dict(runs=400000, time=900),
   rule="Seeded histories of accepted, refused and interrupted (failing allocation) material parses, settings and copies on several coexisting materials, and of materials created through the factories, evaluated at generated temperatures on the simulated device and compared with the generated description.",
   real="MaterialModel, ScalarFunctor, TensorFunctor/Constant, Rank4Voigt, IsotropicStiffness, thermal and thermoelastic factories, ThermalFlux, ThermalContent, VoigtMap, ParseTools, Teuchos parameter lists", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena with injected allocation failures)")
PROPS["P11"] = dict(units=["p11_comm.cpp"], ranked=["alg/ParallelComm.cpp"], sim=["psim_noio.cpp", "psim_mpi.cpp"], quick=dict(runs=60000, time=90), thorough=dict(runs=600000, time=900), timeunit="collective operations",
   rule="Seeded worlds of 1 to 16 simulated processes with overlapping, reordered communicators executing sequences of collectives through the communication layer, with seeded arrival orders, delays, reduction orders, MPI error returns and process deaths; results compared with the reduction of all contributions, agreement and progress checked.",
   real="Plato::Comm (ParallelComm), Teuchos::MpiComm and reductions, Epetra_MpiComm", stub="MPI library (simulated processes, messages and errors), process globals (swapped per simulated process)")
PROPS["P10"] = dict(units=["p10_sensitivity.cpp"] + ["p10_%s.cpp" % x for x in "abcdef"], repo=["MaterialModel.cpp"], quick=dict(runs=20000, time=90), thorough=dict(runs=400000, time=1500), timeunit="element evaluations",
   rule="Seeded element evaluations (chains of the framework's operators per physics) run with every evaluation type on the simulated device with reused worksets; values compared with the plain evaluation, derivatives with the rate of change of the plain evaluation.",
   real="SimplexFadTypes and the elliptic, parabolic, hyperbolic, geometric evaluation types, Simplex* physics layouts, the element operators, Sacado", stub="Kokkos::Serial range dispatch (replaced by the simulated device), heap (checking arena)")
PROPS["P18"] = dict(units=["p18_timeexpr.cpp"], quick=dict(runs=80000, time=60), thorough=dict(runs=1500000, time=1200), timeunit="evaluated instants",
   rule="Seeded histories of coexisting time expressions, copies, refused texts and failing allocations evaluated at times over many magnitudes, compared with the generated program's value at that time.",
   real="MathExpr, Teuchos expression reader", stub="heap (checking arena with injected allocation failures)")
PROPS["P19"] = dict(units=["p19_solver.cpp"], repo=["alg/AmgXLinearSolver.cpp", "alg/AmgXConfigs.cpp"], sim=["psim_io.cpp", "psim_amgx.cpp"], inc=["sim/amgx"], defs="-DHAVE_AMGX", quick=dict(runs=60000, time=60), thorough=dict(runs=800000, time=1200), timeunit="linear solves",
   rule="Seeded histories of solver construction, solves and destruction over a simulated solver library and disk: library errors, failed and diverged solves, torn and unreadable configuration files, failing allocations; returned solutions checked against the system.",
   real="AmgXLinearSolver, AmgXConfigs, CrsMatrix", stub="AmgX and CUDA runtime (simulated library with an exact dense solve and injected faults), disk, heap, Kokkos::Serial range dispatch")

WHOLE = """elliptic/DivisionFunction.cpp elliptic/EMStressPNorm.cpp elliptic/EffectiveEnergy.cpp elliptic/ElastostaticResidual.cpp elliptic/FluxPNorm.cpp elliptic/InternalElasticEnergy.cpp elliptic/InternalElectroelasticEnergy.cpp elliptic/InternalThermalEnergy.cpp elliptic/InternalThermoelasticEnergy.cpp elliptic/LeastSquaresFunction.cpp elliptic/MassMoment.cpp elliptic/MassPropertiesFunction.cpp elliptic/PhysicsScalarFunction.cpp elliptic/Problem.cpp elliptic/ScalarFunctionBaseFactory.cpp elliptic/SolutionFunction.cpp elliptic/StressPNorm.cpp elliptic/ThermostaticResidual.cpp elliptic/WeightedSumFunction.cpp geometric/DivisionFunction.cpp geometric/GeometryScalarFunction.cpp geometric/LeastSquaresFunction.cpp geometric/MassMoment.cpp geometric/MassPropertiesFunction.cpp geometric/ScalarFunctionBaseFactory.cpp geometric/WeightedSumFunction.cpp LinearElasticMaterial.cpp CubicLinearElasticMaterial.cpp CustomLinearElasticMaterial.cpp LinearElectroelasticMaterial.cpp IsotropicLinearElasticMaterial.cpp OrthotropicLinearElasticMaterial.cpp LinearThermoelasticMaterial.cpp TensileEnergyDensityLocalMeasure.cpp TensileEnergyDensity.cpp Plato_AugLagStressCriterionQuadratic.cpp Plato_AugLagStressCriterionGeneral.cpp Plato_AugLagStressCriterion.cpp Plato_StructuralMass.cpp VonMisesLocalMeasure.cpp ThermalVonMisesLocalMeasure.cpp alg/EpetraLinearSolver.cpp alg/PlatoSolverFactory.cpp IntermediateDensityPenalty.cpp alg/AmgXLinearSolver.cpp alg/AmgXConfigs.cpp alg/ParallelComm.cpp alg/Basis.cpp alg/Cubature.cpp MaterialModel.cpp Rank4Voigt.cpp IsotropicStiffness.cpp CustomMaterial.cpp ExpressionEvaluator.cpp""".split()
WH = dict(repo=WHOLE, sim=["psim_io.cpp", "psim_amgx.cpp"], inc=["sim/amgx", "sim/omega_h"], defs="-DHAVE_AMGX", dims="-DPLATOANALYZE_2D -DPLATO_ELLIPTIC", libs="aztecoo epetraext triutils")
PROPS["P20"] = dict(WH, units=["p20_static.cpp"], quick=dict(runs=8000, time=90), thorough=dict(runs=200000, time=1800), timeunit="static analyses",
   rule="Seeded static analyses (thermal, mechanical, thermomechanical, electromechanical) on generated meshes with permuted numberings, blocks, materials, loads and prescribed values; seeded device schedules, failed and diverged linear solves, failing allocations; states and output fields checked against an independent finite element reference.",
   real="elliptic Problem, VectorFunction, residuals, boundary conditions, loads, materials, assembly, AmgX interface, output maps", stub="Omega_h (mesh stand-in), AmgX and CUDA runtime (simulated library with an exact dense solve and injected faults), heap, Kokkos::Serial range dispatch")
PROPS["P21"] = dict(WH, units=["p21_criteria.cpp"], quick=dict(runs=12000, time=100), thorough=dict(runs=100000, time=1800), timeunit="analyses",
   rule="Seeded histories of analyses, criterion values, design and shape gradients and problem updates on generated static problems; seeded device schedules, failed and diverged state and adjoint solves, failing allocations; values checked against an independent reference, gradients against differences of the repeated analysis.",
   real=PROPS["P20"]["real"] + ", all static criteria (energies, norms, volume, solution, stress constraints and their combinations)", stub=PROPS["P20"]["stub"])

PARA = [f for f in WHOLE if not f.startswith("elliptic/")] + "parabolic/HeatEquationResidual.cpp parabolic/InternalThermalEnergy.cpp parabolic/InternalThermoelasticEnergy.cpp parabolic/PhysicsScalarFunction.cpp parabolic/Problem.cpp parabolic/ScalarFunctionBaseFactory.cpp parabolic/TemperatureAverage.cpp parabolic/TransientThermomechResidual.cpp".split()
PROPS["P22"] = dict(WH, repo=PARA, dims="-DPLATOANALYZE_2D -DPLATO_ELLIPTIC -DPLATO_PARABOLIC", units=["p22_parabolic.cpp"], quick=dict(runs=8000, time=90), thorough=dict(runs=100000, time=1800), timeunit="time units",
   rule="Seeded histories of transient analyses, criterion values and gradients (also of earlier and restored histories) on generated heat and thermomechanical problems; seeded device schedules, failed and diverged solves at any step, failing allocations; histories checked against the trapezoid rule and an independent finite element reference, gradients against differences of the repeated analysis.",
   real="parabolic Problem, VectorFunction, residuals, integrator, criteria, computed fields, boundary conditions, loads, materials, assembly, AmgX interface", stub=PROPS["P20"]["stub"])

HYPER = [f for f in WHOLE if not f.startswith(("elliptic/", "geometric/", "Plato_Aug", "Tensile", "Thermal", "VonMises"))] + "hyperbolic/HyperbolicPhysicsScalarFunction.cpp hyperbolic/HyperbolicScalarFunctionFactory.cpp".split()
PROPS["P23"] = dict(WH, repo=HYPER, dims="-DPLATOANALYZE_2D -DPLATO_HYPERBOLIC", units=["p23_hyperbolic.cpp"], quick=dict(runs=8000, time=90), thorough=dict(runs=100000, time=1800), timeunit="time units",
   rule="Seeded histories of transient mechanical analyses, criterion values and gradients (also of earlier and restored histories and with fresh problems) on generated problems with time dependent loads and supports and Rayleigh damping; seeded device schedules, failed and diverged solves at any step, failing allocations; histories checked against Newmark's rule and an independent finite element reference, gradients against differences of the repeated analysis.",
   real="HyperbolicProblem, VectorFunction, residual, Newmark integrator, criteria, time expressions, computed fields, boundary conditions, loads, elastic materials, assembly, AmgX interface", stub=PROPS["P20"]["stub"])

PLAS = [f for f in WHOLE if not f.startswith(("elliptic/", "Plato_Aug", "Tensile", "Thermal", "VonMises"))] + "J2PlasticityLocalResidual.cpp NewtonRaphsonSolver.cpp PathDependentAdjointSolver.cpp GlobalVectorFunctionInc.cpp PathDependentScalarFunctionFactory.cpp BasicLocalScalarFunction.cpp PlasticityProblem.cpp ComputePrincipalStresses.cpp WeightedLocalScalarFunction.cpp InfinitesimalStrainPlasticityResidual.cpp InfinitesimalStrainThermoPlasticityResidual.cpp ElasticWorkCriterion.cpp PlasticWorkCriterion.cpp".split()
PROPS["P24"] = dict(WH, repo=PLAS, dims="-DPLATOANALYZE_2D -DPLATO_PLASTICITY", units=["p24_plasticity.cpp"], quick=dict(runs=8000, time=90), thorough=dict(runs=100000, time=1800), timeunit="load steps",
   rule="Seeded histories of elasto-plastic and thermo-elasto-plastic analyses, criterion values and gradients (also of earlier histories put back) on generated problems driven by loads and time dependent supports, with step numbers that grow when Newton's method fails; seeded device schedules, failed and diverged solves at any iteration, failing allocations and failing diagnostics files; every cell of every step checked against the J2 return mapping, every step against an independent mixed finite element balance, design gradients against differences of the repeated analysis.",
   real="PlasticityProblem, Newton-Raphson solver, path-dependent adjoint solver, local and global vector functions, J2 residual, plasticity and thermo-plasticity residuals, projection, work criteria, boundary conditions, loads, elastic materials, assembly, AmgX interface", stub=PROPS["P20"]["stub"])
PROPS["P25"] = dict(WH, dims="-DPLATOANALYZE_3D -DPLATO_ELLIPTIC", units=["p25_mass.cpp"], quick=dict(runs=20000, time=60), thorough=dict(runs=400000, time=1500), timeunit="evaluations",
   rule="Seeded histories of creations, values, design, shape and state gradients, updates and refused descriptions of geometric criteria on generated tetrahedral meshes with permuted numberings and several blocks of different densities; seeded device schedules and failing allocations; values and gradients checked against an independent extended precision reference.",
   real="geometric and elliptic mass properties, mass moments, volume, weighted sums, quotients and least squares, spatial model, worksets and gradient assembly", stub="Omega_h (mesh and eigenvalue stand-in), heap, Kokkos::Serial range dispatch")
