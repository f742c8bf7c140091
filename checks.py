# What each check builds (harness sources from /verif/harness + sources of /repo) and how its cases are made.
A = "asan"
MATS = ["CustomMaterial.cpp", "ExpressionEvaluator.cpp", "LinearElasticMaterial.cpp", "CubicLinearElasticMaterial.cpp", "CustomLinearElasticMaterial.cpp", "IsotropicLinearElasticMaterial.cpp",
        "OrthotropicLinearElasticMaterial.cpp", "LinearElectroelasticMaterial.cpp", "LinearThermoelasticMaterial.cpp", "MaterialModel.cpp", "Rank4Voigt.cpp", "IsotropicStiffness.cpp", "alg/Basis.cpp", "alg/Cubature.cpp"]
CRIT = ["elliptic/%s.cpp" % x for x in "DivisionFunction EMStressPNorm EffectiveEnergy FluxPNorm InternalElasticEnergy InternalElectroelasticEnergy InternalThermalEnergy InternalThermoelasticEnergy LeastSquaresFunction MassMoment MassPropertiesFunction PhysicsScalarFunction ScalarFunctionBaseFactory SolutionFunction StressPNorm WeightedSumFunction".split()] + \
    ["IntermediateDensityPenalty.cpp", "StabilizedElastostaticEnergy.cpp", "Plato_AugLagStressCriterion.cpp", "Plato_AugLagStressCriterionGeneral.cpp", "Plato_AugLagStressCriterionQuadratic.cpp", "TensileEnergyDensity.cpp", "TensileEnergyDensityLocalMeasure.cpp", "ThermalVonMisesLocalMeasure.cpp", "VonMisesLocalMeasure.cpp"]
GEOM = ["geometric/%s.cpp" % x for x in "DivisionFunction GeometryScalarFunction LeastSquaresFunction MassMoment MassPropertiesFunction ScalarFunctionBaseFactory WeightedSumFunction".split()]
DRV = sorted(set(["elliptic/Problem.cpp", "elliptic/ElastostaticResidual.cpp", "elliptic/ThermostaticResidual.cpp", "EllipticVMSProblem.cpp", "alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp",
    "hyperbolic/HyperbolicPhysicsScalarFunction.cpp", "hyperbolic/HyperbolicScalarFunctionFactory.cpp", "PlasticityProblem.cpp", "PathDependentScalarFunctionFactory.cpp", "BasicLocalScalarFunction.cpp", "WeightedLocalScalarFunction.cpp", "NewtonRaphsonSolver.cpp", "PathDependentAdjointSolver.cpp",
    "InfinitesimalStrainPlasticityResidual.cpp", "InfinitesimalStrainThermoPlasticityResidual.cpp", "J2PlasticityLocalResidual.cpp", "PlasticWorkCriterion.cpp", "ElasticWorkCriterion.cpp", "ComputePrincipalStresses.cpp", "GlobalVectorFunctionInc.cpp"]
    + ["parabolic/%s.cpp" % x for x in "HeatEquationResidual InternalThermalEnergy InternalThermoelasticEnergy PhysicsScalarFunction Problem ScalarFunctionBaseFactory TemperatureAverage TransientThermomechResidual".split()] + GEOM + CRIT + MATS))
CHECKS = {
 "C06": {"builds": [{"src": ["c06_expr.cpp"], "repo": ["ExpressionEvaluator.cpp", "CustomMaterial.cpp"]}],
   "rule": "random formula trees printed with random redundant parentheses, white space and number formats (a bare number is trivial), token and byte mutations of them, Bingo files with random equation lists and indices; each evaluated against an independent tree evaluator"},
 "C07": {"builds": [{"src": ["c07_sparse.cpp"]}],
   "rule": "random block patterns (1-9 block rows, block sizes 1-4, empty rows included) and magnitude-diverse entries; trivial: a single row or entry; every operation compared with dense algebra, inputs compared bit for bit before and after"},
 "C09": {"builds": [{"src": ["c09_constraints.cpp"]}],
   "rule": "random structurally symmetric block and scalar systems, random constraint sets in random order with random scales; non-trivial: some but not all dofs constrained; the resulting system is solved densely and compared with the exactly constrained one"},
 "C08": {"builds": [{"src": ["c08_dense.cpp"]}],
   "rule": "random vectors, worksets and cell matrices of sizes 1 to 257 with magnitude-diverse entries and scalars including 0, plus empty, mismatched and non-finite arguments; trivial: a single entry"},
 "C01": {"builds": [{"src": ["c01_kinematics.cpp"]}],
   "rule": "random non-degenerate line, triangle and tetrahedron cells (sizes 1e-3 to 1e3) with random affine nodal fields of every supported dof layout; kernels called for random subsets of the workset in random order; trivial: none (every case has a random geometry and field)"},
 "C02": {"builds": [{"src": ["c02_divergence.cpp"]}],
   "rule": "random non-degenerate cells with random stress, flux and pressure values, every supported dof layout and offset, random scale and random prior content of the output; force and moment balance and virtual work against random virtual displacements"},
 "C03": {"builds": [{"src": ["c03_materials.cpp"], "repo": ["MaterialModel.cpp", "Rank4Voigt.cpp", "IsotropicStiffness.cpp"]}, {"src": ["c03_elastic.cpp"], "dim": 3, "repo": MATS}],
   "rule": "random parameter lists for every law and model: each optional coefficient present or absent with probability one half, constants, scalars, tensors and quadratic temperature polynomials, Poisson ratios from -0.9 to 0.49, each required entry dropped in turn"},
 "C04": {"builds": [{"src": ["c04_invariants.cpp"], "repo": ["TensileEnergyDensity.cpp"]}],
   "rule": "random tensors including uniaxial, hydrostatic, pure-shear, integer and scaled ones (1e-5 to 1e5), random rotations, random moduli, exponents and norm weights; compared with an independent eigenvalue solver and the textbook formulas, and for frame invariance, homogeneity and untouched neighbours"},
 "C05": {"builds": [{"src": ["c05_plasticity.cpp"]}],
   "rule": "random deviatoric and general stress states, previous and current local states, multiplier increments of both signs, zero and positive kinematic hardening, 2D and 3D; one cell of the workset left alone; elastic, plastic and thermal strain splits with random temperatures, reference temperatures and scalings"},
 "C29": {"builds": [{"src": ["c29_ad.cpp"], "repo": ["TensileEnergyDensity.cpp", "MaterialModel.cpp", "Rank4Voigt.cpp", "IsotropicStiffness.cpp"]}],
   "rule": "each kernel in each dimension on random arguments away from zero, first on plain numbers, then with the state-like, the configuration- or control-like and both groups of arguments differentiated in two random directions; entries whose differences at two step sizes disagree (kinks) are not judged; trivial: none"},
 "C10": {"builds": [{"src": ["c10_cubature.cpp"], "repo": ["alg/Cubature.cpp", "alg/Basis.cpp"]}],
   "rule": "every dimension and degree with random polynomials of the advertised degree and random non-degenerate cells, plus unsupported dimensions, degrees and container shapes; node-numbering invariance of each rule"},
 "C11": {"builds": [{"src": ["c11_penalty.cpp"]}],
   "rule": "every penalty and projection model built by each constructor, parameter list (each entry present or absent), parameter map and setter, then advanced through continuation steps; values, derivatives, bounds and monotonicity over sorted random densities including the end points; applied to random worksets with one cell left alone"},
 "C12": {"builds": [{"src": ["c12_time.cpp"]}],
   "rule": "random Newmark and trapezoid parameters, step sizes from 1e-5 to 1e2 and state histories of 0 to 40 entries; residuals on exactly updated states, on perturbed states and on constant-acceleration motions; each missing parameter"},
 "C14": {"builds": [{"src": ["c14_dynamics.cpp"]}],
   "rule": "random complex forces, states and cells in 1D to 3D, node-wise and cell-wise worksets, zero and positive damping, parameter lists with entries present or absent, random frequency and density; one cell left alone"},
 "C13": {"builds": [{"src": ["c13_rocket.cpp"]}],
   "rule": "random rocket designs whose equilibrium pressure is within reach of the solver started from the reference pressure (burn-rate exponents 0 to 0.75, 1 to 25 time steps, whole and fractional burn times), configured by input structure or by setters, solved, repeated and reconfigured on the same object; the calls made to the chamber geometry are recorded and replayed against the closed-form equilibrium"},
 "C15": {"builds": [{"src": ["c15_elliptic.cpp"], "dim": dd, "repo": ["elliptic/ElastostaticResidual.cpp", "elliptic/ThermostaticResidual.cpp"] + MATS} for dd in (2, 3)],
   "rule": "random jittered and renumbered box meshes in 2D and 3D with one or two material blocks, random materials of every family, penalty models, traction, flux, pressure and body loads, random states and densities; the assembled residual and matrices compared with an independent assembly and its central differences; trivial: none"},
 "C16": {"builds": [{"src": ["c16_geometric.cpp"], "dim": dd, "repo": GEOM} for dd in (2, 3)],
   "rule": "random trees (depth 0 to 3) of volume, mass-properties, weighted-sum, division and least-squares criteria and single mass moments on random jittered, renumbered, multi-block meshes with random densities; value compared with an independent evaluation of the tree, gradients with its central differences; trivial: none"},
 "C17": {"builds": [{"src": ["c17_criteria.cpp"], "dim": dd, "repo": CRIT + MATS} for dd in (2, 3)],
   "rule": "random trees (depth 0 to 2) of every elliptic criterion of the four steady physics on random meshes, blocks, materials, penalty models, states and densities, and augmented Lagrangian stress constraints along histories of multiplier updates; values compared with an independent evaluation, gradients with its central differences; trivial: none"},
 "C18": {"builds": [{"src": ["c18_problem.cpp"], "dim": dd, "flags": ["-DVH_MPI"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra"], "repo": ["elliptic/Problem.cpp", "elliptic/ElastostaticResidual.cpp", "elliptic/ThermostaticResidual.cpp", "alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp"] + GEOM + CRIT + MATS} for dd in (2, 3)],
   "rule": "whole steady problems of the four physics with random meshes, materials, loads, essential conditions and criteria: state residual at free dofs, prescribed values, criterion value, adjoint gradients against central differences of an independent re-solve, repeated and reordered calls, and refused essential condition lists; trivial: none"},
 "C19": {"builds": [{"src": ["c19_parabolic.cpp"], "dim": dd, "flags": ["-DVH_MPI"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra"], "repo": ["parabolic/%s.cpp" % x for x in "HeatEquationResidual InternalThermalEnergy InternalThermoelasticEnergy PhysicsScalarFunction Problem ScalarFunctionBaseFactory TemperatureAverage TransientThermomechResidual".split()] + ["elliptic/ThermostaticResidual.cpp", "alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp"] + GEOM + CRIT + MATS} for dd in (2, 3)],
   "rule": "transient thermal and thermomechanical residuals, criteria and whole marches with random meshes, materials, loads, essential conditions, initial fields and time parameters: residual and Jacobians against an independent assembly, every step of the march against the equations and the trapezoid rule, total gradients against central differences of an independent re-march, saved output fields, repeated calls and refused inputs; trivial: none"},
 "C20": {"builds": [{"src": ["c20_hyperbolic.cpp"], "dim": dd, "flags": ["-DVH_MPI"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra"], "repo": ["hyperbolic/HyperbolicPhysicsScalarFunction.cpp", "hyperbolic/HyperbolicScalarFunctionFactory.cpp", "alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp"] + GEOM + CRIT + MATS} for dd in (2, 3)],
   "rule": "transient structural dynamics residuals, criteria and whole marches with random meshes, elastic materials, Rayleigh damping, loads and prescribed motions varying in time, initial fields, step sizes and Newmark parameters: residual and Jacobians against an independent assembly, every step of the march against the equations of motion and Newmark's formulas, total gradients against central differences of an independent re-march, saved output fields, repeated calls and refused inputs; trivial: none"},
 "C21": {"builds": [{"src": ["c21_vms.cpp"], "dim": dd, "flags": ["-DVH_MPI"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra"], "repo": ["EllipticVMSProblem.cpp", "alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp"] + GEOM + CRIT + MATS} for dd in (2, 3)],
   "rule": "stabilised (mixed displacement-pressure, with and without temperature) residuals, pressure gradient projections and whole staggered solves with random meshes, isotropic materials up to near incompressibility, pressure scalings, penalties, loads, essential conditions, iteration counts and step counts: residuals and every Jacobian against an independent assembly, states against an independent staggered iteration, total gradients against central differences of an independent solution of the coupled fixed point, repeated calls and refused inputs; trivial: none"},
 "C23": {"builds": [{"src": ["c23_plasticity.cpp"], "dim": dd, "flags": ["-DVH_MPI"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra"], "repo": ["PlasticityProblem.cpp", "PathDependentScalarFunctionFactory.cpp", "BasicLocalScalarFunction.cpp", "WeightedLocalScalarFunction.cpp", "NewtonRaphsonSolver.cpp", "PathDependentAdjointSolver.cpp", "InfinitesimalStrainPlasticityResidual.cpp", "InfinitesimalStrainThermoPlasticityResidual.cpp", "J2PlasticityLocalResidual.cpp", "PlasticWorkCriterion.cpp", "ElasticWorkCriterion.cpp", "alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp", "ComputePrincipalStresses.cpp", "GlobalVectorFunctionInc.cpp", "ExpressionEvaluator.cpp", "alg/Basis.cpp", "alg/Cubature.cpp"] + GEOM} for dd in (2, 3)],
   "rule": "elastoplastic and thermo-elastoplastic local and global residuals, work criteria, their partial derivatives and the radial return at random states against an independent implementation; whole load histories with random meshes, materials, hardening (including none of one kind), scalings, loads, prescribed motions, step counts and step refinement: local states, equilibrium, prescribed values, saved outputs and criterion sums of every step, total gradients against central differences of an independently tracked history, repeated calls and refused inputs; trivial: none"},
 "C24": {"builds": [{"src": ["c24_output.cpp"], "dim": dd, "flags": ["-DVH_MPI"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra"], "repo": DRV if dd == 2 else []} for dd in (2, 3)],
   "rule": "random meshes, solutions, rates, step counts and element fields written for each of the eleven physics and PDE combinations in 2D and 3D and compared record by record; whole driver runs of each combination in 2D from random inputs and registered mesh files, compared with the solution of the problem built directly; refused keywords, dimensions and meshes; trivial: none"},
 "C25": {"builds": [{"src": ["c25_levelset.cpp"], "dim": dd, "repo": []} for dd in (2, 3)],
   "rule": "random renumbered simplex meshes in 2D and 3D with random level sets, element and nodal speeds, widths and steps; plane fronts with exact motion; random burning histories of the external mesh and cylinder geometries with recorded output and re-initialisation; missing, short, ragged and long input files; trivial: level sets of one sign have no interface to redistance"},
 "C26": {"builds": [{"src": ["c26_meshmap.cpp"], "dim": 3, "repo": []}],
   "rule": "random jittered and regular renumbered tetrahedral meshes, axis-aligned and oblique planes inside and outside the mesh, filters of small to large radius in either order, random, affine and constant fields; invalid inputs; trivial: none"},
 "C27": {"builds": [{"src": ["c27_app.cpp"], "dim": 3, "flags": ["-DVH_MPI", "-DPLATO_MESHMAP", "-I/usr/include/hdf5/openmpi"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra", "-lhdf5_openmpi"], "repo": DRV + ["Analyze_App.cpp", "alg/ParseInput.cpp"]}],
   "rule": "random histories of nine steps over one or two problem definitions of six physics and PDE combinations in 3D, with and without a mesh map, targets and changed parameters, every export compared with a problem built afresh; directional derivatives of exported values; mapping, finite difference, HDF5, visualization and rebuild operations; refusals; trivial: none"},
 "C28": {"builds": [{"src": ["c28_solver.cpp"], "dim": 3, "flags": ["-DVH_MPI"], "libs": ["-ltrilinos_aztecoo", "-ltrilinos_epetra"], "repo": ["alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp", "alg/AmgXConfigs.cpp"]}, {"src": ["c28_solver.cpp"], "dim": 3, "flags": ["-DVH_MPI", "-DPLATO_TPETRA", "-DPLATOANALYZE_LONG_LONG_ORDINALTYPE"], "libs": ["-ltrilinos_" + x for x in "muelu-adapters muelu-interface muelu xpetra-sup xpetra ifpack2-adapters ifpack2 belostpetra belos tpetraext tpetrainout tpetra tpetraclassic kokkostsqr aztecoo epetra teuchosnumerics".split()], "repo": ["alg/PlatoSolverFactory.cpp", "alg/EpetraLinearSolver.cpp", "alg/ParallelComm.cpp", "alg/TpetraLinearSolver.cpp"]}],
   "rule": "random block systems (general with row scaling, symmetric positive definite, grid Laplacians) of 1 to 256 nodes and 1 to 5 dofs, converted and compared entry by entry, solved one to three times per solver from random guesses with random parameters for Epetra (int ordinals) and Epetra and Tpetra (long long ordinals), compared with a dense solve; loose tolerances and short iteration limits; mismatched sizes and unknown names refused; trivial: none"},
 "C22": {"builds": [{"src": ["c22_bookkeeping.cpp"]}],
   "rule": "random histories of filling, overwriting, saving, clearing and reading output states; random norm histories for the two stopping measures; diagnostics written to and parsed back from a scratch file; random parameter lists queried for every name and type; trivial: none"},
}
