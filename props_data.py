NA = []
SAN = "AddressSanitizer + UBSan + Kokkos bounds checks on the real kernels, with "
N0 = "Exploration: the property held on every generated case of the seeded workload (counts in the evidence file) under sanitizers; trusts the independent reference computation in the harness and the Kokkos Serial backend, and says nothing about inputs outside the generator's ranges. "

prop("C01", "Strain and gradient kernels are exact for every affine field",
 "For every non-degenerate line, triangle and tetrahedron and every affine nodal field, the kinematics kernels (thermomechanical, electromechanical, stabilized mechanical and stabilized thermomechanical kinematics, pressure gradient, complex strain, interpolation of scalar and vector fields and of scalar gradients from nodes, state values, strain divergence, dot product) return exactly the constant gradient, the engineering-Voigt strain (normal terms, then yz, xz, xy with factor-two shear) and the interpolated value of that field, a rigid-body motion gives zero strain, each dof layout reads only its own dofs, projection of cell values to the nodes conserves their volume-weighted total, and only the addressed cell of the output workset is written.",
 INP, "all cell geometries and node orders, all affine fields, all supported dof layouts and cell subsets",
 "A unit test fixes one mesh and one field; a transposed index or a swapped shear component shows only on a general geometry and field.",
 ["Kinematics.hpp", "TMKinematics.hpp", "EMKinematics.hpp", "ComplexStrain.hpp", "PressureGradient.hpp", "InterpolateFromNodal.hpp", "StateValues.hpp", "ProjectToNode.hpp", "StrainDivergence.hpp", "DotProduct.hpp"],
 [("stabilized kinematics", "Kinematics.hpp"), ("engineering Voigt strain", "TMKinematics.hpp")],
 SAN + "an exactness monitor comparing every kernel with the analytic gradient of random affine fields on random simplices", N0)

prop("C02", "Internal-force kernels are the adjoints of the strain kernels",
 "For every cell geometry, stress, flux or pressure and scale, the divergence kernels (stress, flux, pressure and complex stress) add to the residual exactly volume x scale x (stress contracted with the shape-function gradients) in the addressed dofs and nowhere else, so that the nodal forces balance (zero resultant force and moment), the virtual work equals the internal work computed with the repository's own strain kernels, a hydrostatic stress equals a pressure, and what the output held before is kept (the complex kernel assigns).",
 INP, "all cells, stresses, fluxes, pressures, scales, dof layouts and offsets",
 "Tests compare a few gold numbers of one mesh; the adjoint identity must hold for every stress and virtual displacement or the discrete equations lose symmetry.",
 ["StressDivergence.hpp", "FluxDivergence.hpp", "PressureDivergence.hpp", "ComplexStressDivergence.hpp"],
 [("accumulating internal force", "StressDivergence.hpp operator()"), ("dof offset", "StressDivergence.hpp DofOffset")],
 SAN + "monitors for force balance, moment balance and virtual work against random virtual displacements", N0)

prop("C03", "Material models build the tensors their parameters describe",
 "For every admissible parameter list, the material-model layer (scalar, tensor, rank-4 and temperature-dependent functors, isotropic stiffness in 1D/2D/3D, Rank4Voigt, Voigt stiffness entries, shear and bulk moduli, thermal conduction, thermal mass and thermoelastic models, Fourier flux and thermal content) yields the constants of the chosen law: the isotropic stiffness is symmetric, positive definite for -1 < v < 0.5, satisfies the stress-strain law of the stated Young's modulus and Poisson ratio, temperature polynomials evaluate to c0 + c1 T + c2 T^2, absent optional coefficients count as zero, a missing required entry is an error, and the temperature-dependence of the model matches that of its constants. The linear elastic families (isotropic, cubic, orthotropic, custom expression), the isotropic electroelastic and the linear thermoelastic models likewise carry exactly the stiffness, reference strain, mass density, Rayleigh damping, pressure scaling, piezoelectric, permittivity, expansion and conductivity their entries describe, and unstable orthotropic constants are rejected.",
 CFG, "all parameter lists, dimensions and temperatures",
 "The parameter space (presence or absence of each entry, temperature dependence, dimension) is far larger than the listed examples.",
 ["MaterialModel.hpp", "MaterialModel.cpp", "IsotropicStiffness.cpp", "Rank4Voigt.cpp", "ThermoelasticMaterial.hpp", "ThermalConductivityMaterial.hpp", "ThermalMassMaterial.hpp", "ThermalFlux.hpp", "ThermalContent.hpp", "IsotropicMaterialUtilities.hpp", "LinearElasticMaterial.hpp", "IsotropicLinearElasticMaterial.hpp", "CubicLinearElasticMaterial.hpp", "OrthotropicLinearElasticMaterial.hpp", "LinearElectroelasticMaterial.hpp", "LinearThermoelasticMaterial.hpp"],
 [("coefficient parsing", "MaterialModel.cpp"), ("isotropic law", "IsotropicStiffness.cpp")],
 SAN + "a reference evaluator of every constitutive law over random parameter lists with entries dropped in turn", N0)

prop("C04", "Stress and strain invariants are frame-indifferent and correct",
 "For every symmetric tensor, the derived quantities (eigenvalues, von Mises stress, tensor p-norms of any exponent, Barlat norm, weighted norms and the gradient of their root, vector p-norms, deviatoric stress and strain, double dot products, tensile energy density, Cauchy stress, elastic work, stabilization term) equal their textbook definitions in the documented Voigt order, do not change under rotation of the frame when they are invariants, scale homogeneously, never become NaN or Inf for finite input (uniaxial, hydrostatic and coinciding eigenvalues included), and write only the addressed cell.",
 INP, "all tensors including degenerate ones, all exponents, moduli and rotations",
 "Degenerate eigenvalues, negative shear or fractional exponents are measure-zero choices a fixed test does not make.",
 ["Eigenvalues.hpp", "VonMisesYieldFunction.hpp", "TensorPNorm.hpp", "BarlatNorm.hpp", "TensileEnergyDensity.hpp", "ComputeDeviatoricStress.hpp", "ComputeCauchyStress.hpp", "VoigtMap.hpp"],
 [("2D/3D eigenvalues", "Eigenvalues.hpp"), ("norm integrand and root", "TensorPNorm.hpp")],
 SAN + "an independent eigen-solver and rotation/scaling metamorphic monitors", N0 + "Two genuine deviations of ComputeCauchyStress pinned by existing tests are listed as known findings.")

prop("C05", "J2 plasticity updates are consistent with their residuals",
 "For every stress, previous state, multiplier increment and kinematic hardening modulus in 2D and 3D: the yield-surface normal is the unit direction of deviatoric stress minus backstress in tensor norm; a plastic step adds sqrt(3/2) dgamma n to the plastic strain (engineering shear) and sqrt(2/3) dgamma H n to the backstress, so plastic flow is isochoric and its equivalent increment is |dgamma|; an elastic step copies the previous values; the residual functions vanish exactly on those updates and equal the distance from them otherwise; state readers return the documented slots; and the elastic strain is total minus plastic minus thermal strain alpha (s T - Tref) on the normal components only.",
 HIS, "all states, stresses, increments and temperatures; sequences previous -> current",
 "Update and residual are separate code for each dimension; only a comparison over general states ties them together.",
 ["J2PlasticityUtilities.hpp", "ThermoPlasticityUtilities.hpp", "SimplexPlasticity.hpp", "SimplexThermoPlasticity.hpp"],
 [("radial return update", "J2PlasticityUtilities.hpp updatePlasticStrainAndBackstressPlasticStep"), ("local residual", "J2PlasticityUtilities.hpp fill*Residual*"), ("elastic strain split", "ThermoPlasticityUtilities.hpp computeElasticStrain")],
 SAN + "update/residual consistency monitors, isochoric-flow invariant and finite-difference check of the carried derivatives", N0)

prop("C06", "User formulas evaluate to their mathematical value or are rejected",
 "Every well-formed formula given to the expression evaluator (numbers, variables, + - * / ^, unary minus, parentheses, the supported functions, constants and nested calls, in any spacing) evaluates to its mathematical value with the usual precedence and associativity for every variable value, for plain and vector variables and any workset entry; every malformed formula is rejected with an error rather than yielding a number or reading outside the text; evaluation is repeatable and independent of other evaluator instances; and the Bingo custom-material reader picks exactly the requested equation or reports an error.",
 ["inputs", "programs"], "all formulas of the grammar, all mutations of them, all variable values",
 "A test lists a few dozen formulas; precedence, nesting and malformed-input handling must hold for the whole grammar.",
 ["ExpressionEvaluator.hpp", "ExpressionEvaluator.cpp", "CustomMaterial.cpp"],
 [("parser", "ExpressionEvaluator.cpp parse_expression"), ("evaluator", "ExpressionEvaluator.hpp evaluate_expression"), ("equation selection", "CustomMaterial.cpp")],
 "grammar-based generation and mutation against an independent tree evaluator under AddressSanitizer and UBSan", N0)

prop("C07", "Sparse block-matrix operations equal dense algebra",
 "For every block-sparse matrix (any pattern including empty and unsorted rows, block sizes, entries), the sparse operations — matrix-vector product, matrix-matrix product, difference of matrices, row sums, row-sum inverse and diagonal-inverse products, row-summed (lumped) solves, inverse weights, static condensation, block/non-block/strided conversion, column sorting — produce the matrix or vector that dense algebra gives, with a well-formed row map and in-range column indices, leave their inputs bit-for-bit unchanged, accumulate where documented and reject incompatible shapes.",
 INP, "all patterns, block sizes, entries and incompatible shapes",
 "Index arithmetic over blocks fails only for particular block-size and pattern combinations.",
 ["PlatoMathHelpers.hpp", "PlatoMathFunctors.hpp", "Plato_Solve.hpp", "alg/CrsMatrix.hpp"],
 [("block products", "PlatoMathHelpers.hpp"), ("condensation", "PlatoMathHelpers.hpp")],
 SAN + "a dense-algebra oracle for every operation and bit-exact input-preservation monitors", N0)

prop("C08", "Dense vector and workset operations equal their definitions",
 "For every vector, workset and cell-matrix size and content, the dense helpers (fill, fill at listed ordinals, copy, axpy, update, scale, dot, norm, sum, min, max, extraction of sub-vectors, workset matrix-vector products, and fill, identity, update, product and inverse of cell matrices) compute their definition entry by entry, touch only their output, behave correctly for empty, single-entry and large containers and reject mismatched sizes.",
 INP, "all sizes, scalars (0 and negative included) and contents",
 "Edge sizes and scalar special cases (0, 1, negative, aliased lists of ordinals) are unbounded.",
 ["BLAS1.hpp", "BLAS2.hpp", "BLAS3.hpp"],
 [("blas1", "BLAS1.hpp"), ("workset blas", "BLAS2.hpp")],
 SAN + "entry-wise definition monitors over random sizes, scalars and contents", N0)

prop("C09", "Essential constraints are imposed exactly on the linear system",
 "For every matrix, right-hand side, scale and set of constrained dofs (any order, block or scalar matrix), applying essential boundary conditions leaves a system whose solution has exactly the prescribed values (times scale) at the constrained dofs and satisfies the original equations, with the known values substituted, at all others; constrained rows and columns are decoupled with unit diagonal, unconstrained entries are untouched, splitting the constraint set over several calls gives the same system and imposing the same constraints again changes nothing further in the solution.",
 HIS, "all systems, constraint sets, orders and scales",
 "A wrong column elimination is invisible unless the coupled entry and value are both nonzero.",
 ["ApplyConstraints.hpp"],
 [("block constraints", "ApplyConstraints.hpp applyBlockConstraints"), ("scalar constraints", "ApplyConstraints.hpp applyConstraints")],
 SAN + "solving the modified system densely and comparing with the exactly constrained solution", N0)

prop("C10", "Integration rules are exact for the degree they advertise",
 "For every supported dimension and degree the cubature rule returns the announced number of points, all inside the reference simplex, with weights summing to its volume, integrates every polynomial up to that degree exactly, and is invariant under renumbering of the cell's nodes; the degree-one rule's basis functions are the barycentric coordinates of its point and integrate linear fields exactly on every cell; the reference basis is nodal, sums to one and has the exact gradients; unsupported dimensions or degrees and wrongly sized containers are errors.",
 CFG, "all polynomials up to the degree, all cells, all dimensions/degrees including unsupported ones",
 "Exactness quantifies over all polynomials; a wrong point or weight may still integrate the tested one.",
 ["alg/Cubature.cpp", "alg/Cubature.hpp", "alg/Basis.cpp", "LinearTetCubRuleDegreeOne.hpp"],
 [("rules", "alg/Cubature.cpp getCubature"), ("linear rule", "LinearTetCubRuleDegreeOne.hpp initialize")],
 SAN + "exact polynomial integrals (factorial formula) as oracle and a symmetry monitor", N0)

prop("C11", "Penalty and projection models interpolate between void and solid",
 "For every parameter choice, however configured (constructor, parameter list, parameter map with any subset of entries, setters) and after any number of continuation updates, the MSIMP, RAMP, Heaviside and no-penalty models and the tanh and Heaviside projections return the value of their formula, equal the minimum value at void and one at solid, are monotone and bounded in between, carry the exact derivative under automatic differentiation, never exceed the continuation bound, use the documented default for each absent entry, and are applied to exactly the addressed cell with the cell-averaged control.",
 HIS, "all densities, parameters, configuration routes and continuation histories",
 "Defaults, bounds and continuation interact; tests use one parameter set and one density.",
 ["Simp.hpp", "Ramp.hpp", "Heaviside.hpp", "NoPenalty.hpp", "HeavisideProjection.hpp", "HyperbolicTangentProjection.hpp", "ApplyPenalty.hpp", "ApplyProjection.hpp", "ApplyWeighting.hpp", "Plato_TopOptFunctors.hpp"],
 [("penalty functions", "Simp.hpp operator()"), ("continuation", "Simp.hpp update"), ("application", "ApplyWeighting.hpp")],
 SAN + "law monitors (end values, monotonicity, bounds, derivative, defaults) over configuration and continuation histories", N0)

prop("C12", "Time integrators' residuals match their update formulas and gradients",
 "For every parameter choice, step size and state history, the Newmark residuals vanish exactly when displacement and velocity follow the Newmark update, equal the distance from it otherwise, integrate constant-acceleration motion exactly, and the trapezoid residual likewise for its alpha rule (default one half); every published gradient (v and a with respect to u, previous u, v and a) is the derivative of the corresponding residual, results depend on no other data, and missing required parameters are errors.",
 HIS, "all parameters, step sizes and state histories",
 "Gradient and value are separate formulas that must agree for every gamma, beta and step size or adjoint gradients are wrong.",
 ["hyperbolic/Newmark.hpp", "parabolic/TrapezoidIntegrator.hpp"],
 [("Newmark residuals", "hyperbolic/Newmark.hpp v_value a_value"), ("gradients", "hyperbolic/Newmark.hpp *_grad_*"), ("trapezoid", "parabolic/TrapezoidIntegrator.hpp")],
 SAN + "exact finite-step differences of the linear residuals and exact update trajectories as oracle", N0)

prop("C13", "The rocket model balances mass at every time and is repeatable",
 "For every rocket design whose equilibrium pressure is reachable, the algebraic rocket model advances in steps of the given size until the total burn time, at each time evaluates the chamber once and then burns it once with rate (P/Pref)^alpha, reports a pressure at which mass production equals nozzle discharge and the thrust of that pressure, keeps time, thrust and pressure profiles aligned and starting from the initial state, gives bit-identical results when initialised and solved again or after another design ran on the same object, and writes the thrust profile only when asked; the cylinder's area, gradient and mass rate follow its evolving radius.",
 ["inputs", "histories", "configurations"], "all designs, step counts and sequences of reconfigure/initialise/solve",
 "Profiles depend on the whole burn history; tests compare one design with stored numbers.",
 ["Plato_AlgebraicRocketModel.hpp", "Plato_Cylinder.hpp", "Plato_GeometryModel.hpp", "Plato_RocketMocks.hpp"],
 [("time loop", "Plato_AlgebraicRocketModel.hpp solve"), ("Newton balance", "Plato_AlgebraicRocketModel.hpp newton"), ("burn back", "Plato_Cylinder.hpp evolveGeometry")],
 "recording monitor on the geometry interface with an offline checker of the call trace against the closed-form equilibrium, under AddressSanitizer and UBSan", N0 + "Assumes designs whose Newton start lies in the basin of the equilibrium.")

prop("C14", "Frequency-domain kernels are the complex forms of M, C and K",
 "For every complex state, force workset, density, frequency and damping constants, the structural-dynamics kernels satisfy their definitions at every node of the cell: damping couples real and imaginary parts with C = mu M + lambda K and opposite signs, the adjoint damping is its transpose, inertial forces are the consistent density x volume weighting of the interpolated state and their work is the inertial energy (never positive), elastic energy is the stress-strain product over both parts, the frequency-response misfit is half the squared distance with matching gradient, and the cell residual accumulates K + C - omega^2 M; entries of other cells stay untouched.",
 INP, "all states, forces, cells, frequencies and damping parameters",
 "Tests use workset rows with equal entries; node loops and sign pairs show only on general data.",
 ["RayleighDamping.hpp", "ComplexRayleighDamping.hpp", "AdjointComplexRayleighDamping.hpp", "ComplexElasticEnergy.hpp", "ComplexInertialEnergy.hpp", "ComputeFrequencyResponseMisfit.hpp", "StructuralDynamicsCellResidual.hpp", "InertialForces.hpp", "StateValues.hpp"],
 [("complex damping", "ComplexRayleighDamping.hpp operator()"), ("cell residual", "StructuralDynamicsCellResidual.hpp")],
 SAN + "adjoint-pair, work/energy and definition monitors over random complex worksets", N0)

N1 = N0 + "The mesh-based part of /repo does not build here (Omega_h is absent), so it is compiled unchanged against /verif/shim, a stand-in for the Omega_h interface; defects in Omega_h itself are out of reach. "
prop("C15", "Steady equations are the FE balance law with exact derivatives",
 "For every mesh, numbering, block layout, material of every family, penalty model, load and state, the assembled residual of steady mechanics, heat conduction, thermomechanics and electromechanics is the finite element statement of its balance law (internal minus external forces, densities penalised), every assembled matrix (state, transpose, control, configuration) is the derivative of that residual, requested output fields hold every cell's strain, stress, gradient, flux and von Mises values of the last evaluation, inputs stay untouched, evaluations are repeatable, and invalid input (unknown penalty, material, block, side set or load type, loads with missing, doubled, too few or out-of-range entries) is an error.",
 INP, "all meshes, numberings, materials, loads, states, densities and parameter lists",
 "Assembly mistakes and missing derivative terms show only for general meshes, several blocks and mixed loads; tests check gold numbers of one structured mesh.",
 ["elliptic/VectorFunction.hpp", "elliptic/ElastostaticResidual.hpp", "elliptic/ThermostaticResidual.hpp", "elliptic/ThermoelastostaticResidual.hpp", "elliptic/ElectroelastostaticResidual.hpp", "NaturalBCs.hpp", "NaturalBC.hpp", "SurfaceLoadIntegral.hpp", "SurfacePressureIntegral.hpp", "BodyLoads.hpp", "WorksetBase.hpp", "PlatoMathHelpers.hpp", "SpatialModel.hpp", "ToMap.hpp", "LinearElasticMaterial.cpp", "LinearElectroelasticMaterial.cpp", "LinearThermoelasticMaterial.cpp"],
 [("assembly", "elliptic/VectorFunction.hpp value gradient_u gradient_z gradient_x"), ("loads", "NaturalBCs.hpp"), ("outputs", "ToMap.hpp")],
 "AddressSanitizer and Kokkos bounds checks on the assembled equations, with an independent finite element assembly and its central differences as oracle", N1)

prop("C16", "Geometric criteria and their gradients are exact",
 "For every mesh, numbering, block layout, density field and criterion list, a geometric criterion has its defined value: volume is the penalised cell volume, mass moments are the density-weighted zeroth to second moments of the cells, mass properties are the weighted normalised squared distance of mass, centre and inertia (about principal axes when all ten are requested) from their targets, and weighted sums, divisions and least-squares compositions of any depth combine their parts as written; the control and configuration gradients are the derivatives of that value, evaluation is repeatable and leaves its inputs untouched, updateProblem changes nothing, and unknown types, properties or mismatched list lengths are errors.",
 INP, "all meshes, density fields and criterion trees",
 "Compositions nest arbitrarily and gradients are separate code; tests check one structured mesh with equal densities.",
 ["geometric/GeometryScalarFunction.hpp", "geometric/MassMoment.hpp", "geometric/MassPropertiesFunction.hpp", "geometric/WeightedSumFunction.hpp", "geometric/DivisionFunction.hpp", "geometric/LeastSquaresFunction.hpp", "geometric/Volume.hpp", "geometric/ScalarFunctionBaseFactory.hpp", "Plato_TopOptFunctors.hpp"],
 [("value", "geometric/*Function.hpp value"), ("gradients", "geometric/*Function.hpp gradient_z gradient_x")],
 "AddressSanitizer and Kokkos bounds checks on criterion evaluation, with an independent evaluation of the criterion tree and its central differences as oracle", N1)

prop("C17", "Steady physics criteria and their gradients are exact",
 "For every mesh, numbering, block layout, material, penalty model, density field, state and criterion list, a criterion of steady mechanics, heat conduction, thermomechanics and electromechanics has its defined value: energies are the penalised integrals of conjugate products, effective energy the work of the homogenised stress residual on the assumed strain, p-norms the p-th root of the penalised integral (with the chosen normalisation), the density penalty the integral of its cosine, solution criteria the mean over the node set of the signed or absolute normal component, stress constraints the augmented Lagrangian of the local measure (whose multipliers, penalties and mass multipliers follow their update rule at every problem update), and weighted sums, ratios and least squares compose their parts exactly; the gradients with respect to state, densities and coordinates are the derivatives of that value; repeating an evaluation repeats the value and inputs are never modified; requested output fields hold each cell's value; an unknown, incomplete or inconsistent criterion is refused.",
 INP, "all meshes, materials, states, density fields, criterion trees and update histories",
 "Criteria nest arbitrarily and carry state from update to update; gradients are separate evaluations; tests check gold numbers of single criteria on one structured mesh.",
 ["elliptic/PhysicsScalarFunction.hpp", "elliptic/InternalElasticEnergy.hpp", "elliptic/InternalThermalEnergy.hpp", "elliptic/InternalThermoelasticEnergy.hpp", "elliptic/InternalElectroelasticEnergy.hpp", "elliptic/EffectiveEnergy.hpp", "elliptic/StressPNorm.hpp", "elliptic/EMStressPNorm.hpp", "elliptic/FluxPNorm.hpp", "elliptic/SolutionFunction.hpp", "elliptic/WeightedSumFunction.hpp", "elliptic/DivisionFunction.hpp", "elliptic/LeastSquaresFunction.hpp", "elliptic/MassPropertiesFunction.hpp", "AugLagStressCriterion.hpp", "AugLagStressCriterionGeneral.hpp", "AugLagStressCriterionQuadratic.hpp", "IntermediateDensityPenalty.hpp", "Mechanics.hpp", "Thermal.hpp", "Thermomechanics.hpp", "Electromechanics.hpp"],
 [("value", "elliptic/*Function.hpp value"), ("gradients", "elliptic/*Function.hpp gradient_u gradient_z gradient_x"), ("multiplier updates", "AugLagStressCriterion*.hpp updateProblem")],
 "AddressSanitizer and Kokkos bounds checks on criterion evaluation, with an independent evaluation of the criterion tree and its central differences as oracle", N1 + "p-norm and solution criteria are judged on single-step histories and stress constraints on single-block models. ")
prop("C18", "Steady solves satisfy the equations and give exact total gradients",
 "For every mesh, numbering, material, penalty model, density field, load list and essential condition list for which the Newton solve converges, the state a steady problem (mechanics, heat conduction, thermomechanics, electromechanics, linear or temperature-dependent) returns satisfies the discrete equilibrium equations at every unconstrained degree of freedom and takes the prescribed values exactly at every constrained one, also when there is no load; each essential condition list acts on exactly the named side sets, components and values (zero, fixed, time function, scaled), and one that is inconsistent or out of range is refused; a criterion's value is the value at that state, its density and coordinate gradients are the total derivatives of re-solving the problem (for conservative loads, by the adjoint or the self-adjoint path where declared), and solving or differentiating again in any order repeats the results and never modifies the control.",
 INP, "all meshes, materials, loads, essential conditions, densities and call histories",
 "Total derivatives need the adjoint, the transpose, the boundary treatment and every partial derivative to agree; tests compare single gold numbers.",
 ["elliptic/Problem.hpp", "elliptic/VectorFunction.hpp", "elliptic/PhysicsScalarFunction.hpp", "EssentialBCs.hpp", "ApplyConstraints.hpp", "alg/EpetraLinearSolver.cpp", "alg/PlatoSolverFactory.cpp", "Mechanics.hpp", "Thermal.hpp", "Thermomechanics.hpp", "Electromechanics.hpp"],
 [("solution", "elliptic/Problem.hpp solution"), ("adjoint gradients", "elliptic/Problem.hpp criterionGradient criterionGradientX"), ("essential conditions", "EssentialBCs.hpp get"), ("constraint application", "ApplyConstraints.hpp applyBlockConstraints")],
 "AddressSanitizer and Kokkos bounds checks on whole solves, with an independent Newton solver and its re-solved central differences as oracle", N1 + "Body and pressure loads are left out of coordinate gradients (known findings of C15). ")
prop("C19", "Transient thermal solves march exactly and give exact total gradients",
 "For every mesh, numbering, block layout, material (constant or temperature-dependent conductivity, stiffness and heat capacity), penalty model, density field, load list, essential condition list, initial state, step count, time step and trapezoid parameter for which the Newton solves converge, transient heat conduction and thermomechanics march so that the first state is the initial state, every later state satisfies the balance of conduction, equilibrium, storage and boundary loads at every unconstrained degree of freedom with the trapezoid rule's rate, and takes the prescribed values exactly; the assembled residual and its derivatives with respect to state, rate, densities and coordinates are exact, as are each history criterion's value and partial derivatives; total density and coordinate gradients are the derivatives of re-solving the whole history (at fixed nodal initial values); solving or differentiating again repeats the results, inputs are never modified, requested output fields hold every cell's value of every saved step, and inconsistent input is refused.",
 INP, "all meshes, materials, loads, histories of any length, time parameters and call orders",
 "An error in one step's rate or adjoint propagates through the history; tests check gold numbers of single steps or linear symmetric cases.",
 ["parabolic/Problem.hpp", "parabolic/VectorFunction.hpp", "parabolic/PhysicsScalarFunction.hpp", "parabolic/TrapezoidIntegrator.hpp", "parabolic/HeatEquationResidual.hpp", "parabolic/TransientThermomechResidual.hpp", "parabolic/InternalThermalEnergy.hpp", "parabolic/InternalThermoelasticEnergy.hpp", "parabolic/TemperatureAverage.hpp", "ComputedField.hpp", "ThermalMassMaterial.hpp", "ThermalContent.hpp", "PlatoStaticsTypes.hpp"],
 [("time march", "parabolic/Problem.hpp solution"), ("adjoint gradients", "parabolic/Problem.hpp criterionGradient criterionGradientX"), ("residual", "parabolic/*Residual.hpp evaluate"), ("saved states", "PlatoStaticsTypes.hpp DataMap::saveState")],
 "AddressSanitizer and Kokkos bounds checks on whole marches, with an independent time integrator and its re-solved central differences as oracle", N1)
prop("C20", "Transient dynamics marches by Newmark's rule and gives exact total gradients",
 "For every mesh, numbering, block layout, elastic material with or without Rayleigh damping, penalty model, density field, load and body-load list (constant or varying in time), essential condition list, initial displacement and velocity, step count, time step and Newmark parameters, transient mechanics marches so that the first state is the initial state, every later state balances inertia, damping, internal forces and loads at every unconstrained degree of freedom with displacement, velocity and acceleration related by Newmark's formulas, and takes the prescribed values exactly; the assembled residual and its derivatives with respect to displacement, velocity, acceleration, densities and coordinates are exact, as are each history criterion's value and partial derivatives; total density and coordinate gradients are the derivatives of re-solving the whole history (at fixed nodal initial values and for loads that do not follow the geometry); solving or differentiating again repeats the results, inputs are never modified, requested output fields (stress, strain, velocity gradient) hold every cell's value of every saved step, and inconsistent input is refused.",
 INP, "all meshes, materials, damping, loads, histories of any length, Newmark parameters and call orders",
 "An error in one step's velocity, damping or adjoint term propagates through the history; tests compare gold numbers of single steps.",
 ["hyperbolic/HyperbolicProblem.hpp", "hyperbolic/HyperbolicVectorFunction.hpp", "hyperbolic/HyperbolicPhysicsScalarFunction.hpp", "hyperbolic/ElastomechanicsResidual.hpp", "hyperbolic/HyperbolicInternalElasticEnergy.hpp", "hyperbolic/HyperbolicStressPNorm.hpp", "hyperbolic/Newmark.hpp", "hyperbolic/InertialContent.hpp", "RayleighDamping.hpp", "ComputedField.hpp", "PlatoStaticsTypes.hpp"],
 [("time march", "hyperbolic/HyperbolicProblem.hpp solution"), ("adjoint gradients", "hyperbolic/HyperbolicProblem.hpp criterionGradient criterionGradientX"), ("residual", "hyperbolic/ElastomechanicsResidual.hpp evaluate"), ("history criteria", "hyperbolic/HyperbolicPhysicsScalarFunction.hpp")],
 "AddressSanitizer and Kokkos bounds checks on whole marches, with an independent Newmark integrator and its re-solved central differences as oracle", N1)
prop("C22", "Saved output states, Newton bookkeeping and parameter look-ups are faithful",
 "For every history of filling, overwriting, saving, clearing and reading output fields, a saved output state keeps exactly the scalars, vectors and arrays present when it was saved whatever happens to the live fields afterwards, states are numbered in the order they were saved, the current state is returned when none was saved, and a state that does not exist is refused; for every history of norms the Newton-Raphson stopping measures are the absolute and relative change from the previous iteration's norm (none at the first), non-finite norms and unknown criterion names are refused, and the diagnostics file lists every iteration and the reason the iteration stopped, or nothing when output is off; for every parameter list, optional look-ups return the given value or else the default and required look-ups refuse a missing one.",
 INP, "all histories of states and norms, all parameter lists",
 "Aliasing between a saved state and the live fields, or a stale reference norm, only shows after a particular sequence of calls.",
 ["PlatoStaticsTypes.hpp", "NewtonRaphsonUtilities.hpp", "ParseTools.hpp"],
 [("saved states", "PlatoStaticsTypes.hpp DataMap"), ("stopping measures", "NewtonRaphsonUtilities.hpp"), ("parameter look-up", "ParseTools.hpp")],
 SAN + "a shadow copy of every saved state and a reference model of the bookkeeping as oracle", N0)
prop("C21", "Stabilised mixed problems converge to the coupled fixed point and give exact total gradients",
 "For every mesh, numbering, block layout, isotropic (thermo)elastic material up to near incompressibility, pressure and temperature scaling, penalty model of the equations and of the projection, density field, load list and essential condition list, stabilised mechanics and thermomechanics assemble the mixed displacement-pressure(-temperature) residual and the pressure-gradient projection residual exactly, with exact derivatives with respect to state, projected gradient, densities and coordinates (assembled, transposed and cell by cell); the solver's state after any number of iterations is that of alternating the row-summed projection with the mixed solve, takes the prescribed values exactly and converges to their coupled fixed point; criteria over the steps have exact values, and at the fixed point the total density and coordinate gradients (for loads that do not follow the geometry) are the derivatives of re-solving the coupled problem; solving or differentiating again repeats the results, inputs are never modified, requested output fields hold every cell's value, and inconsistent input is refused.",
 INP, "all meshes, materials, scalings, penalties, loads, iteration and step counts and call orders",
 "The projection's adjoint only matters when the projected gradient varies and enough iterations are taken; tests run two iterations and compare gold numbers.",
 ["EllipticVMSProblem.hpp", "VectorFunctionVMS.hpp", "StabilizedMechanics.hpp", "StabilizedThermomechanics.hpp", "Projection.hpp", "StabilizedElastostaticResidual.hpp", "StabilizedThermoelastostaticResidual.hpp", "StabilizedElastostaticEnergy.hpp", "PressureGradientProjectionResidual.hpp", "Kinetics.hpp", "TMKinetics.hpp", "ProjectToNode.hpp", "Plato_Solve.hpp", "PlatoMathHelpers.hpp", "elliptic/SolutionFunction.hpp"],
 [("staggered solve", "EllipticVMSProblem.hpp solution"), ("adjoint gradients", "EllipticVMSProblem.hpp criterionGradient criterionGradientX"), ("mixed residual", "StabilizedElastostaticResidual.hpp StabilizedThermoelastostaticResidual.hpp"), ("projection", "PressureGradientProjectionResidual.hpp")],
 "AddressSanitizer and Kokkos bounds checks on whole staggered solves, with an independent assembly, staggered iteration and coupled solution as oracle", N1)
prop("C23", "Elastoplastic load histories return to the yield surface, stay in equilibrium and give exact total gradients",
 "For every mesh, numbering, block layout, isotropic (thermo)elastic material with J2 yielding and isotropic or kinematic hardening (either may be absent), pressure and temperature scaling, penalty exponents and floors, density field, load list, essential condition list (fixed or varying in time), number of pseudo time steps, end time and refinement rule, (thermo)plasticity problems step through the history so that at every step every cell's plastic state is elastic below yield and returned exactly to the yield surface above it, the mixed displacement-pressure(-temperature) residual with the load scaled by the pseudo time and the row-summed projection of the previous step's pressure gradient vanishes at every unconstrained degree of freedom, and prescribed values are taken exactly, up to the end time; the local and global residuals and the elastic and plastic work criteria (and weighted sums) have exact values and exact derivatives with respect to current and previous global and local states, projected pressure gradient, densities and coordinates; criterion values are sums over the steps, and total density and coordinate gradients (for loads that do not follow the geometry) are the derivatives of re-solving the whole history; a history that does not converge within the allowed number of steps is refused rather than evaluated; solving or differentiating again repeats the results, saved displacements, pressures, temperatures, reaction forces and requested cell outputs are those of their step, inputs are never modified, and inconsistent input is refused.",
 INP, "all meshes, materials, hardening laws, scalings, penalties, loads, step counts, refinements and call orders",
 "Adjoint and history terms only show over several steps that flow, with pressure gradients and loads active; tests compare gold numbers for one material and gradient norms with loose tolerances.",
 ["PlasticityProblem.hpp", "NewtonRaphsonSolver.hpp", "PathDependentAdjointSolver.hpp", "LocalVectorFunctionInc.hpp", "GlobalVectorFunctionInc.hpp", "J2PlasticityLocalResidual.hpp", "J2PlasticityUtilities.hpp", "InfinitesimalStrainPlasticityResidual.hpp", "InfinitesimalStrainThermoPlasticityResidual.hpp", "ElasticWorkCriterion.hpp", "PlasticWorkCriterion.hpp", "BasicLocalScalarFunction.hpp", "WeightedLocalScalarFunction.hpp", "ComputeCauchyStress.hpp", "ThermoPlasticityUtilities.hpp", "ComputeElasticWork.hpp", "DoubleDotProduct2ndOrderTensor.hpp", "BLAS3.hpp"],
 [("load stepping", "PlasticityProblem.hpp solution solveForwardProblem"), ("Newton iteration", "NewtonRaphsonSolver.hpp solve"), ("adjoint history", "PlasticityProblem.hpp backwardTimeIntegration, PathDependentAdjointSolver.hpp"), ("return map", "J2PlasticityLocalResidual.hpp updateLocalState"), ("mixed residual", "InfinitesimalStrainPlasticityResidual.hpp evaluate")],
 "AddressSanitizer and Kokkos bounds checks on whole load histories, with an independent radial return, mixed assembly and re-tracked history as oracle", N1)
prop("C24", "Runs build the problem their input names and write every step of its whole solution",
 "For every supported physics and PDE keyword (mechanical elliptic and hyperbolic, thermal and thermomechanical elliptic and parabolic, electromechanical, stabilized mechanical and thermomechanical, plasticity and thermoplasticity), mesh, numbering, step count and solution, the output holds one record per step, in order, in which every degree of freedom of every node appears under the name of its quantity (Displacements, Temperature, Pressure, Potential, and Velocity and Acceleration where the solution has rates) with the values of that step, together with every saved element field of that step and, when written with it, the control; the driver reads the named mesh, builds the problem the keywords name with its essential conditions and writes the solution of that problem at full density; physics, PDE keywords, spatial dimensions and meshes that are missing, unknown or unsupported are refused with an error instead of producing nothing or another problem's results, and neither solution nor control is modified.",
 INP, "all physics keywords, meshes, step counts, solutions and saved fields",
 "A swapped offset, a skipped step or a keyword routed to the wrong problem shows only for that physics and only in the written file, which tests never read back.",
 ["AnalyzeOutput.hpp", "OmegaHUtilities.hpp", "PlatoDriver.hpp", "PlatoProblemFactory.hpp"],
 [("output dispatch", "AnalyzeOutput.hpp output write"), ("element fields", "OmegaHUtilities.hpp add_element_state_tags"), ("problem construction", "PlatoProblemFactory.hpp create"), ("driver", "PlatoDriver.hpp driver run")],
 "AddressSanitizer and Kokkos bounds checks on whole runs with recorded output, compared record by record with the solution of the directly built problem", N1)
prop("C25", "Level set geometries move, measure and record the interface they describe",
 "For every simplex mesh in 2D and 3D, numbering, level set field, element or nodal speed field, interface width and step: the enclosed volume, interface area and volume rate are the integrals of the smoothed step and its derivative over the mesh, evaluated at the requested level, and leave the field unchanged; one step of motion lowers the field by the step times the upwind speed times gradient magnitude, so that a plane front advances at a rate between the smallest and largest speed, the other stored state is kept, and redistancing changes no plane distance field, stops at its iteration limit or tolerance and reports the residual near the interface; initial fields, speeds, offsets and normalisations take the values the given functions have at the nodes or cell centres. A burning geometry built on them reports the area and mass production of its current interface and, after N steps, writes N+1 records (the initial interface and one after each step) with the times they belong to, for every history and again after its geometry is set anew; coordinates, connectivity, level set or burn rate files that are missing, incomplete, too short or too long are refused with an error.",
 INP, "all meshes, level set and speed fields, widths, step histories and input files",
 "The tests run one circle and look at one number; wrong upwinding, an overwritten state or a record beyond the allocated history needs other fields, speeds or step counts.",
 ["HamiltonJacobi.hpp", "Plato_LevelSetOnExternalMesh.hpp", "Plato_LevelSetCylinderInBox.hpp", "Plato_BuildMesh.hpp"],
 [("measures", "HamiltonJacobi.hpp level_set_integral level_set_volume_rate_of_change"), ("motion and redistancing", "HamiltonJacobi.hpp evolve_level_set assemble_and_update_Eikonal reinitialize_level_set"), ("burning geometries", "Plato_LevelSetOnExternalMesh.hpp Plato_LevelSetCylinderInBox.hpp evolveGeometry output"), ("input files", "Plato_BuildMesh.hpp read_data read_coordinates read_connectivity")],
 "AddressSanitizer and Kokkos bounds checks on random fields and whole burning histories, compared with an independent upwind scheme, exact plane fronts and the recorded output", N1)
prop("C26", "Mesh maps carry the field at each node's mirror image, filter it as a weighted mean, and transpose exactly",
 "For every tetrahedral mesh, numbering, symmetry plane (or no map), filter radius, order of filter and map, and nodal field: a node on the positive side of the plane keeps its value, any other receives the linear interpolation of the field at its mirror image (exactly, whichever cells share the point and in whatever order a search returns them; affine fields also just outside the mesh, and zero where no cell is near); the linear filter gives each node the mean of all nodes within the radius, weighted by radius minus distance; constant fields are kept; map and filter are applied in the requested order; the transposed application is the exact adjoint of the forward one; neither changes its input and repeating an application repeats its result; a missing, doubled or unknown map, a plane without a normal and a filter radius that is not positive are refused.",
 INP, "all meshes, planes, radii, orders and fields",
 "The tests use one structured mesh on which every candidate cell gives the same answer; other meshes and planes need the right cell and meet points with none.",
 ["Plato_MeshMap.hpp"],
 [("mirror image and parent search", "Plato_MeshMap.hpp findParentElements SymmetryPlane"), ("interpolation matrix", "Plato_MeshMap.hpp setMatrixValues GetBasis"), ("filter", "Plato_MeshMap.hpp createLinearFilter setLinearFilterMatrixValues"), ("application and transpose", "Plato_MeshMap.hpp apply applyT createTranspose")],
 "AddressSanitizer, Kokkos and shim bounds checks on random meshes with randomised search order, compared with an exhaustive search, independent interpolation and the adjoint identity", N1)
prop("C27", "The coupled application answers for the control, parameters and problem it was last given",
 "For every history of operations a host optimizer runs (importing controls and parameters, solving, evaluating criteria and gradients, switching between problem definitions and meshes, reinitialising, reloading, updating and exporting any number of times): every exported value is the criterion of the definition in use at the imported control (carried through the mesh map if there is one) with the parameters last imported, less the operation's target; every exported gradient is that criterion's gradient, per node and spatial component, transposed through the mesh map, so it is the derivative of the exported value with respect to the imported control, and exporting it again gives the same numbers; solution components are those of the last step by the physics' own dofs; element fields are those of the solution; an operation with a target parameter changes exactly that entry of its definition, and the change survives a rebuild; gradients mapped onto design parameters and finite differences are what their inputs define; native, HDF5 and visualization output hold the same fields as the exports; unknown operations, values, parameters and contexts, ambiguous argument names, missing criteria and doubled blocks are refused.",
 HIS, "all sequences of operations, problem definitions, meshes, controls, parameters and targets",
 "The application is exercised only inside a coupled run with the host; tests sample no sequence of its operations.",
 ["Analyze_App.hpp", "Analyze_App.cpp", "PlatoProblemFactory.hpp", "alg/ParseInput.cpp"],
 [("imports", "Analyze_App.hpp importScalarField importScalarParameter importScalarValue"), ("exports", "Analyze_App.hpp exportScalarField exportElementField exportScalarValue"), ("operations", "Analyze_App.cpp MPMD_App::ComputeCriterion* ComputeSolution MapCriterionGradientX"), ("definitions and rebuilds", "Analyze_App.cpp createProblem resetProblemMetaData compute Reinitialize ReloadMesh"), ("parameters", "Analyze_App.cpp parseInline getInnerList setParameterValue"), ("files", "Analyze_App.cpp OutputToHDF5 Visualization getScalarFieldHostMirror")],
 "AddressSanitizer and Kokkos bounds checks on random histories, with a model that solves each problem afresh for every operation and finite differences of the exported values", N1)
prop("C28", "A linear solve returns the solution of the system it was given, or refuses the system",
 "For every block system that fits the mesh (any number of nodes and dofs per node, any sparsity pattern and column order, symmetric or not, with any row scaling) and every solver stack compiled in: the matrix and vectors handed to the library have exactly the entries given, the vector returned solves the system to within the requested tolerance whatever the initial guess and however often the solver has been used before, and the matrix and right hand side are left as they were. The iteration limit, tolerance, solver, preconditioner and options given in the parameters are the ones used and the documented defaults apply otherwise. A matrix or vector that does not match the mesh and dofs per node, and a solver stack, package, solver or preconditioner that is unknown or not compiled in, is refused with an error. Every predefined AmgX configuration is well formed and, except for the default one, carries the requested tolerance, iteration limit and kind of tolerance.",
 INP, "all well-conditioned block systems, sizes, patterns and solver parameters",
 "The few linear solves in the tests use one fixed mesh and tolerance, and none of those tests runs in the build available here.",
 ["alg/EpetraLinearSolver.cpp", "alg/TpetraLinearSolver.cpp", "alg/PlatoSolverFactory.cpp", "alg/ParallelComm.cpp", "alg/AmgXConfigs.cpp"],
 [("block conversion", "alg/EpetraLinearSolver.cpp EpetraSystem::fromMatrix fromVector toVector"), ("parameters", "alg/EpetraLinearSolver.cpp setupSolver solve"), ("Tpetra conversion and solve", "alg/TpetraLinearSolver.cpp TpetraSystem::fromMatrix TpetraLinearSolver::solve"), ("choice of stack", "alg/PlatoSolverFactory.cpp determineSolverStack SolverFactory::create")],
 "AddressSanitizer and Kokkos bounds checks on random block systems and parameters, with a dense direct solve as the oracle and column-by-column comparison of the operators handed over", N1)
prop("C29", "Kernels carry exact derivatives under automatic differentiation",
 "For every kernel that the sensitivity analysis evaluates on automatic-differentiation numbers (kinematics, interpolation and projection, internal-force divergences, deviators, Cauchy stress and elastic work with design-dependent moduli, von Mises stress, eigenvalues, norms, stabilization, tensile energy, linear and temperature-dependent thermal laws, inertial, damping and frequency-domain kernels, penalty weightings and projections, plasticity normals, residuals and elastic strains), in 1D, 2D and 3D and whichever of its arguments are differentiated (state, configuration or control, or both): the value is the one obtained with plain numbers, and every derivative carried equals the derivative of that value in the direction seeded, for all directions at once, wherever the function is differentiable.",
 INP, "all arguments at which the kernel is differentiable, all seed directions and combinations of differentiated arguments",
 "Tests evaluate kernels on plain numbers or check one gradient on one mesh; a lost, doubled or mixed derivative leaves every value right.",
 ["TMKinematics.hpp", "StressDivergence.hpp", "TensorPNorm.hpp", "Eigenvalues.hpp", "ThermalFlux.hpp", "MaterialModel.hpp", "ApplyWeighting.hpp", "J2PlasticityUtilities.hpp"],
 [("kinematics and forces", "TMKinematics.hpp StressDivergence.hpp FluxDivergence.hpp operator()"), ("measures", "TensorPNorm.hpp Eigenvalues.hpp VonMisesYieldFunction.hpp operator()"), ("laws", "ThermalFlux.hpp ThermalContent.hpp MaterialModel.hpp operator()"), ("penalties", "ApplyWeighting.hpp Simp.hpp Ramp.hpp Heaviside.hpp operator()"), ("plasticity", "J2PlasticityUtilities.hpp ThermoPlasticityUtilities.hpp")],
 "AddressSanitizer and Kokkos bounds checks on kernels run on plain and differentiated numbers, with two-step-size fourth-order differences of the plain run as the oracle", N0)
