"""What each property says, where it is anchored and what its check covers."""
S = "src/hyperelastic/"
FW = [S + "frameworks/"]
EXACT = "arithmetic is exact real arithmetic (float64 rounding is outside the claim); inputs are float64 arrays"
REPLAY = "every counterexample is replayed with the real package (numpy, scipy, torch) before it is reported; sampled points of every explored path are compared with the real package"
SHAPES = "trailing (batch) shapes are enumerated: those listed with each scenario in the evidence"
EIGH = "numpy.linalg.eigh is replaced by its documented contract: ascending eigenvalues and an orthonormal eigenvector frame, which is arbitrary (Cayley parametrisation with sign variants)"
EINSUMT = "einsumt's own source is executed symbolically; its thread pool is run synchronously with the stated number of workers"


def m(*a):
    return [{"name": n, "where": w} for n, w in a]


P = {}


def prop(id, title, statement, over, text, why, files, mech, bounds, assume=(), observe=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                 files=[S + f for f in files], mech=m(*[(n, S + w) for n, w in mech]), bounds=bounds,
                 assume=[EXACT, REPLAY, SHAPES] + list(assume), observe=list(observe))


INV = "frameworks/_invariants.py"
STR = "frameworks/_stretches.py"
GEN = "frameworks/_generalized.py"
GIM = "models/stretches/_generalized_invariants.py"
SP, DEF, DIS, DIL = ("spaces/_space.py", "spaces/_deformation.py", "spaces/_distortional.py", "spaces/_dilatational.py")
VO = "math/_voigt.py"

prop("C01", "Invariant-based stress is the derivative of the energy",
     "For every energy of the three invariants of the right Cauchy-Green tensor and every symmetric positive definite deformation tensor, the stress returned by the invariants framework is the derivative of that energy with respect to the deformation tensor. Invariants whose derivative the material omits contribute nothing.",
     ["inputs", "configurations"], "all SPD deformation tensors, all first/second derivative values of the energy, all subsets of used invariants, batch shapes",
     "The tests compare a handful of random deformations of two materials with another library; the quantifier is over every tensor and every energy.",
     [INV], [("Invariants.gradient", INV)],
     "C: any SPD tensor (6 independent components); energy: all first and second derivatives arbitrary reals (which covers any twice differentiable energy at a point); 7 subsets of invariants; shapes (), (1,), (2,), (1,2), (3,), (6,)")

prop("C02", "Invariant-based elasticity is the second derivative of the energy",
     "For every energy of the three invariants and every deformation tensor, the elasticity tensor returned by the invariants framework is the second derivative of that energy with respect to the deformation tensor. Second derivatives which the material omits count as zero, each independently of the others.",
     ["inputs", "configurations"], "all SPD deformation tensors, all first/second derivative values, all subsets of used invariants and of provided second derivatives",
     "Tests only compare a few random points for materials whose third-invariant terms vanish; a wrong term in any of the six second-derivative contributions can survive them.",
     [INV], [("Invariants.hessian", INV)],
     "as for the stress; plus each single second derivative provided alone")

prop("C03", "Stretch-based stress is the derivative of the energy",
     "For every isotropic energy of the principal stretches and every symmetric positive definite deformation tensor, the stress returned by the stretches framework is the derivative of that energy with respect to the deformation tensor. This includes coincident principal stretches and any orientation of the principal axes.",
     ["inputs"], "all SPD deformation tensors with distinct, pairwise equal or all equal eigenvalues, all orientations, all energy derivatives consistent with isotropy",
     "Tests reach a few random deformations; coincident stretches and special orientations are measure-zero for sampling.",
     [STR, VO], [("Stretches.gradient", STR), ("eigh", VO)],
     "eigenvalue patterns distinct/low pair/high pair/all equal; any rotation (Cayley); distinct squared stretches differ by at least 1e-6, equal ones are exactly equal; energy derivatives arbitrary", [EIGH])

prop("C04", "Stretch-based elasticity is the second derivative, also at equal stretches",
     "For every isotropic energy of the principal stretches and every deformation tensor, the elasticity tensor returned by the stretches framework is the second derivative of that energy. If two or three principal stretches coincide, it is the limit of the second derivative and stays finite.",
     ["inputs"], "all SPD deformation tensors with distinct, pairwise equal or all equal eigenvalues, all orientations, all energy derivatives consistent with isotropy",
     "Coincident stretches are a measure-zero branch of the code; tests reach it at the undeformed state only.",
     [STR, VO], [("Stretches.hessian (incl. the branch for equal stretches)", STR), ("eigh, cdya", VO)],
     "as for the stretch-based stress; energies with omitted mixed derivatives, list and array results", [EIGH])

prop("C05", "Generalized-invariants materials give consistent stress and stiffness",
     "For every one-dimensional strain-stretch relation and every energy of the invariants of the resulting principal strains, the first and second derivatives with respect to the principal stretches are those of the composed energy. The resulting stress and elasticity with respect to the deformation tensor are its first and second derivatives.",
     ["inputs", "configurations"], "all stretches, all strain values and derivatives, all energy derivatives, all subsets of invariants, equal and distinct stretches",
     "Tests use one strain measure and random points, and no energy which depends on the third strain invariant.",
     [GIM, GEN, STR], [("GeneralizedInvariantsModel.gradient/hessian", GIM), ("GeneralizedInvariants", GEN)],
     "model level: any three stretches, any values/derivatives of the strain relation at them, any energy derivatives, 7 subsets of invariants; framework level: eigenvalue patterns and rotations as for the stretches framework", [EIGH])

prop("C06", "Generalized strain invariants are normalised at the undeformed state",
     "At the undeformed state the generalized strain invariants take the values of three equal undeformed strains. The initial shear modulus is the one obtained with the reference strain measure, whatever strain measure is chosen.",
     ["inputs", "configurations"], "all strain relations (values and derivatives at one) for energies of the first two invariants; Seth-Hill strains and deformations with any exponent for energies of all three",
     "Tests check one exponent; the normalisation factors must be right for every strain measure.",
     [GIM, "models/generalized/_stretch.py"], [("GeneralizedInvariantsModel.__init__ (c1, c2, I10, I20)", GIM), ("strain, deformation", "models/generalized/_stretch.py")],
     "undeformed state; arbitrary strain triple at one and for the reference; exponents any non-zero real")

prop("C07", "Distortional space: stress and tangent of the volume-preserving part",
     "For every material and every deformation gradient with positive determinant, stress and tangent of the distortional space are the derivatives of the material's energy evaluated at the isochoric part of the deformation. This holds whatever the magnitude of the material's stiffness.",
     ["inputs", "configurations"], "all F with det F > 0, all material stress and elasticity values, several batch shapes, stiffness scales 2^-60 to 2^60",
     "Tests compare a few random deformations for two materials of order-one stiffness.",
     [DIS, SP, VO], [("Distortional.gradient/hessian", DIS), ("Space.piola", SP)],
     "F: 9 free components; material stress g + H:C with arbitrary g, H (any first/second derivative at a point); shapes (), (1,), (2,), (1,2)", [EINSUMT])

prop("C08", "Dilatational space: stress and tangent of the volumetric part",
     "For every material and every deformation gradient with positive determinant, stress and tangent of the dilatational space are the derivatives of the material's energy evaluated at the volumetric part of the deformation.",
     ["inputs", "configurations"], "all F with det F > 0, all material stress and elasticity values, several batch shapes",
     "There is a single smoke-like comparison in the tests for this space.",
     [DIL, SP, VO], [("Dilatational.gradient/hessian", DIL), ("Space.piola", SP)],
     "as for the distortional space", [EINSUMT])

prop("C09", "Deformation space: stress and tangent of the total deformation",
     "For every material and every deformation gradient with positive determinant, stress and tangent of the deformation space are the first and second derivatives of the material's energy at the total deformation.",
     ["inputs", "configurations"], "all F with det F > 0, all material stress and elasticity values, several batch shapes",
     "Tests compare a few random deformations.",
     [DEF, SP, VO], [("Deformation.gradient/hessian", DEF), ("Space.piola", SP)],
     "as for the distortional space", [EINSUMT])

prop("C10", "Force and area configurations of stress and tangent",
     "For every choice of undeformed or deformed force and area configuration, and for unfinalized results, the returned stress and tangent are the push-forwards of one and the same second Piola-Kirchhoff stress and its elasticity. Material results which are constant over the points are accepted in every configuration.",
     ["inputs", "configurations"], "all F with det F > 0, all stress and elasticity values, all four configurations plus unfinalized, three spaces, per-point and constant material results",
     "The tests only run the non-default configurations without comparing values.",
     [SP, DEF, DIS, DIL], [("Space.piola", SP)],
     "as for the spaces, 4 configurations x 3 spaces, batch shapes (1,), (2,); thorough adds (), (1,2)", [EINSUMT])

prop("C14", "Reduced storage is a faithful copy of symmetric tensors",
     "Converting symmetric second-order or minor-symmetric fourth-order tensors to the reduced storage and back returns the same components in the documented order 11, 22, 33, 12, 23, 13. Copying one triangle of a matrix to the other one leaves everything else untouched and writes only to the given target.",
     ["inputs"], "all components, all enumerated batch shapes, all targets (new array, other array, in place)",
     "Tests round-trip random tensors of one shape.",
     [VO], [("asvoigt, astensor", VO), ("tril_from_triu, triu_from_tril", VO)],
     "all components free; shapes (), (1,), (2,), (2,3), (1,2,1); triangle sizes 3, 6, 9")

prop("C15", "Tensor algebra in reduced storage equals full tensor algebra",
     "Trace, determinant, inverse, deviator, identity, transpose, dot and double-dot products of tensors in reduced storage equal the same operations on the full tensors. This holds for every pair of broadcastable batch shapes, and operands are left unchanged unless they are the given target.",
     ["inputs"], "all components (non-zero determinant for the inverse), all enumerated pairs of batch shapes, all product modes",
     "Tests compare random tensors of one batch shape.",
     [VO], [("trace, det, inv, dev, eye, transpose, dot, ddot", VO)],
     "all components free; 7 shapes, 10 pairs of shapes (thorough more); dot mode (2,2) (others are not implemented by the package)")

prop("C16", "Dyadic products in reduced storage",
     "The dyadic and the (symmetrised) crossed-dyadic products equal their definitions for symmetric operands. This includes identical operands, preallocated results, and broadcastable batch shapes with the same number of axes.",
     ["inputs"], "all components of both operands, identical operands, with and without given target",
     "Tests compare random operands of one batch shape.",
     [VO], [("dya, cdya, cdya_ik, cdya_il", VO)],
     "all components free; shape pairs as listed in the evidence; targets with arbitrary previous content")

prop("C17", "Eigenvalues and eigenbases reproduce the tensor",
     "The eigenvalues and eigenbases of every symmetric tensor are in ascending order and reproduce the tensor. The eigenbases are mutually orthogonal projectors which add up to the identity, also for coincident eigenvalues; a given function is applied to the eigenvalues only.",
     ["inputs"], "all symmetric tensors: all eigenvalue patterns, all orientations, batch shapes",
     "Tests decompose one set of random tensors.",
     [VO], [("eigh", VO)],
     "eigenvalue patterns distinct/low pair/high pair/all equal, any rotation; batches up to 6 points with mixed patterns", [EIGH])

prop("C21", "Third-order deformation material implements its polynomial",
     "For all material parameters, including zero ones, and all invariants the derivatives returned by the third-order deformation material are those of its documented polynomial. Derivatives which are reported as absent are identically zero.",
     ["inputs", "configurations"], "all parameter values and invariants; every subset of vanishing parameters; both reference values of the invariants",
     "Tests use two parameter sets; which terms are skipped depends on which parameters vanish.",
     ["models/invariants/_third_order_deformation.py"], [("ThirdOrderDeformation.gradient/hessian", "models/invariants/_third_order_deformation.py")],
     "5 parameters and 3 invariants free; all 32 zero/non-zero parameter patterns are explored as paths")

prop("C22", "Ogden material implements its energy",
     "For all moduli, all non-zero real exponents and all positive principal stretches the derivatives returned by the Ogden material are those of its documented energy, for any number of terms. Mixed second derivatives are absent since the energy is separable.",
     ["inputs", "configurations"], "all moduli, real exponents and stretches; up to three terms (thorough: six)",
     "Tests use one parameter set with the exponents of another library.",
     ["models/stretches/_ogden.py"], [("Ogden.gradient/hessian", "models/stretches/_ogden.py")],
     "0 to 3 terms (thorough: up to 6), exponents symbolic reals of either sign, stretches > 0; list, tuple and array parameters")

prop("C23", "Strain measures return their own derivatives and reference values",
     "For all stretches and all non-zero real exponents the generalized strain and deformation measures return their value and first and second derivative with respect to the stretch. The reference values are those of the quadratic (Green-Lagrange type) measure at the undeformed state.",
     ["inputs"], "all positive stretches, all non-zero real exponents",
     "Tests evaluate a few exponents.",
     ["models/generalized/_stretch.py"], [("strain, deformation", "models/generalized/_stretch.py")],
     "stretches > 0; exponent symbolic of either sign, and the integers -5..8 listed in the evidence")

prop("C25", "Load cases: isochoric deformation and traction-free normal force",
     "For every positive stretch each load case returns the diagonal deformation gradient of its kind with determinant one. The normal force per undeformed area is the one obtained by eliminating the pressure from the traction-free direction, for every stress and independent of a superposed hydrostatic pressure.",
     ["inputs"], "all stretches, all stresses, all axis pairs",
     "Tests run the load cases on one stretch range without comparing values.",
     ["lab/_load_case.py"], [("Uniaxial, Biaxial, Planar .defgrad", "lab/_load_case.py"), ("IncompressibleHomogeneousStretch.stress", "lab/_load_case.py")],
     "stretches > 0; all stress components free; axes 0..2, traction-free -3..2")

prop("C26", "Experiments and simulations evaluate stress-stretch data",
     "Experiments convert any displacement and force data to stretch and force per undeformed area. Simulations evaluate the material with exactly the labelled parameters at the load case's deformation, and reproduce the closed-form solutions for the built-in materials.",
     ["inputs", "configurations", "histories"], "all data values and containers, areas, lengths, stretches, parameters, materials; changed parameters are used on the next evaluation",
     "Tests run one data set without comparing values.",
     ["lab/_experiment.py", "lab/_simulation.py", "lab/_load_case.py"], [("Experiment", "lab/_experiment.py"), ("Simulation.stress_curve_fit/stress", "lab/_simulation.py")],
     "up to 4 data points, up to 4 parameters, any material (stress an arbitrary affine function of F with parameter-dependent coefficients at a point); closed forms: third-order deformation and one-term Ogden in the deformation and distortional space, any stretch", [EIGH])

prop("C27", "Parameter fit bookkeeping around any optimiser result",
     "The fit hands the optimiser the concatenated masked data of all experiments, the initial parameters and the given options, with an objective which simulates each experiment at its own stretches. Whatever parameters and covariance the optimiser returns, the stored parameters, errors, residuals and error measures, and all simulations, belong to exactly that result.",
     ["inputs", "histories", "configurations"], "all data, all optimiser results, all trial points the optimiser may evaluate, masks, repeated fits, list/tuple/array initial parameters",
     "Tests run a single fit with a real optimiser and one data set.",
     ["lab/_optimize.py", "lab/_curve_fit.py"], [("Optimize.init_curve_fit/curve_fit/norm_residuals/mean_relative_std", "lab/_optimize.py"), ("concatenate_curve_fit", "lab/_curve_fit.py")],
     "1 to 3 experiments with 2 to 3 points, 1 to 3 parameters, one or two consecutive fits; masks which drop, reorder or repeat points; options by keyword and by position",
     ["scipy.optimize.curve_fit is a stub: it evaluates the objective at an arbitrary trial point and at its result, and returns arbitrary parameters and an arbitrary covariance with positive diagonal", "at least one residual is non-zero; fitted parameters are non-zero"])

prop("C28", "Threaded evaluation gives the same results",
     "Stress and tangent are the same with and without threaded evaluation, for every space and configuration. The number of worker threads does not matter.",
     ["inputs", "configurations"], "all F with det F > 0, all material results, worker counts 1, 2, 3, 8, batch shapes",
     "Tests enable it once, with the default number of workers and one batch shape.",
     [SP, DEF, DIS, DIL], [("einsum/einsumt selection in Space.piola and the spaces", SP)],
     "as for the spaces; workers 1, 2, 3, 8 run one after another (data races inside a worker are outside the claim)", [EINSUMT])

prop("C11", "Complete formulations: stress and tangent follow from the energy",
     "For a complete formulation - material model, framework and space together - the first Piola-Kirchhoff stress and its tangent are the first and second derivatives of the strain energy with respect to the deformation gradient. So the stress is consistent with the energy and the tangent with the stress at every deformation gradient with positive determinant.",
     ["inputs", "configurations"], "all F with det F > 0; every energy of the invariants in all three spaces; every energy of the principal stretches in the deformation space; built-in polynomial and Ogden materials with all parameters",
     "Tests compare a few random deformations per material; inconsistencies between the layers show only for particular combinations of model, framework and space.",
     [INV, STR, DEF, DIS, DIL, SP, "models/invariants/_third_order_deformation.py", "models/stretches/_ogden.py"],
     [("gradient/hessian of the spaces", SP), ("Invariants.gradient/hessian", INV), ("Stretches.gradient/hessian", STR), ("ThirdOrderDeformation", "models/invariants/_third_order_deformation.py"), ("Ogden", "models/stretches/_ogden.py")],
     "F: 9 free components (invariants); F = Q diag(lam) N^T (stretches; patterns distinct/low pair/high pair/all equal); 7 subsets of invariants x 3 spaces; polynomial material with every single parameter and with all five; two-term Ogden; generic points only, i.e. branches taken where a computed elasticity vanishes identically belong to the single-layer properties; stretch-based materials only in the deformation space (the other spaces are covered layer by layer)", [EIGH])

prop("C12", "Objectivity and isotropy",
     "Superposing a rigid rotation on any deformation rotates stress and tangent with it, for every material and every space. For the isotropic frameworks a rotation of the reference configuration rotates stress and elasticity in the same way.",
     ["inputs", "configurations"], "all F with det F > 0, all deformation tensors, all rotations about each axis (products of which give every rotation), all materials",
     "Tests never rotate anything; an error in a single off-diagonal entry breaks frame indifference only for general rotations.",
     [SP, DEF, DIS, DIL, INV, STR, VO], [("gradient/hessian of the spaces", SP), ("Invariants.gradient/hessian", INV), ("Stretches.gradient/hessian", STR)],
     "rotations about the three coordinate axes by any angle (tan of the half angle free) and half turns; materials g + H:C, all energies of the invariants, all energies of the stretches (patterns distinct/low pair/high pair/all equal); one point; generic points only (see C11)", [EIGH])

prop("C13", "Balance of angular momentum and major symmetry",
     "For every material the Kirchhoff stress is symmetric and the tangent has major symmetry, in every space and configuration. The elasticity tensors returned by the frameworks have major symmetry, also at equal principal stretches.",
     ["inputs", "configurations"], "all F with det F > 0, all materials, spaces and configurations, batch shapes",
     "Tests compare values at random points for two materials only.",
     [SP, DEF, DIS, DIL, INV, STR], [("Space.piola", SP), ("Invariants.hessian", INV), ("Stretches.hessian", STR)],
     "material g + H:C with any g and major-symmetric H; shapes (1,), (2,), (1,2); four configurations x three spaces; generic points only (see C11); frameworks: all energies, eigenvalue patterns as for C04", [EIGH])

prop("C29", "Superposition and independence of the unit system",
     "Stress and tangent are linear in the material: the response of a combination of two materials is the combination of their responses, in every space and framework. In particular results scale with the unit of stress, however small or large.",
     ["inputs", "configurations"], "all F with det F > 0, all pairs of materials and factors, spaces and configurations; stress units 2^-60 to 2^60",
     "Tests use moduli of order one; thresholds hidden in branch conditions only show for other magnitudes.",
     [SP, DEF, DIS, DIL, INV, STR], [("gradient/hessian of the spaces", SP), ("Invariants.gradient/hessian", INV), ("Stretches.gradient/hessian", STR)],
     "two arbitrary materials g + H:C with any factor; unit factors 2^-60, 2^-30, 2^60; energies of different subsets of invariants; all energies of the stretches; one point; generic points only (see C11)", [EIGH])

prop("C30", "Volume split and initial moduli",
     "In the distortional space the stress has no pressure and does not depend on the volume; in the dilatational space it is a pressure. Every isotropic material in the distortional space is stress-free under rigid rotation and uniform dilation, with the documented initial shear modulus: 2 (dpsi/dI1 + dpsi/dI2) for energies of the invariants, 2 (C10 + C01) for the polynomial and the sum of the moduli for the Ogden material.",
     ["inputs", "configurations"], "all F with det F > 0, all materials, all rotations and dilations, all parameters",
     "Tests check the undeformed state of one material.",
     [DIS, DIL, INV, STR, "models/invariants/_third_order_deformation.py", "models/stretches/_ogden.py"], [("Distortional.gradient/hessian", DIS), ("Dilatational.gradient/hessian", DIL), ("ThirdOrderDeformation", "models/invariants/_third_order_deformation.py"), ("Ogden", "models/stretches/_ogden.py")],
     "any rotation (Cayley) and dilation; one point; eigenvectors of a multiple of the identity: any frame at the undeformed state, the coordinate axes elsewhere (thorough: any)", [EIGH])

TOR = "models/invariants/_torch.py"
OGD = "models/stretches/_ogden.py"
TODF = "models/invariants/_third_order_deformation.py"

prop("C18", "Points are evaluated independently of the batch",
     "Evaluating many points at once gives at every point exactly what evaluating that point alone gives, for every space, framework, model and batch shape. This holds also when the points differ in kind, such as distinct and coincident principal stretches in one batch, and however the argument array is stored in memory.",
     ["inputs", "configurations"], "all points of a batch, all materials, batches mixing eigenvalue patterns, shapes with one and with two trailing axes and single points",
     "Tests use batches of generic random points; leakage between points shows only for special points next to ordinary ones.",
     [SP, DEF, DIS, DIL, INV, STR, GEN, GIM, TODF, OGD], [("gradient/hessian of the spaces", SP), ("Invariants.gradient/hessian", INV), ("Stretches.gradient/hessian", STR), ("GeneralizedInvariants.gradient/hessian", GEN)],
     "batches (2,), (4,), (2,2), (1,2), (2,1) against single points of shape (1,), (1,1) and (); arrays stored in C and Fortran order, as strided and as reversed views; materials g + H:C, any energy of the invariants or stretches, polynomial and Ogden; patterns distinct/low pair/high pair/all equal mixed in a batch; generic points otherwise (see C11)", [EIGH, EINSUMT])

prop("C19", "Evaluations are pure: arguments, models and earlier results stay intact",
     "The result of an evaluation depends only on its argument and the material, not on which evaluations were made before on the same object or on other objects, for arguments of the same or of other batch shapes, nor on what a caller does with earlier results. Evaluations of the materials and of the tensor functions change neither their arguments, nor arrays owned by the material, nor results returned earlier.",
     ["inputs", "histories"], "all arguments and materials; call histories mixing stress and tangent at two different arguments; read-only arguments; materials which hand out their own arrays",
     "Tests call each method once per object; aliasing and stale caches need particular sequences of calls.",
     [SP, DEF, DIS, DIL, INV, STR, GEN, GIM, TODF, OGD, VO], [("gradient/hessian of the spaces", SP), ("Invariants.gradient/hessian", INV), ("Stretches.gradient/hessian", STR), ("GeneralizedInvariants.gradient/hessian", GEN)],
     "call sequences ghGHg and HgGh over two arbitrary arguments (thorough: GGgg, hHhH, gGhHgh as well and batches of two points); sequences in which the caller refills one and the same argument array or list between the calls, overwrites every result, or changes the batch shape between calls (shapes (1,), (2,), (), (2, 1), (1, 2)); all tensor functions except the view `transpose` called again after their results were overwritten; compared with fresh objects; generic points (see C11)", [EIGH, EINSUMT])

prop("C20", "State variables are threaded through every layer",
     "Every layer hands the given state variables to the material unchanged and returns the material's new ones, for the stress and for the tangent. The tangent belongs to the given state: evaluating stress or tangent does not advance or change it.",
     ["inputs", "histories"], "all states, all state-dependent materials, all updates, several steps, with and without state variables",
     "No test uses a material with state variables.",
     [SP, DEF, DIS, DIL, INV, STR, GEN, GIM, TODF, OGD], [("gradient/hessian of the spaces", SP), ("Invariants.gradient/hessian", INV), ("Stretches.gradient/hessian", STR), ("GeneralizedInvariants.gradient/hessian", GEN)],
     "two state variables per point with any values, derivatives scaled by any affine function of the state, any linear update; two steps (thorough: four); spaces, frameworks and the generalized model; None, empty arrays and arbitrary objects are passed through", [EIGH])

prop("C24", "Automatic differentiation returns the derivatives of the given energy",
     "For an energy given as a function of the three invariants, the automatic-differentiation material returns its first and second derivatives at every set of invariants and parameters. Derivatives which vanish may be omitted, whatever invariants the energy uses and however often it is evaluated.",
     ["inputs", "configurations", "histories"], "all invariants and parameters, energies with and without each invariant, linear, polynomial, mixed, rational, logarithmic and exponential; single points and batches; repeated and interleaved calls",
     "Tests use one energy of the first invariant and one mixed one; which derivatives exist depends on the structure of the energy.",
     [TOR], [("TorchModel.gradient/hessian", TOR)],
     "17 energies and a constant one with three parameters each; shapes (), (1,), (2,) (thorough: also (3,), (1,2), (2,2), (2,1,2)); call sequences of two to six; energies evaluated inside the invariants framework",
     ["torch is a model of reverse-mode differentiation on exact reals (torch.tensor, requires_grad, autograd.grad with unused inputs, retained and freed graphs); every scenario is also run once with the real torch and must agree", "double precision is enabled as documented (torch.set_default_dtype(torch.float64)); the results must then be double precision"])

prop("C31", "Plots draw the evaluated data",
     "The force-displacement and stress-stretch plots of experiments and simulations draw exactly the data, with the given or own label, axis labels and options, on the given or on new axes. The plot of a fit draws every experiment together with its own simulation at the fitted parameters, and reports the fitted parameters, their standard deviations (twice), the norm of the residuals and the mean deviation.",
     ["inputs", "configurations", "histories"], "all data, areas, lengths, materials, parameters and fit results; one to three experiments",
     "Tests create plots without looking at them.",
     ["lab/_plotting.py", "lab/_optimize.py", "lab/_simulation.py", "lab/_experiment.py"], [("LabPlotter.plot_force_displacement/plot_stress_stretch", "lab/_plotting.py"), ("Optimize.plot", "lab/_optimize.py")],
     "2 or 3 data points (thorough: up to 5), three load cases, any material (see C26), any fit result; the wording of the default axis labels and of the text box is outside the claim, as is the rounding of the numbers in it",
     ["matplotlib axes are a recorder of the drawn curves"])

# representative scenarios are repeated on large batches (props/common.py: Large; usage.py: Wide)
for _id in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C15", "C16", "C17", "C21", "C22", "C20", "C24", "C25", "C28"):
    P[_id]["bounds"] += "; large batches of shape (129,), (8,16) and (1030,) (thorough: eleven more shapes up to (2050,)) filled with five different points of any value in an irregular order"
for _id in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C14", "C15", "C16", "C17", "C21", "C22", "C20", "C24", "C25", "C28"):
    P[_id]["bounds"] += "; small special batches (3,), (6,), (3,3), (6,6)"
for _id in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10"):
    P[_id]["bounds"] += "; material coefficients which differ from point to point, entirely or along one batch axis"
P["C18"]["bounds"] += "; large batches of shape (17,), (129,), (8,16) (thorough: up to (2,1030))"
for _id in ("C23", "C26", "C27", "C31"):
    P[_id]["bounds"] += "; some scenarios with large data arrays (67 to 130 points)"

P["C06"]["bounds"] += "; integer exponents"
P["C21"]["bounds"] += "; integer parameters"
P["C22"]["bounds"] += "; integer moduli and exponents"
P["C20"]["bounds"] += "; initial variables of several frameworks and spaces with different numbers of state variables"
P["C24"]["bounds"] += "; two sets of invariants handed over one after the other in the same arrays"
P["C25"]["bounds"] += "; stretches in one or two axes stored in C, Fortran and reversed order"
P["C26"]["bounds"] += "; evaluations of one simulation at several stretch arrays one after the other, also with equal first and last entries or the same refilled array"
P["C27"]["bounds"] += "; mask, forces, start values or experiments changed between two fits; any areas and lengths"
P["C28"]["bounds"] += "; one object used at another point before its first results are read"
P["C26"]["bounds"] += "; two experiments and two simulations with different shapes, parameters or materials set up together and evaluated alternately"
P["C27"]["bounds"] += "; two optimisations set up before either runs"
P["C24"]["bounds"] += "; optional energy terms given by keyword to one of two models"
for _id in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C19", "C21", "C22", "C28"):
    P[_id]["bounds"] += "; two objects with different parameters used alternately; one object at two look-alike arguments (see C19)"
P["C19"]["bounds"] += "; the second argument a look-alike of the first (mirrored, rotated or permuted, the same principal directions or stretches, one component changed, points of a batch in another order)"
P["C31"]["bounds"] += "; empty and changed labels, any areas and lengths, masked fits"

from .histories import TABLE, REFILL, OBJECTS  # noqa: E402
for _id in sorted(set(TABLE) | set(REFILL) | set(OBJECTS)):
    _t = [x for x, on in (("two independent sets of inputs one after the other in one process", TABLE.get(_id)), ("the same arrays refilled", REFILL.get(_id)), ("one object used for several arguments", OBJECTS.get(_id))) if on]
    if _t:
        P[_id]["bounds"] += "; histories of some scenarios: " + ", ".join(_t)
