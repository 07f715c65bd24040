S = "simpeg/"
EM = S + "electromagnetics/"

prop(
    "C01",
    "DC, IP, spectral-IP and SP sensitivities are the exact derivative and adjoint",
    """For every static-electrical simulation (1D, 2D, 3D DC resistivity; 2D and 3D induced polarization; spectral induced
    polarization; self potential) and any model, the Jacobian-vector product equals the directional derivative of the
    predicted data, the transpose product is its exact adjoint, and the explicit Jacobian and the diagonal of its weighted
    normal matrix agree with both. This holds for every receiver separately (pole or dipole, potential, apparent
    resistivity, apparent chargeability, field and current receivers), every source kind and current, every boundary
    condition and discretisation, whether or not sensitivities are stored or the survey is miniaturized, and in any
    order of calls.""",
    "all meshes x surveys x maps x models x directions x call orders",
    """The suite runs one derivative and one adjoint test per simulation class at one fixed mesh, survey and model with
    aggregate norms; a receiver-, source-, map- or call-order-specific error is invisible to it.""",
    [EM + "static/resistivity/", EM + "static/induced_polarization/", EM + "static/spectral_induced_polarization/", EM + "static/self_potential/", S + "base/pde_simulation.py"],
    [("system-matrix and right-hand-side derivatives", EM + "static/resistivity/simulation.py, simulation_2d.py"), ("receiver derivatives", EM + "static/resistivity/receivers.py"), ("field derivatives", EM + "static/resistivity/fields.py"), ("mass-matrix derivatives", S + "base/pde_simulation.py")],
    """checks/c01_static.py. Generator: random tensor / tree meshes, electrodes in distinct cells, 1-3 sources (pole, dipole,
    multipole; any current) with 1-3 receivers each, sigma or rho through several maps, storeJ, miniaturize, bc_type. Oracle:
    central differences with Richardson extrapolation of the predicted data, receiver by receiver, with a measured
    uncertainty as tolerance; the dot-product identity per receiver (1e-8); explicit J against the products;
    J^T W^T W J for two different W in one object; permuted call orders; differential: storeJ / miniaturize / SIP-vs-IP.
    Bounds: < 400 cells, 3 sources x 3 receivers. About 40 s.""",
)

prop(
    "C02",
    "Frequency-domain EM sensitivities are the exact derivative and adjoint",
    """For the electric field, magnetic flux density, magnetic field and current density formulations of frequency-domain EM
    on tensor, tree and cylindrical meshes, the Jacobian-vector product equals the directional derivative of the predicted
    data, the transpose product is its exact adjoint, and the explicit Jacobian and the diagonal of its weighted normal
    matrix agree with both. This holds for every source type (magnetic dipoles, circular loops, line currents, raw electric
    or magnetic sources, primary-secondary), every receiver field, orientation and component, for conductivity, resistivity,
    permeability and combined models, with several sources sharing a frequency.""",
    "all meshes x formulations x sources x receivers x property maps x models x directions",
    """The suite in use runs almost no FDEM sensitivity tests (the inverse folder is not run), and those it has use one source,
    one mesh, and aggregate norms.""",
    [EM + "frequency_domain/simulation.py", EM + "frequency_domain/fields.py", EM + "frequency_domain/sources.py", EM + "frequency_domain/receivers.py", EM + "base.py", S + "base/pde_simulation.py"],
    [("A / RHS derivatives", EM + "frequency_domain/simulation.py"), ("field derivatives", EM + "frequency_domain/fields.py"), ("source derivatives", EM + "frequency_domain/sources.py"), ("receiver projections", EM + "frequency_domain/receivers.py")],
    """checks/c02_fdem.py. Generator: tensor / tree / cylindrical (symmetric and 3D) meshes, all four formulations, 1-3
    sources at 1-2 frequencies, 1-3 receivers each, sigma / rho / mu / mui or pairs. Oracle: Richardson-extrapolated
    differences per receiver with a tolerance tied to the complex amplitude (the same survey measuring the other component),
    dot-product identity per receiver, explicit J and its weighted Gram diagonal. Bounds: < 300 cells. About 70 s.""",
)

prop(
    "C03",
    "Time-domain EM sensitivities are the exact derivative and adjoint",
    """For the electric field, magnetic flux density, magnetic field and current density formulations of time-domain EM on
    tensor, tree and cylindrical meshes, the Jacobian-vector product equals the directional derivative of the predicted data
    and the transpose product is its exact adjoint, for conductivity and resistivity models. This holds for every source
    type the formulation supports (magnetic dipole, circular loop, closed wire, grounded wire, raw grounded source), every
    waveform, with and without initial fields, uniform or changing time steps, every receiver field and orientation and any
    receiver time up to the last time step, with several sources and in any order of calls.""",
    "all meshes x formulations x sources x waveforms x time discretisations x receivers x models x directions",
    """The suite in use runs no time-domain EM sensitivity tests at all; those in the repository use one source, one
    mesh and one time discretisation.""",
    [EM + "time_domain/simulation.py", EM + "time_domain/fields.py", EM + "time_domain/sources.py", EM + "time_domain/receivers.py"],
    [("time stepping of derivative and adjoint", EM + "time_domain/simulation.py"), ("field derivatives", EM + "time_domain/fields.py"), ("initial fields and their derivatives", EM + "time_domain/sources.py")],
    """checks/c03_tdem.py. Generator: tensor / tree / cylindrical meshes, four formulations, 1-3 sources (5 kinds x 11
    waveforms), 1-3 receivers each, 2-8 time steps of changing length. Oracle: Richardson-extrapolated differences per
    receiver, dot-product identity per receiver with the tolerance tied to the amplitude of the field in another
    direction. Bounds: < 150 cells. About 70 s.""",
)

prop(
    "C04",
    "Natural-source EM sensitivities are the exact derivative and adjoint",
    """For the natural-source simulations (recursive layered 1D; 1D electric, magnetic and primary-secondary; 2D electric and
    magnetic field; 3D primary-secondary), the Jacobian-vector product equals the directional derivative of the predicted data
    and the transpose product is its exact adjoint; explicit Jacobians and the diagonal of the weighted normal matrix agree
    with both where offered. This holds for impedance, tipper, admittance and apparent conductivity receivers, every
    orientation and real-valued component, separate electric and magnetic locations, and models of conductivity,
    resistivity, permeability or layer thicknesses.""",
    "all meshes x simulations x receivers x property maps x boundary fields x models x directions",
    """The suite samples one mesh and a few receivers with aggregate norms, and leaves out the 3D Jvec/Jtvec test.""",
    [EM + "natural_source/"],
    [("receiver derivatives", EM + "natural_source/receivers.py"), ("boundary fields and their derivatives", EM + "natural_source/simulation.py"), ("field derivatives", EM + "natural_source/fields.py"), ("layered recursion", EM + "natural_source/simulation_1d.py")],
    """checks/c04_nsem.py. Generator: 1D / 2D / 3D tensor and tree meshes, 1-2 frequencies, 1-4 receivers of every kind,
    component and orientation, sigma / rho / mu / mui models, computed or given boundary fields. Oracle: Richardson
    differences per receiver with amplitude-related tolerance (flipped component), dot-product identity per receiver, explicit
    J and weighted Gram diagonal. Bounds: <= 64 cells in 3D, < 150 in 2D. About 60 s.""",
)

prop(
    "C05",
    "Layered-earth EM sensitivities are the exact derivative and adjoint",
    """For the layered frequency- and time-domain EM simulations, the Jacobian-vector product equals the directional
    derivative of the predicted data, the transpose product is its exact adjoint, and the explicit Jacobian and the diagonal
    of its weighted normal matrix agree with both - for models of conductivity or resistivity, permeability, layer
    thicknesses and source heights, separately or with shared parameters, with or without chargeability and magnetic
    viscosity, for every source (magnetic dipoles of any orientation, circular loops, closed wires), receiver (total,
    secondary, ppm, b, db/dt, h; any orientation and component) and waveform.""",
    "all layer models x property maps x sources x receivers x waveforms x directions",
    """The suite tests fixed layer models with zero chargeability and viscosity, and source heights so small that
    their influence vanishes, with aggregate norms.""",
    [EM + "base_1d.py", EM + "frequency_domain/simulation_1d.py", EM + "time_domain/simulation_1d.py"],
    [("Hankel coefficients and heights", EM + "base_1d.py"), ("Jacobian blocks", EM + "frequency_domain/simulation_1d.py, " + EM + "time_domain/simulation_1d.py")],
    """checks/c05_em1d.py. Generator: 1-5 layers, 11 model parametrisations, chargeability / viscosity off / scalar / per layer,
    1-3 sources x 1-3 receivers, 8 waveforms. Oracle as for C04, receiver by receiver. About 40 s.""",
)

prop(
    "C08",
    "Every model map's derivative, shape, composition and inverse match its transform",
    """For every model map and every composition, sum or wiring of maps, the derivative (as a matrix, or applied to a vector)
    equals the directional derivative of the transform and has the advertised shape, the inverse undoes the transform where
    one is documented, and injection, wiring, surjection and projection maps place exactly the documented entries.
    Evaluating a map or its derivative changes neither the model, the direction, nor later evaluations.""",
    "all maps, meshes, active-cell masks, parameters, models and directions, and sequences of evaluations",
    """The suite tests each map's derivative at one random model on one mesh, mostly not in composition, never against an
    independent re-implementation of the transform.""",
    [S + "maps/"],
    [("map transforms and derivatives", S + "maps/_base.py, _property_maps.py, _injection.py, _surjection.py, _parametric.py, _clustering.py"), ("composition, sum, wires", S + "maps/_base.py")],
    """checks/c08_maps.py. Six sub-checks over a table of all maps (single maps, mesh maps, parametric shapes,
    combinators, petrophysical / clustering, mesh-to-mesh): Richardson differences and the matrix / vector forms of deriv against
    each other, independent numpy re-implementations of transforms, inverse round trips, nP / shape contracts, non-mutation and
    repeated-call agreement after evaluations at other models. About 8000 cases in 15 s.""",
)

PFD = S + "potential_fields/"
prop(
    "C06",
    "Gravity and magnetic sensitivities are the exact derivative and adjoint",
    """For the gravity and magnetic integral simulations on tensor and tree meshes, their equivalent-source layers, and the
    finite-volume magnetic simulation, the Jacobian-vector product equals the directional derivative of the predicted data,
    the transpose product is its exact adjoint, and the explicit Jacobian and the diagonal of its weighted normal matrix
    agree with both. This holds for every engine, storage mode (memory, disk, matrix-free) and precision, for scalar, vector
    and amplitude magnetic data, for several receivers with several components each, for any model map including ones whose
    parameters act on several cells, any data weights, and in any order of calls.""",
    "all meshes x engines x storages x receivers x components x maps x models x weights x call orders",
    """The suite checks one survey with all data weights equal and identity-like maps; the pairing of weights, components
    and receivers, and maps that mix cells, are never exercised.""",
    [PFD + "gravity/", PFD + "magnetics/", PFD + "base.py"],
    [("sensitivity matrices and matrix-free products", PFD + "gravity/simulation.py, magnetics/simulation.py"), ("numba kernels", PFD + "gravity/_numba, magnetics/_numba"), ("finite-volume derivatives", PFD + "magnetics/simulation.py (Simulation3DDifferential)")],
    """checks/c06_pf.py. Generator: meshes, masks, layers, 1-3 receivers x 1-3 components at 1-4 places, engine x storage x
    precision, six kinds of maps, scalar / vector / amplitude. Oracle: Richardson differences per receiver and component, dot
    products, explicit J, and diag(J^T W^T W J) for three weightings on one object. Bounds: < 300 cells, 36 data. About 65 s
    (mostly numba compilation).""",
)

prop(
    "C16",
    "Predicted gravity and magnetic data are the fields of the cells in the model",
    """The predicted gravity, gravity-gradient, magnetic, magnetic-gradient, total-field-anomaly and amplitude data equal the
    field at the receivers of the prisms (or equivalent-source layer cells) carrying the modelled density or magnetization, in
    the documented units and orientation (z up, declination clockwise from north, inclination down), ordered location by
    location and component by component within each receiver. This holds for every engine, storage mode and precision, for
    scalar and vector magnetization, any active cells and any receivers outside the cells, also exactly in line with their
    edges. The finite-volume magnetic fields satisfy the discrete Gauss law and have a curl-free secondary field.""",
    "all meshes x active cells x properties x background fields x components x receiver places x engines x storages",
    """The suite compares a few fixed blocks or spheres at receivers on one grid above; engine-specific errors at particular
    components, sides or masks are out of its reach.""",
    [PFD],
    [("prism kernels and assembly", PFD + "gravity/simulation.py, magnetics/simulation.py, gravity/_numba, magnetics/_numba, _numba_utils.py"), ("background field", PFD + "magnetics/sources.py"), ("nodes of active cells and layers", PFD + "base.py")],
    """checks/c16_pfforward.py. Same generator. Oracle: Gauss-Legendre quadrature (order 7-10, with the difference of two orders
    as its uncertainty) of the point-mass and point-dipole tensors over each cell, compared datum by datum at 1e-6 of the sum of
    absolute contributions (3e-5 in single precision); for the finite-volume code: div b = 0, h in the range of the gradient
    (dense null space), data = interpolated b. User-set magnetization is checked with the geoana engine only (the choclo engine
    ignores it). About 60 s.""",
)

prop(
    "C07",
    "Flow, straight-ray and linear simulations: right data, exact derivatives",
    """The soil curves equal the published Haverkamp and van Genuchten formulas and their pressure and parameter derivatives
    are exact. Solutions of the Richards simulation balance water cell by cell in every time step, data are the pressure or
    water content at the receiver's places and times, and Picard and Newton agree. The straight-ray travel time is the sum over
    cells of slowness times the length of the ray inside the cell: lengths add up to the part of the ray inside the mesh,
    wherever rays start, end or run. A linear simulation predicts its kernel times the mapped model. For the mixed-form Richards,
    straight-ray and linear simulations the Jacobian-vector product is the directional derivative of the predicted data, the
    transpose product its exact adjoint, and the explicit Jacobian agrees, also when fields are passed in and in any order of
    calls.""",
    "all soils, meshes, boundary conditions, receivers, times, rays, kernels, maps, models and call orders",
    """The suite differentiates one reference soil on one mesh, tests one straight-ray problem, and linear simulations with
    identity-like maps only.""",
    [S + "flow/richards/", S + "seismic/straight_ray_tomography/", S + "simulation.py"],
    [("soil curves", S + "flow/richards/empirical.py"), ("residual, sensitivities", S + "flow/richards/simulation.py"), ("receivers", S + "flow/richards/receivers.py"), ("ray lengths", S + "seismic/straight_ray_tomography/simulation.py"), ("linear simulations", S + "simulation.py (LinearSimulation, ExponentialSinusoidSimulation)")],
    """checks/c07_flow_rays.py. Curves: re-implemented formulas and Richardson differences, entry by entry. Flow: solutions of the
    code are put into an independently written 1D residual (mixed and head form) away from the boundary cells; the general
    sensitivity oracle in 1-3D with any subset of the seven / eight soil parameters invertible; data against own interpolation.
    Rays: Liang-Barsky clipping against every cell, length sums, reversal. Linear: numpy. Two findings are recorded (see Known
    findings). About 60 s.""",
)

prop(
    "C09",
    "Objective functions form a linear algebra with exact derivatives",
    """Any expression built from objective functions (weighted l2 functions with linear or nonlinear maps, data misfits with
    diagonal or full weights, regularizations) by addition, multiplication with and division by numbers of any numeric type,
    explicit combinations, nested or unpacked, and later changes of the multipliers is an objective function whose value,
    gradient, Hessian product, Hessian matrix and stacked weighting matrix are the same linear combination of those of its
    parts, with or without fields passed in. Building and evaluating an expression changes none of its operands.""",
    "all expression trees x multipliers (incl. zero) x maps x weights x models",
    """The suite adds two or three functions with fixed multipliers; nested trees, numpy scalars, full weighting matrices and
    the isolation of operands are not sampled.""",
    [S + "objective_function.py", S + "data_misfit.py", S + "regularization/base.py"],
    [("algebra", S + "objective_function.py"), ("misfit derivatives", S + "data_misfit.py")],
    """checks/c09_objective.py. Generator: recursive expression trees (up to 7 leaves). Oracle: the same tree evaluated in numpy
    (dense), node by node, before and after evaluating the whole. Zero() on the left of a product is excluded: Zero() * anything
    is Zero(). About 20 s.""",
)

prop(
    "C10",
    "Regularizations measure what they document, after any history of settings",
    """Smallness, first- and second-order smoothness, weighted least squares, sparse-norm, vector-amplitude, cross-reference,
    joint-total-variation, cross-gradient, linear-correspondence and full-gradient regularizations have the documented value:
    volume- and weight-scaled sums over active cells, or over pairs of neighbouring active cells, of the (mapped) model or its
    differences, relative to the reference model where asked for, with the documented relation of length scales and alphas, IRLS
    weights and angle wrapping. Their gradients and Hessians (matrix and product) are exact (Gauss-Newton for vector amplitudes
    and the approximate cross gradient). This holds on tensor and tree meshes of any cell size, for any active cells, maps and
    weights, and after any sequence of setting and removing weights, changing alphas, length scales, norms, reference model, map,
    units and active cells.""",
    "all meshes x active cells x maps x weights x references x norms x histories of settings x models",
    """The suite runs derivative tests on a few meshes and compares a few regularizations with each other; it does not compare
    values with an independent sum over cells and neighbours, nor evaluate between changes of settings.""",
    [S + "regularization/"],
    [("terms and combinations", S + "regularization/base.py"), ("operators on active cells", S + "regularization/regularization_mesh.py"), ("IRLS", S + "regularization/sparse.py"), ("vectors", S + "regularization/vector.py"), ("coupling", S + "regularization/cross_gradient.py, jtv.py, correspondence.py"), ("full gradient", S + "regularization/_gradient.py")],
    """checks/c10_regularization.py. Generator: meshes, masks, six maps and histories of up to six settings, evaluated after each.
    Oracle: neighbours found by comparing cell boxes, dense numpy sums for value, gradient and Hessian; Richardson differences for
    the nonlinear similarity measures; corner-by-corner tensors for the full gradient; scaling of tree meshes; rotation of vectors.
    Excluded: weights per face where there are as many faces as cells (the code tells them apart by length). About 25 s.""",
)

prop(
    "C15",
    "What a simulation answers does not depend on the calls before it",
    """For every kind of simulation, the predicted data, Jacobian products, transpose products and the diagonal of the weighted
    normal matrix for a model are those a newly made simulation would give, whatever sequence of calls for other models
    preceded: models that differ by tiny amounts, models set as attribute, arrays the caller re-uses in place, fields computed
    earlier in the history and passed in later, and different data weights. No call modifies the arrays it is given.""",
    "all simulations x all call histories (models, kinds of calls, stored fields)",
    """Caches of systems, factorizations, derivatives and sensitivities go stale only in particular orders of calls; unit tests
    ask one or two questions per object.""",
    [S],
    [("invalidation on model update", S + "props.py (HasModel.model)"), ("cached matrices", S + "base/pde_simulation.py"), ("cached systems and sensitivities", "_delete_on_model_update, storeJ, _G, _gtg_diagonal in every simulation")],
    """checks/c15_history.py. Stateful: histories of 2-6 calls on the simulations generated by checks C01-C07 (25 families, see
    lib/family.py). Oracle: a fresh simulation per question. About 40 s.""",
)

prop(
    "C14",
    "Data, fields and uncertainties belong to their source-receiver pair",
    """The data predicted for a source-receiver pair do not depend on which other sources and receivers are in the survey, nor on
    their order, for every kind of simulation; predicted data are ordered source by source and receiver by receiver (time by time
    first for spectral induced polarization). The number of data, slices, source and receiver indices, frequency tables,
    electrode tables and unique times of a survey follow every change of its sources, receivers and locations. Data set or read
    for a pair touch exactly its entries; the standard deviation is always the root of the squared noise floor plus the squared
    relative error times the data. Fields objects return what was stored for the source, name and time asked for, and aliases
    their function of it.""",
    "all surveys x selections and orders of sources and receivers x histories of assignments and look-ups",
    """The suite's surveys have one order and are not changed after construction; a swapped or stale index goes unnoticed where
    the neighbouring pairs have the same size.""",
    [S + "survey.py", S + "data.py", S + "fields.py", S + "electromagnetics/", S + "potential_fields/"],
    [("pair slices and indices", S + "survey.py"), ("data by pair, uncertainties", S + "data.py"), ("field storage", S + "fields.py"), ("receiver loops", "dpred / forward of every simulation"), ("frequency tables", S + "electromagnetics/frequency_domain/survey.py"), ("electrode tables", S + "electromagnetics/static/resistivity/survey.py")],
    """checks/c14_surveys.py. Metamorphic: the simulations generated by C01-C07 (22 families) with a random selection and order of
    sources and receivers against the full survey, pair by pair. Model-based: histories on surveys, data and fields against
    dictionaries. One finding is recorded (slices of spectral IP). About 40 s.""",
)

prop(
    "C12",
    "Minimizers take admissible decreasing steps and stop where they should",
    """Every point a minimizer evaluates satisfies the bounds; no step is longer than maxStep; every accepted step has the sufficient
    decrease (and curvature) asked for, and is the first of the shortened trial steps that has; a run ends exactly when the
    documented rules (changes of objective and model, projected gradient, iterations, failed line search) say so, returns its last
    accepted iterate and reports each iterate once; a minimizer can be used again. On convex functions the Newton-type minimizers
    end at a point where the projected gradient vanishes, also when the start or the solution lies on the bounds; Newton needs one
    step on a quadratic; BFGS uses curvature. NewtonRoot returns roots. Starting models are not modified.""",
    "all smooth functions x starts x bounds x settings of the line search, stopping rules, CG and memory",
    """The suite minimizes a few functions from one start with default settings; bounds that become active, limits on steps and
    failing line searches depend on the whole history of a run.""",
    [S + "optimization.py"],
    [("minimize, line search, stopping rules", S + "optimization.py (Minimize)"), ("bounds", S + "optimization.py (Bounded, ProjectedGradient, ProjectedGNCG)"), ("memory", S + "optimization.py (BFGS)"), ("NewtonRoot", S + "optimization.py")],
    """checks/c12_optimization.py. steps: random functions and settings, all evaluations recorded and compared, one by one, with the
    documented line search and stopping rules (cases within rounding of a rule accept either answer). minima: KKT residual on
    convex functions. root: residual. About 10 s.""",
)

prop(
    "C32",
    "Layered-earth EM data are the fields of the layered earth",
    """Frequency-domain data of the layered simulation are the magnetic field of the given source in the given direction above the
    given stack of layers (with dispersive conductivity and permeability), as total field, secondary field or in ppm of the
    primary, whichever Hankel filter, orientation, offset convention, height parametrization or combination of sources is used.
    Time-domain data after step off are the transform of that response, for b, h and db/dt, and data for any other waveform are its
    convolution with the step response.""",
    "all layered earths x sources, receivers, orientations, frequencies, times, waveforms and digital filters",
    """The suite compares a few half-spaces with coaxial or coplanar dipoles; mixed components, several layers, dispersive
    properties and other waveforms are only compared with stored numbers or not at all.""",
    [S + "electromagnetics/base_1d.py", S + "electromagnetics/frequency_domain/simulation_1d.py", S + "electromagnetics/time_domain/simulation_1d.py"],
    [("Hankel coefficients", S + "electromagnetics/base_1d.py"), ("data kinds", S + "electromagnetics/frequency_domain/simulation_1d.py"), ("transforms and waveforms", S + "electromagnetics/time_domain/simulation_1d.py")],
    """checks/c32_em1d_forward.py. Oracle: own reflection recursion and direct quadrature of the Sommerfeld integrals (not a digital
    filter); wires as sheets of dipoles. Time domain: cosine and sine transforms of that reference; other waveforms by quadrature
    of current times step response. Tolerances are those of the digital filters (3e-4 of the datum plus 3e-6 of the primary in
    frequency; 4e-3 and 6e-6 in time; 5e-2 with magnetic viscosity, b and h excluded there because of its log-slow decay). About 40 s.""",
)

prop(
    "C26",
    "Waveforms and wire paths carry the current they are given",
    """Every transmitter waveform has the documented current at all times, zero or its initial value before it starts and zero after
    it is off; its derivative is that of the current, its nodes are where its shape changes, and it follows changes of its
    attributes. Convolution with a waveform is the convolution. A polygonal wire in a tensor or tree mesh does the work of any edge field along its
    path, has the moment of its path, and carries charge to nothing but its ends; wires through faces conserve current. Relaxation
    spectra have the documented form.""",
    "all waveforms, times and attribute changes; all paths in tensor and tree meshes",
    """The suite checks single waveforms at their nodes and one or two wires; pieces of a waveform or cells of a mesh that the
    examples do not touch are unchecked.""",
    [S + "electromagnetics/time_domain/sources.py", S + "electromagnetics/utils/"],
    [("waveforms", S + "electromagnetics/time_domain/sources.py"), ("wire paths", S + "electromagnetics/utils/current_utils.py"), ("convolution", S + "electromagnetics/utils/waveform_utils.py"), ("spectra", S + "electromagnetics/utils/em1d_utils.py")],
    """checks/c26_waveforms.py. Oracles: formulas of the shapes; integration by parts (uses the current, not its derivative); quadrature
    of interpolated random edge fields along the path; discrete divergence of the source. About 15 s.""",
)

prop(
    "C20",
    "Meta simulations answer as the simulations they are made of",
    """A meta simulation of any simulations and mappings answers dpred, Jvec, Jtvec and getJtJdiag (with any weights) as the
    concatenation of its simulations' own answers at the mapped models, a sum meta simulation as their sum, a repeated simulation as
    the same simulation for each mapping, for any history of questions. Spreading them over any number of processes changes no
    answer, and every simulation can be sent to a process.""",
    "all lists of simulations and mappings x histories of calls and models x numbers of processes",
    """The suite compares a few calls with two or three gravity or linear simulations, each question asked of a fresh object with as
    many processes as simulations.""",
    [S + "meta/"],
    [("meta, sum and repeated simulations", S + "meta/simulation.py"), ("processes", S + "meta/multiprocessing.py"), ("pickled simulations", S + "electromagnetics/base_1d.py")],
    """checks/c20_meta.py. Simulations of 9 families from the generators of C01-C08, 1-4 in a meta simulation, linear and
    nonlinear mappings, histories of 3-6 questions about two models; oracle: fresh plain simulations asked one by one. Workers are the repository's
    process objects run as threads with pickled messages (forking a process that has used a threaded solver hangs). getJtJdiag only for mappings
    with one entry per column (documented as approximate otherwise). The dask version is not claimed here. About 25 s.""",
)

prop(
    "C13",
    "Inversions minimize the stated objective; directives act as documented",
    """For any data misfits, multipliers, regularization and beta, the function given to the minimizer is phi_d + beta phi_m with its
    gradient and Gauss-Newton Hessian, in any order of evaluations; phi_d, phi_m, dpred and the model seen by directives after an
    iteration are those of the accepted model, and the last of these is what the inversion returns. A linear problem is solved.
    At every iteration of every run each directive does what it documents: starting beta, smoothness scales and misfit scalings are the stated ratios of
    (power-iteration) eigenvalues or derivatives and reproducible by seed, beta cools on schedule, the run stops exactly when the target (of the sum or
    of each misfit) is met, sensitivity weights follow the sensitivities, IRLS starts, cools, reweights and ends as documented, paired
    inversions scale each beta by its own misfit, and what is saved is what happened.""",
    "all inverse problems x minimizers x lists of directives x iterations",
    """The suite runs a few inversions and looks at the final misfit or at single directives in isolation; the interplay of
    directives over a run, several misfits and most settings are not compared with anything.""",
    [S + "inverse_problem.py", S + "inversion.py", S + "directives/", S + "utils/mat_utils.py"],
    [("objective", S + "inverse_problem.py (evalFunction)"), ("run", S + "inversion.py"), ("directives", S + "directives/_directives.py"), ("IRLS", S + "directives/_regularization.py"), ("paired inversions", S + "directives/_sim_directives.py")],
    """checks/c13_inversion.py. Recorders at both ends of the list of directives note the state of every iteration of generated runs; a numpy model of the
    problem and of each directive recomputes it. Decisions within rounding of a threshold accept either answer. The regularization's own value and
    derivatives are taken from the code (they are C10's). About 20 s.""",
)

prop(
    "C24",
    "Viscous remanent magnetization data are those of the magnetized cells",
    """For any mesh, active cells, sources, waveforms and receivers, the predicted data are the field (or flux, or their rates, through points
    or square loops) of the cells magnetized by the source's free-space field at the centers of the cells, refined near the
    sources as documented, times the decay of the waveform; in the order of the survey (sources, receivers, locations, times) and for the active times
    only. The log-uniform simulation gives the decay of the distribution of relaxation times. Jvec and Jtvec are the derivative and its adjoint. A
    new survey, refinement or set of active cells is followed.""",
    "all meshes, sources, receivers, waveforms, mappings, time channels",
    """The suite compares single cells with a dipole and one source and receiver location, with closed waveforms starting and ending at zero.""",
    [S + "electromagnetics/viscous_remanent_magnetization/"],
    [("operators", S + "electromagnetics/viscous_remanent_magnetization/simulation.py"), ("waveforms", S + "electromagnetics/viscous_remanent_magnetization/waveforms.py"), ("source fields", S + "electromagnetics/viscous_remanent_magnetization/sources.py"), ("time channels", S + "electromagnetics/viscous_remanent_magnetization/survey.py")],
    """checks/c24_vrm.py. Oracles: prisms of choclo, Biot-Savart in another form (loops by quadrature), distances to the sources for the refinement,
    Gauss quadrature of the waveform against 1/t and of the relaxation times against exp(-t/tau); differences and inner products for the sensitivities. About 8 s.""",
)

prop(
    "C17",
    "DC, IP, SIP and SP data are those of the discretized earth and its electrodes",
    """For any mesh, conductivities, boundary condition, formulation and electrodes (which may share a cell), the predicted
    potentials, voltages, electric fields, currents and apparent resistivities solve the discretized Poisson problem (3D), its wavenumber
    sum (2.5D) or are those of the layered earth (1D); they obey reciprocity and superposition, scale with current and resistivity, and tend to the
    half-space formula. Apparent resistivities do not depend on the current. IP data are the change of the voltages with the chargeabilities, spectral IP data
    those of the decay of the chargeabilities after the current pulses, self potentials those of the given currents or hydraulic heads. Receivers can be shared by
    simulations.""",
    "all meshes, models, boundary conditions, surveys",
    """The suite compares a few geometries with analytic formulas within some percent, mostly with unit currents and one electrode per cell.""",
    [S + "electromagnetics/static/"],
    [("matrices", S + "electromagnetics/static/resistivity/simulation.py (getA)"), ("sources", S + "electromagnetics/static/resistivity/sources.py"), ("receivers", S + "electromagnetics/static/resistivity/receivers.py"), ("2.5D", S + "electromagnetics/static/resistivity/simulation_2d.py"), ("1D", S + "electromagnetics/static/resistivity/simulation_1d.py"), ("IP", S + "electromagnetics/static/induced_polarization/"), ("spectral IP", S + "electromagnetics/static/spectral_induced_polarization/"), ("self potential", S + "electromagnetics/static/self_potential/")],
    """checks/c17_dc_forward.py. Oracles: dense numpy assembly from discretize's operators with an independent Robin decay, central differences of
    that for IP, direct Gauss-Legendre quadrature of the Sommerfeld integral for layers, the half-space formula within 15 percent, and metamorphic
    relations. The wavenumbers and weights of the 2.5D sum are the code's (the half-space formula and trapezoidal rule judge them). Neumann problems only with
    balanced sources seen through dipoles; 1D with poles and dipoles. About 25 s.""",
)

prop(
    "C18",
    "3D EM data and fields are those of the discretized Maxwell equations",
    """For any mesh (also cylindrical), properties, sources and receivers, the fields and data of the four frequency-domain formulations solve the
    discretized Maxwell equations with the source's current or magnetic source (dipoles and loops in any background permeability by their primary
    field, which is added back; wires; raw vectors; primary-secondary fields); conduction, permeability and permittivity included. The four
    time-domain formulations take backward Euler steps of any lengths from the static fields of the source, driven by the
    waveform at the times of the steps; data are interpolated linearly in time and space, per receiver and orientation. Both agree with the layered-earth simulations
    where these apply.""",
    "all meshes, models, sources, waveforms, time steps, receivers",
    """The suite compares some formulations with each other or with analytic fields within percents, for single sources and constant steps; the time-domain
    suite is not run at all.""",
    [S + "electromagnetics/frequency_domain/", S + "electromagnetics/time_domain/"],
    [("FDEM systems", S + "electromagnetics/frequency_domain/simulation.py (getA, getRHS)"), ("FDEM fields", S + "electromagnetics/frequency_domain/fields.py"), ("FDEM sources", S + "electromagnetics/frequency_domain/sources.py"), ("TDEM stepping", S + "electromagnetics/time_domain/simulation.py"), ("TDEM fields", S + "electromagnetics/time_domain/fields.py"), ("TDEM sources", S + "electromagnetics/time_domain/sources.py (s_e, bInitial, hInitial)")],
    """checks/c18_em_forward.py. Oracle: dense numpy solution of the coupled first-order system in total fields, with dipole formulas of our own, geoana's loops and wires,
    magnetostatic and DC initial states by least squares; padded cylindrical meshes against the layered simulations (6 percent in frequency, 25 percent in time: backward Euler).
    Not claimed: currents (and in the HJ formulations electric fields) with a permittivity, which the code warns about; permeable initial states the code documents as not implemented;
    steps closer than dt_threshold. About 20 s.""",
)

prop(
    "C19",
    "Data written to files or records come back as they were",
    """For any survey and data, writing UBC (DCIP 2D, 3D and octree in the general, surface and simple formats; magnetics, gravity and gradiometry) or xyz files, or
    natural-source record arrays, and reading them again gives back every reading: electrodes or stations, poles and dipoles, components, inducing field, data,
    uncertainties and extra columns, each with its own, in the documented order. xyz files may have their columns in any order. Writing
    changes neither the survey nor the data.""",
    "all surveys, data, formats, file types, column orders, local or map coordinates",
    """The suite writes one dipole-dipole survey in local coordinates per format.""",
    [S + "utils/io_utils/", S + "electromagnetics/natural_source/survey.py"],
    [("DC/IP files", S + "utils/io_utils/io_utils_electromagnetics.py"), ("potential-field files", S + "utils/io_utils/io_utils_pf.py"), ("records", S + "electromagnetics/natural_source/survey.py (Data)"), ("survey from electrodes", S + "electromagnetics/static/utils/static_utils.py (generate_survey_from_abmn_locations)")],
    """checks/c19_io.py. Oracle: the round trip, reading by reading, with values the format can hold exactly; for xyz files also a file written by the check with its columns
    shuffled. About 5 s.""",
)

prop(
    "C22",
    "Petrophysically guided regularization and its Gaussian mixtures are as defined",
    """For any mesh, active cells, properties, maps, weights and Gaussian mixture of units (full, tied, diagonal or spherical covariances, polynomial relationships), and after any history of changes of
    the mixture, reference model and weights: the PGI smallness is the weighted squared distance of each cell to its reference in the metric of its unit (or, without the approximation,
    minus twice the log-likelihood), its derivative is the derivative of that value, its Hessian the Gauss-Newton or responsibility-weighted one, symmetric and the same as a matrix and as a product; the PGI regularization adds the smoothness of every property.
    Fitted mixtures are those of samples repeated in proportion to the volumes of their cells; with priors each iteration blends every unit
    with its own reference unit by the given confidences, fixed memberships being kept; proportions add up to one; reordering units changes nothing. During an inversion the reference model holds, after each update, the means of the units of the model.""",
    "all meshes, mixtures, models, weights, priors, histories",
    """The suite checks derivatives at one point with identity maps, and one fit with priors for two units with a wide margin.""",
    [S + "regularization/pgi.py", S + "utils/pgi_utils.py", S + "directives/_pgi_directives.py"],
    [("smallness", S + "regularization/pgi.py (PGIsmallness)"), ("regularization", S + "regularization/pgi.py (PGI)"), ("mixtures", S + "utils/pgi_utils.py"), ("updates", S + "directives/_pgi_directives.py (PGI_UpdateParameters)")],
    """checks/c22_pgi.py. Oracles: the definitions written out cell by cell in numpy, central differences, scikit-learn's mixture fitted to samples repeated as often as their
    volume, the expectation-maximization with priors written out, and a watching directive during linear inversions. Polynomial relationships with the same weights for both properties and, with priors, for one unit. About 20 s.""",
)

prop(
    "C27",
    "The dask versions of simulations answer as the plain ones",
    """With simpeg.dask loaded, DC, IP, gravity and magnetic simulations give the data, products with the sensitivities and their transpose, and diagonals of J^T W^T W J they give without it, for any
    survey, model, mapping and weights, whatever was asked before, with sensitivities stored in memory or on disk, in any number of blocks and chunks, or not at all. The dask meta, sum and repeated
    simulations answer as the simulations they are made of, on any number of workers.""",
    "all simulations, models, weights, storage settings, chunk sizes, workers, histories",
    """The stable suite runs no test with dask; those that exist check products of one model in one block.""",
    [S + "dask/", S + "meta/dask_sim.py"],
    [("DC sensitivities", S + "dask/electromagnetics/static/resistivity/simulation.py"), ("IP", S + "dask/electromagnetics/static/induced_polarization/simulation.py"), ("potential fields", S + "dask/potential_fields/"), ("meta simulations", S + "meta/dask_sim.py")],
    """checks/c27_dask.py. Oracle: fresh simulations of the same generated case (C01, C06) with the methods simpeg.dask replaces put back; blocks and chunks made small by lowering the limits on the class. Meta
    simulations on an in-process dask cluster whose workers share one thread, against plain simulations asked one by one. Sensitivity folders are in a scratch folder. About 20 s.""",
)

prop(
    "C33",
    "Predicted data do not depend on the origin of the coordinates",
    """Moving the mesh, the sources, the receivers and the topography together by any offset, horizontal or vertical, including offsets of the size of projected (UTM) coordinates, changes
    neither the predicted data nor the products with the sensitivities and their transpose, up to the rounding of the coordinates, for DC, IP, SIP, SP, frequency and time domain EM, natural source, layered EM, gravity, magnetic and tomography simulations. Wires are closed or grounded for their
    shape, not for where they are.""",
    "all simulations, meshes, surveys, models, offsets",
    """The suite works in local coordinates around zero, mostly with one origin per test.""",
    [S + "electromagnetics/", S + "potential_fields/", S + "seismic/"],
    [("boundary fields", S + "electromagnetics/natural_source/simulation.py"), ("wires", S + "electromagnetics/time_domain/sources.py (LineCurrent), " + S + "electromagnetics/utils/current_utils.py"), ("boundary conditions", S + "electromagnetics/static/"), ("projections", S + "survey.py (BaseRx.getP)")],
    """checks/c33_place.py. Oracle: the same generated case (C01-C07) built twice, once with the mesh moved by multiples of 2**8 m up to 2**23 m; the survey is generated relative to the mesh and compared to be moved as a whole.
    Differences above 1e-5 of the data are violations. About 40 s.""",
)

prop(
    "C21",
    "Models, weights and topography built from shapes and points are as defined",
    """For any mesh (one to three dimensions, tensor or tree, any origin), model building utilities give the block, sphere, ellipse, hull or layers asked for: the value of a cell is that of the shape its centre is in, whatever the
    order of corners or layers, and arguments are not changed. Depth and distance weights are the published powers of distance to the reference, largest weight one, for active cells, with either engine. Discrete topography is the top (or centre)
    of the highest active cell of each column, and locations are put on it at the height asked for. Vectors turn into angles and back; estimated diagonals and eigenvalues are those of the matrix where the estimate is exact.""",
    "all meshes, shapes, reference points, active cells, surfaces, orders of arguments",
    """The suite draws one block and one topography per mesh type and weights of one mesh.""",
    [S + "utils/model_builder.py", S + "utils/model_utils.py", S + "utils/mesh_utils.py", S + "utils/mat_utils.py"],
    [("shapes", S + "utils/model_builder.py"), ("weights", S + "utils/model_utils.py"), ("topography", S + "utils/mesh_utils.py"), ("vectors", S + "utils/mat_utils.py")],
    """checks/c21_models.py. Oracle: each definition written out cell by cell. Cells on a boundary up to rounding may go either way. About 10 s.""",
)

prop(
    "C25",
    "DC survey builders keep every datum once and every electrode in its place",
    """Surveys made from lists of A, B, M and N positions, in any order, with poles and dipoles mixed and positions equal up to rounding, hold each datum once, under its own source, in the order
    the returned index says. 3D surveys split into 2D lines keep elevations, distances along the line and data, for lines in any direction, with boreholes, with one source. Lines generated from two ends, a spacing and topography have the
    electrodes their type asks for, from the first end to the second, on the topography.""",
    "all electrode lists, line directions, types, topographies",
    """The suite converts one grid of three straight lines and reads back its own order.""",
    [S + "electromagnetics/static/utils/static_utils.py"],
    [("from A, B, M, N", S + "electromagnetics/static/utils/static_utils.py (generate_survey_from_abmn_locations)"), ("to 2D lines", S + "electromagnetics/static/utils/static_utils.py (convert_survey_3d_to_2d_lines)"), ("lines", S + "electromagnetics/static/utils/static_utils.py (generate_dcip_sources_line, generate_dcip_survey)")],
    """checks/c25_lines.py. Oracles: the list of rows put in, read back from the sources and receivers; pairwise distances; the stations of a line written out by type. About 6 s.""",
)

prop(
    "C29",
    "Synthetic data are the predictions plus the noise asked for; seeds decide",
    """make_synthetic_data returns the data predicted for the model (clean) and, when asked, data that differ from it by Gaussian noise whose standard deviation is the relative error times the
    size of each datum and the noise floor, added as squares; errors and floors are recorded with the data, the simulation and the model given are not changed. The same seed gives the same noise, model, topography or derivative test whatever
    the state of the global generator; different seeds differ. Random models fill the bounds asked for. Residuals are predicted minus observed data.""",
    "all simulations, models, error levels, seeds",
    """The suite checks one simulation with one level and compares seeds of a single call.""",
    [S + "simulation.py", S + "utils/model_builder.py", S + "maps/", S + "objective_function.py"],
    [("synthetic data", S + "simulation.py (make_synthetic_data, residual)"), ("seeds", S + "typing/"), ("random models", S + "utils/model_builder.py (create_random_model)")],
    """checks/c29_synthetic.py. Simulations of ten families generated as in C01-C07; noise judged by its statistics over 300-3000 data of a linear simulation (bounds that fail once in 1e9) and by repetition. About 25 s.""",
)

prop(
    "C30",
    "Mass matrices belong to the current property, with inverses and derivatives",
    """For any mesh and any physical property given as a number, per cell, per axis, through a map or through its reciprocal, the cell, node, face and edge mass matrices of a simulation are the integrals of the
    property it has now, their inverses invert them, and their derivatives with respect to the model, asked as matrices or as products, transposed or not, with one field or several, are the derivatives of these matrices; fixed properties have none. This holds after
    any history of new models, values and maps.""",
    "all meshes, properties, maps, models, fields, histories",
    """The suite tests each matrix on two meshes with one map and one model, mostly once after construction.""",
    [S + "base/pde_simulation.py", S + "props.py"],
    [("matrices", S + "base/pde_simulation.py (with_property_mass_matrices)"), ("products", S + "base/pde_simulation.py (_inner_mat_mul_op)"), ("updates", S + "props.py (HasModel.model, Mapping)")],
    """checks/c30_mass.py. Oracles: sums over neighbouring cells (tensor meshes), discretize for the current property, central differences, products of the matrices with themselves. About 5 s.""",
)

prop(
    "C34",
    "Closed-form solutions are the fields of their sources",
    """The closed-form solutions of the library - harmonic and transient electric and magnetic dipoles in a whole space, with displacement currents, permeability and any orientation, the central loop on a half-space, poles and
    dipoles in a DC whole or half-space, spheres in electric, gravity and magnetic fields, magnetotelluric layered earths with chargeable and permeable layers, and dipoles in a casing - are the fields of the source described, inside and outside of bodies,
    in SI units. Electric field, current, magnetic field, flux density, vector potential and time derivative of one source agree with each other through Maxwell's equations; parts (galvanic, induction) add up to the whole.""",
    "all positions, orientations, properties, frequencies, times",
    """The suite uses these as references for numerical solutions at a few points, mostly for one component, with tolerances of a few percent.""",
    [S + "electromagnetics/analytics/", S + "potential_fields/gravity/analytics.py", S + "potential_fields/magnetics/analytics.py", S + "electromagnetics/natural_source/utils/analytic_1d.py"],
    [("dipoles", S + "electromagnetics/analytics/FDEM.py, FDEMDipolarfields.py, TDEM.py"), ("DC", S + "electromagnetics/analytics/DC.py"), ("spheres", S + "potential_fields/"), ("layered earth", S + "electromagnetics/natural_source/utils/analytic_1d.py, " + S + "electromagnetics/analytics/NSEM.py"), ("casing", S + "electromagnetics/analytics/FDEMcasing.py")],
    """checks/c34_analytics.py. Oracles: fields derived from the scalar Green's function by curls written out for a function of distance; Laplace transforms and limits; boundary conditions and differential relations by differences. About 15 s.""",
)
