"""Single source of properties.jsonl and MANIFEST.json:  python tools/meta.py"""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/einsteinpy/"
SYM = S + "symbolic/"
PY = "/opt/venv/bin/python"
TECH = "symbolic execution of the real code, claims decided by SMT (z3/cvc5 QF_NRA), counterexamples replayed"
NOTE = ("Each claim is an SMT query over all real inputs in the stated bounds (unsat = holds on every execution path "
        "of the encoded functions). Floats are modelled as exact reals; trusts the symx engine, whose encoding is "
        "compared with the real code at sampled points on every run, and the solvers.")

P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), na=None, note="", observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text},
                  why_tests_cant=why,
                  anchors={"files": [S + f for f in files],
                           "mechanism": [{"name": n, "where": w} for n, w in mech],
                           **({"observe_at": list(observe)} if observe else {})},
                  _na=na, _note=note))


prop("C01", "Coordinate transforms of positions agree with geometry and invert",
     "Every conversion of a position between Cartesian, spherical and Boyer-Lindquist coordinates denotes the same point "
     "as the textbook formulas, a conversion there and back returns the original coordinates (angles modulo a full turn), "
     "the time coordinate is unchanged, and the polar angle lies in [0, pi].",
     "all points off the coordinate axis/origin, all M >= 0 and 0 <= a <= 1",
     "Tests convert a few fixed points with one spin; the guarantee is over all points, octants and spins.",
     ["coordinates/conversion.py", "coordinates/core.py", "coordinates/utils.py"],
     [("conversion formulas", "coordinates/utils.py *_fast"), ("convert_*", "coordinates/conversion.py")])
prop("C02", "Velocity transforms are the derivatives of the position transforms",
     "Converting a velocity between coordinate systems gives the time derivative of the converted position along any "
     "curve with that position and velocity, and converting back returns the original velocity.",
     "all points off the axis, all velocities, all M >= 0 and 0 <= a <= 1",
     "Tests check hand-picked vectors; the Jacobian must be right at every point and velocity.",
     ["coordinates/conversion.py", "coordinates/differential.py", "coordinates/utils.py"],
     [("velocity formulas", "coordinates/utils.py *_fast")])
prop("C03", "4-velocity is future-pointing, normalised, and keeps the 3-velocity",
     "The 4-velocity a differential computes in a metric has g(u,u) = c^2 in the signature of that metric's sign "
     "convention, u^t > 0, and spatial part equal to the given velocity components scaled as documented; asking for it "
     "in a metric of a different coordinate system raises the coordinate error.",
     "all positions outside the horizons, all slower-than-light velocities, all M, a, Q",
     "Tests use a couple of fixed states in Schwarzschild and Kerr; normalisation must hold at every state.",
     ["coordinates/differential.py", "coordinates/utils.py", "metric/base_metric.py"],
     [("v_t", "coordinates/utils.py v0"), ("velocity/u0 properties", "coordinates/differential.py")])
prop("C04", "Results do not depend on the units inputs are expressed in",
     "Positions, velocities and black-hole parameters expressed in any units of the right kind (km, AU, degrees, solar "
     "masses, km/s, ...) give the same physical results as the same values expressed in SI units.",
     "all values of all inputs, for a set of unit choices per input",
     "Tests pass SI values nearly everywhere, so a dropped unit conversion is invisible.",
     ["coordinates/core.py", "coordinates/differential.py", "metric/base_metric.py", "metric/kerrnewman.py"],
     [("unit conversion", ".si / .to calls of the constructors")], over=("inputs", "configurations"))
prop("C05", "Metric tensors equal the Schwarzschild, Kerr and Kerr-Newman solutions",
     "The covariant metric at every point equals the textbook line element of the black hole (mass, spin and charge) and "
     "goes over to the Kerr metric when Q = 0 and to the Schwarzschild metric when a = 0.",
     "all M > 0, 0 <= a <= 1, Q and all points off the horizons and axis",
     "Tests compare a few components at fixed points, mostly against stored numbers.",
     ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/base_metric.py"],
     [("_g_cov", "metric/*.py")])
prop("C06", "Contravariant metric inverts the covariant one, incl. perturbations",
     "The contravariant metric is the matrix inverse of the covariant metric at every point for every supported black "
     "hole, and with a user perturbation both include exactly that perturbation.",
     "all M, a, Q, points; all symmetric perturbation matrices",
     "Tests invert at fixed points only.",
     ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py"],
     [("metric_contravariant / perturb", "metric/base_metric.py")])
prop("C07", "Christoffel symbols are those of the metric the object reports",
     "At every point the Christoffel symbols returned by a black-hole metric are symmetric in the lower indices and equal "
     "those of the Levi-Civita connection of the covariant metric the same object returns; the indices Kerr lists as nonzero "
     "are exactly those of the symbols that do not vanish identically.",
     "all M, a, Q, all points off the horizons and axis",
     "Tests compare against stored arrays at fixed points; the derivatives must be right everywhere.",
     ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"],
     [("_christoffels, _dg_dr, _dg_dtheta", "metric/kerr*.py")])
prop("C08", "The equations of motion are the geodesic (Lorentz-force) equations",
     "The right-hand side a metric supplies for motion equals u for the positions and -Gamma^a_bc u^b u^c (plus "
     "(q/m) F^a_b u^b for a charge in the Kerr-Newman field) for the velocities, built from the same metric.",
     "all states (position, 4-velocity), all M, a, Q, q",
     "Tests check one trajectory or the shape of the result.",
     ["metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py"],
     [("_f_vec", "metric/*.py")])
prop("C09", "Kerr-Newman fields are consistent: F = dA, F raised by the metric",
     "The Kerr-Newman electromagnetic tensor is antisymmetric, is the exterior derivative of the potential the object "
     "reports, its contravariant form is obtained by raising indices with the metric, and all are odd in the charge.",
     "all M, a, Q (either sign), all points off the horizons and axis",
     "Tests pin a few numbers at fixed points and positive charge.",
     ["metric/kerrnewman.py"], [("em_potential_covariant / em_tensor_*", "metric/kerrnewman.py")])
prop("C10", "Horizons and ergospheres are the zeros of Delta and of g_tt",
     "The singularity radii a metric reports are exactly the radii of the ring/centre singularity, of the ergospheres "
     "(g_tt = 0) and of the horizons (Delta = 0), ordered inner <= outer, for every polar angle.",
     "all M, a, Q with a real horizon, all polar angles",
     "Tests check a couple of values at one angle.",
     ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py"],
     [("singularities", "metric/base_metric.py")])
prop("C11", "Unphysical spins and mismatched coordinates are rejected",
     "A spin parameter outside [0, 1] is rejected with a value error and every spin inside is accepted and scaled to "
     "G M a / c^2; a metric given coordinates of another system raises the coordinate error instead of computing.",
     "all spins and masses, all combinations of metric and coordinate class",
     "Tests try one bad spin and one mismatch.",
     ["metric/base_metric.py", "metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py", "coordinates/utils.py"],
     [("alpha", "metric/base_metric.py"), ("coordinate check", "metric __init__")], over=("inputs", "configurations"))
prop("C12", "Geodesics start from a normalised, future-directed momentum",
     "A geodesic starts at the given position with the given spatial momentum, and its initial momentum satisfies "
     "g^ab p_a p_b = -1 (time-like) or 0 (light-like) with p^t > 0, for the built-in metrics and for a user-supplied "
     "metric function; an unknown metric name is refused.",
     "all positions outside the horizon, all momenta, spins and charges; all user metrics with g^tt < 0",
     "Tests use a handful of initial conditions and never a user metric with off-diagonal terms.",
     ["geodesic/geodesic.py", "geodesic/utils.py"], [("_P", "geodesic/utils.py"), ("Geodesic.__init__", "geodesic/geodesic.py")])
prop("C13", "The geodesic module's metrics invert the Schwarzschild/Kerr/Kerr-Newman ones",
     "The contravariant metric functions used for geodesics equal, at every point, the inverse of the textbook covariant "
     "metrics in units G = c = M = 1, and reduce to each other when charge or spin vanish.",
     "all points off the horizons and axis, all spins and charges",
     "Tests evaluate one point.", ["geodesic/utils.py"], [("_sch, _kerr, _kerrnewman", "geodesic/utils.py")])
prop("C14", "The geodesic integrators have their stated order",
     "One step of the geodesic integrator of order 2, 4, 6 or 8 agrees with the exact solution of Hamilton's equations of "
     "the metric up to terms of that order in the step size, and an unsupported order is refused.",
     "all metrics (as jets), initial states and step sizes, up to the truncation order",
     "Tests check conservation within a loose tolerance on a few orbits, which a lower-order scheme also passes.",
     ["integrators/fantasy.py", "integrators/utils.py"], [("Yoshida composition and flows", "integrators/fantasy.py")])
prop("C15", "Integrator steps are time-reversible (symplectic flows)",
     "A geodesic integration step of size h followed by one of size -h returns exactly to the starting state, for every "
     "order and every metric.",
     "all metric functions (uninterpreted), states and step sizes",
     "Tests never step backwards.", ["integrators/fantasy.py", "integrators/utils.py"],
     [("flow_A, flow_B, flow_mixed and their composition", "integrators/fantasy.py")])
prop("C16", "Reported trajectories are the integrator's states, in the requested coordinates",
     "The trajectory of a geodesic has one row per step with increasing affine parameter, equals the states produced by "
     "the integrator with the requested options, is transformed to Cartesian axes exactly when asked for, and a warning "
     "is issued exactly when the conserved norm drifts beyond the tolerances; an option left out has its documented default.",
     "all states the integrator can produce, all option values; bounded number of steps",
     "Tests check shapes and one or two columns.",
     ["geodesic/geodesic.py", "integrators/fantasy.py"],
     [("calculate_trajectory", "geodesic/geodesic.py")], over=("inputs", "configurations"))
prop("C17", "RK4naive is the classical fourth-order method and stops at its bound; RK45 asks scipy for what was requested",
     "One step of the RK4 integrator equals the classical fourth-order Runge-Kutta step for the given right-hand side, "
     "time advances by the step, and it keeps stepping towards its bound and stops there, in either direction. The adaptive "
     "stepper hands the function, state, bound and tolerances to scipy unchanged, with the documented default tolerances, and "
     "stepping a finished solver warns.",
     "all right-hand sides (uninterpreted), states, step sizes, bounds",
     "Tests integrate one linear ODE.", ["integrators/runge_kutta.py"], [("step", "integrators/runge_kutta.py")])
prop("C18", "Dual numbers compute exact derivatives",
     "Arithmetic, powers and elementary functions on dual numbers return the value and the exact derivative of the "
     "composed function, so metric derivatives taken this way equal the analytic partial derivatives.",
     "all values and derivatives in the domain of each operation, all expressions built from them",
     "Tests check a few numbers.", ["utils/dual.py"],
     [("DualNumber operators", "utils/dual.py")])
prop("C19", "FLRW scale factors solve the Friedmann equation of their era",
     "The reported scale factor has the proper growth law in each cosmic era, its reported derivative is the time "
     "derivative of the scale factor, and an unknown era is rejected.",
     "all positive times and tuning parameters, every era",
     "Tests compare against one number per era.", ["utils/scalar_factor.py", "constant.py"],
     [("scale_factor", "utils/scalar_factor.py")])
prop("C20", "Black-hole shadow integrands and critical impact parameter are exact",
     "For every mass and impact parameter, the shadow model's turning-point equation and critical impact parameter are those "
     "of null geodesics of the Schwarzschild metric, its red- and blue-shifted integrands are the received intensity of matter "
     "falling freely from rest, and the intensity of a ray is the integral of those integrands from the horizon, or in to the "
     "turning point and out again, to the edge of the field of view; smoothing resamples that profile on an even grid over "
     "the same range.",
     "all masses, impact parameters and fields of view; root finding and quadrature by their contracts",
     "Tests use one mass and check that arrays are produced.", ["rays/shadow.py"], [("Shadow", "rays/shadow.py")])
prop("C21", "Embedding hypersurface follows the Schwarzschild embedding equation",
     "For every mass, in any unit, the embedding's radius and slope are those of the isometric embedding of the Schwarzschild "
     "optical geometry, its profile accumulates that slope from just outside 3m to the bounds (9m/4 inward, 9m or 20m outward), "
     "and the surface is the profile's surface of revolution.", "all masses and radii; step sizes m, m/2 and m/5",
     "Tests use one mass and radius.",
     ["hypersurface/schwarzschildembedding.py"], [("gradient, radial_coord, get_values, get_values_surface", "hypersurface/schwarzschildembedding.py")])
prop("C23", "Symbolic Christoffel symbols are the Levi-Civita connection",
     "Christoffel symbols computed from any metric are torsion-free and metric-compatible, in every dimension and every "
     "index configuration.", "all metrics of bounded dimension, as generic jets",
     "Tests check listed components for a few named space-times.", ["symbolic/christoffel.py", "symbolic/metric.py"],
     [("from_metric", "symbolic/christoffel.py")])
prop("C24", "Riemann tensor has the curvature identities",
     "The Riemann tensor computed from a metric or from its Christoffel symbols is the curvature of the Levi-Civita "
     "connection, with its antisymmetries, pair symmetry and first Bianchi identity.",
     "all metrics of bounded dimension, as generic jets", "Tests check listed components.",
     ["symbolic/riemann.py"], [("from_christoffels", "symbolic/riemann.py")])
prop("C25", "Ricci tensor and scalar are the contractions of Riemann",
     "Ricci tensor and scalar equal the contractions of the Riemann tensor with the metric, the Ricci tensor is "
     "symmetric, and results do not depend on the constructor used.",
     "all metrics of bounded dimension, as generic jets", "Tests check listed components.", ["symbolic/ricci.py"],
     [("RicciTensor, RicciScalar", "symbolic/ricci.py")])
prop("C26", "Weyl and Schouten tensors satisfy their defining identities",
     "The Weyl tensor is trace-free and has the symmetries of Riemann, Riemann is recovered from Weyl, Schouten and the "
     "metric, and dimensions in which they are undefined are rejected.",
     "all metrics of bounded dimension, as generic jets", "Tests check a couple of vanishing cases.",
     ["symbolic/weyl.py", "symbolic/schouten.py"], [("from_metric", "symbolic/weyl.py")])
prop("C27", "Einstein and stress-energy tensors satisfy the field equations",
     "The Einstein tensor equals Ricci minus half the scalar times the metric, and the stress-energy tensor is "
     "T_ab = c^4/(8 pi G) (G_ab - Lambda g_ab), the Einstein field equation in the package's (+,-,-,-) convention, whichever "
     "constructor and metric configuration is used.",
     "all metrics of bounded dimension, as generic jets", "Tests check one metric.",
     ["symbolic/einstein.py", "symbolic/stress_energy_momentum.py"], [("from_metric", "symbolic/einstein.py")])
prop("C28", "Changing index configuration raises/lowers with the metric and inverts",
     "Changing the configuration of any tensor contracts each changed index with the metric or its inverse, converting "
     "back returns the original components, and the result is a tensor of the same kind with the requested configuration "
     "and its own metric; configurations of the wrong length or letters, arrays of the wrong rank or size and a change "
     "without any metric are refused, no configuration means the documented default, and a transformed metric has its own inverse.", "all tensor components and metrics, all configurations up to rank 4",
     "Tests try a few configurations of one tensor.",
     ["symbolic/tensor.py", "symbolic/vector.py", "symbolic/christoffel.py", "symbolic/riemann.py", "symbolic/ricci.py", "symbolic/weyl.py", "symbolic/schouten.py", "symbolic/einstein.py", "symbolic/stress_energy_momentum.py"],
     [("_change_config", "symbolic/tensor.py"), ("change_config", "every tensor class")], over=("inputs", "configurations"))
prop("C29", "Lorentz transformation acts with the right matrix on each index",
     "Transforming a tensor with a transformation matrix contracts each upper index with the matrix and each lower index "
     "with the inverse, so full contractions are invariant.", "all invertible matrices and components, configurations up to rank 3",
     "Tests use one boost.", ["symbolic/tensor.py", "symbolic/vector.py", "symbolic/metric.py"], [("lorentz_transform", "tensor classes")],
     over=("inputs", "configurations"))
prop("C30", "Tensor products and contractions are the index-wise sums",
     "The product of two tensors has components equal to the product of components, with the contraction of a chosen "
     "pair of indices equal to the sum over them, and the configuration of the result concatenates the remaining indices.",
     "all components, ranks up to 3, every contraction pair", "Tests contract one pair.",
     ["symbolic/tensor.py"], [("tensor_product", "symbolic/tensor.py")], over=("inputs", "configurations"))
prop("C31", "Substitution, simplification and lambdified tensors agree with the tensor",
     "Substituting, simplifying or lambdifying a tensor changes no component's value and keeps the index configuration, and "
     "the numeric function evaluates exactly the component expressions in the argument order it reports.",
     "all component expressions of bounded shape and all argument values", "Tests check one example.",
     ["symbolic/tensor.py", "symbolic/helpers.py"], [("subs, simplify, tensor_lambdify", "symbolic/tensor.py")])
prop("C32", "Predefined space-times satisfy the field equations they are named for",
     "Every predefined vacuum or Lambda-vacuum metric satisfies R_ab = Lambda g_ab identically, the other predefined "
     "metrics have the Ricci tensor of their named matter (electrovacuum trace, scalar field, radiation, dust), and each "
     "predefined metric has the signature and line element of its namesake with the parameters the caller passes; "
     "metrics are found by any part of their name and predefined constants by theirs.",
     "all coordinates and parameters",
     "Tests check only that an object of the right type is returned.", ["symbolic/predefined/"],
     [("predefined metrics", "symbolic/predefined")])
prop("C33", "Plots show the surfaces and trajectories they are given",
     "Static and interactive plotters draw exactly the requested trajectory columns, with nothing added or dropped; the horizon "
     "and ergosphere drawn with them have the radii 1 + sqrt(1 - a^2) and 1 + sqrt(1 - a^2 cos^2(theta)) of the geodesic's spin; "
     "animations keep the trajectory inside the axes; hypersurface and shadow plots draw the given surface and intensity "
     "profile; axes are labelled with the coordinate they show; unknown coordinates or aspects are rejected.", "all spins 0..1, all trajectories, surfaces and profiles of bounded size",
     "Tests only check that a figure is created.", ["plotting/geodesic/static.py", "plotting/geodesic/interactive.py", "plotting/hypersurface/core.py", "plotting/rays/shadow.py"],
     [("plot, plot2D, parametric_plot, animate, _draw_bh", "plotting/geodesic"), ("plot", "plotting/hypersurface/core.py, plotting/rays/shadow.py")])
prop("C34", "Coordinates and bodies report the values they were built from",
     "A position or velocity object returns, through its attributes, indices, names, position() and values(), exactly the "
     "components it was given (in SI units, with ct first in position()), whatever units and argument style were used; "
     "conversions to or from Boyer-Lindquist coordinates without the body's mass and spin are refused; a body "
     "carries its mass, charge, radius, parent, position and velocity unchanged; arguments of the wrong physical kind are "
     "refused; lorentz_factor is 1/sqrt(1 - v^2/c^2).",
     "all component values, for a set of units and calling styles", "Tests index one object with SI values.",
     ["coordinates/core.py", "coordinates/differential.py", "coordinates/conversion.py", "coordinates/utils.py", "bodies.py", "units.py"],
     [("__init__, __getitem__, position, values", "coordinates/core.py, differential.py, conversion.py"), ("Body.__post_init__", "bodies.py"),
      ("lorentz_factor", "coordinates/utils.py"), ("primitive", "units.py")], over=("inputs", "configurations"))

if __name__ == "__main__":
    done = {f[:-3].upper() for f in os.listdir(os.path.join(VERIF, "checks")) if f.startswith("c") and f[1:3].isdigit()}
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in done and not p["_na"]:
            checks.append(dict(property=p["id"], quick_cmd=f"{PY} run.py {p['id']}",
                               thorough_cmd=f"VERIF_TIER=thorough {PY} run.py {p['id']}",
                               technique=TECH, level="other", level_note=NOTE + (" " + p["_note"] if p["_note"] else "")))
        else:
            na.append(dict(property=p["id"], reason=p["_na"] or "not built yet"))
    m = dict(version=1, setup_cmd=f"{PY} -c \"import numpy, sympy, astropy, mpmath\" && z3-new --version",
             checks=checks, not_applicable=na,
             notes="No hooks in /repo. Every check loads /repo/src afresh and executes it symbolically; see DESIGN.md.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "claimed", len(na), "not applicable")
