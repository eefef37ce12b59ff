#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

PF, MO, CZ, ST, DE = ("oneka/probabilityfield.py", "oneka/model.py", "oneka/capturezone.py",
                      "oneka/stochastic.py", "oneka/deterministic.py")
ON, UT, VI, AR = "oneka/oneka.py", "oneka/utilities.py", "oneka/visualize.py", "oneka/archive.py"

p("C01", "Capture weights count each realization once per visited node",
  """After any sequence of inserting tracks, registering or discarding realizations and enlarging the grid, the weight
  accumulated at every grid node equals the sum of the weights of exactly those registered realizations that had at least one
  track passing closer than the umbra to that node, each realization counted once, and the total weight equals the sum of all
  registered weights. A discarded realization contributes nothing, registering starts the next realization with nothing
  visited, and the result does not depend on when or how often the grid was enlarged.""",
  ["histories"], "all operation histories on one probability field: tracks, register(weight), reset, expand, in any order, with and without an initial origin",
  "The tests build a field and expand it twice; they never rasterize, register or reset, and say nothing about sequences of those.",
  [PF], [("registration grid + accumulated grid", "ProbabilityField.rasterize/insert/register/reset"),
         ("copy of both grids on growth", "ProbabilityField.expand")],
  ["ProbabilityField.pgrid, .rgrid, .total_weight"],
  [dict(name="rgrid", meaning="nodes visited by the realization in progress", where=PF),
   dict(name="pgrid", meaning="accumulated weight per node", where=PF)])

p("C02", "The auto-expanding grid stays one lattice and loses nothing",
  """Through any sequence of extent requests, the grid's nodes stay on the one lattice fixed when the grid first got its extent,
  with the given spacings; the row and column counts, the four bounds and the shapes of the grids always agree; every requested
  extent ends up strictly inside the bounds; and values already recorded stay attached to the same coordinates. The grid never
  shrinks, a request already strictly inside changes nothing, a newly added edge lies less than two spacings (plus rounding)
  beyond what was requested, and a reversed extent or a non-positive spacing is rejected and leaves the grid unchanged.""",
  ["histories"], "all sequences of extent requests (inside, touching an edge, beyond one or several edges, reversed) on fields with and without an origin, at small and at UTM-sized coordinates",
  "One expand from empty and one no-op expand are tested; growth of an existing grid (the index shifts) is not exercised at all.",
  [PF], [("growth loops and row/column shifts", "ProbabilityField.expand")],
  ["xmin, xmax, ymin, ymax, nrows, ncols, pgrid, rgrid"])

p("C03", "A node is marked exactly when a track passes closer than the umbra",
  """Inserting a track of two or more vertices marks precisely the lattice nodes whose Euclidean distance to the track (its line
  segments including their end points) is less than the umbra, growing the grid so that none of them is lost, whatever the direction,
  length or position of its segments and including segments of zero length. The point-to-segment distance it is based on is
  the true squared distance for every geometry.""",
  ["inputs"], "all tracks over a lattice of vertices, all umbra/spacing ratios (smaller than, equal to and several times the spacing), square and non-square spacings, all point/segment geometries",
  "A single point/segment pair is tested; insertion and rasterization are not ('TODO: add tests for insert and rasterize').",
  [PF], [("sub-grid window and distance test", "ProbabilityField.insert"), ("segment distance", "ProbabilityField.distancesquared"),
         ("growth before insertion", "ProbabilityField.rasterize")], ["ProbabilityField.rgrid"])

p("C04", "Discharge is the negative gradient of the stated discharge potential",
  """Everywhere away from the wells, the discharge potential is A dx^2 + B dy^2 + C dx dy + D dx + E dy + F, with dx and dy measured from
  the model's local origin, plus Q/(2 pi) ln r for every well, and the discharge vector is minus its gradient. Hence
  contributions superpose, the order of the wells is irrelevant, each well withdraws exactly its Q from any closed curve around it and
  nothing from a curve that does not enclose it, and the regional flow withdraws 2(A+B) per unit area.""",
  ["inputs", "configurations"], "all coefficient vectors, well sets, local origins and evaluation points",
  "Two points of one model with all-positive unit coefficients, origin (0,0) and two symmetric wells are tested, so swapped or mis-signed terms cancel.",
  [MO], [("potential", "Model.compute_potential, compute_potential_wells_only"), ("discharge", "Model.compute_discharge")],
  ["return values of compute_potential / compute_potential_wells_only / compute_discharge"])

p("C05", "Head and velocity follow the confined/unconfined aquifer law",
  """The head is the non-decreasing, continuous inverse of the potential: Phi = K h^2/2 where h is below the aquifer thickness H and
  Phi = K H (h - H/2) where it is not; a point whose potential is not positive is reported as an aquifer (dry) error by both head and velocity and never
  yields a number. The seepage velocity is the discharge divided by porosity times the saturated thickness min(h, H), and the
  confined shortcut returns the same velocity wherever h >= H.""",
  ["inputs"], "all potentials, including both sides of and exactly at the dry and confined/unconfined boundaries, for all aquifer parameters",
  "Only confined points are tested; the unconfined branch, the dry branch and the shortcut are never executed.",
  [MO], [("head law", "Model.compute_head"), ("velocity", "Model.compute_velocity, compute_velocity_confined")],
  ["return values and AquiferError"])

p("C06", "The regional-flow fit is the weighted least-squares optimum",
  """For any admissible observation set the fitted six coefficients minimize the sum of squared differences between observed and modelled
  potential, each divided by its first-order standard deviation (K min(h,H) times the head's standard deviation, with K (h^2 + sigma^2)/2 as expected potential where unconfined), after
  subtracting the wells' contribution, and the returned covariance is the inverse of the normal matrix. Consequently noise-free data from any
  regional flow are reproduced exactly, and the result does not depend on the order of the observations or of the wells.
  The model then holds the fitted coefficients and the given origin, and an observation at or below the base is rejected.""",
  ["inputs", "configurations"], "all regional flows, aquifer regimes (confined, unconfined, mixed), origins, base elevations, well sets and observation orders over a bounded alphabet",
  "One confined data set with equal weights and two symmetric wells is tested: weights, unconfined observations, base elevation and ordering are not.",
  [MO], [("weighted matrices", "Model.construct_fit"), ("solution and covariance", "Model.compute_fit, fit_regional_flow")],
  ["coef_ev, coef_cov, Model.coef, Model.xo, Model.yo"])

p("C07", "Observation filtering drops near-well data and merges duplicates",
  """An observation is dropped exactly when it lies at a distance not greater than the buffer from some well, whichever well that is. Among the rest,
  observations less than 1 unit from an earlier retained one are merged into it wherever they stand in the list, giving the earlier one's location, the inverse-variance weighted mean
  head and standard deviation 1/sqrt(sum 1/sigma^2); all others are passed through unchanged and in order, no two retained observations are less than
  1 unit apart, and the inputs are not modified.""",
  ["inputs", "histories"], "all lists of observations (with repetitions at any positions) and wells over a small alphabet of locations",
  "No test touches the filter.",
  [UT], [("buffer test and duplicate averaging", "filter_obs")], ["return value of filter_obs"])

p("C08", "Traces follow the flow, bounded in step and ending at the duration",
  """A trace starts at its starting point, terminates, and its successive vertices lie on the true flow path to within the local error tolerance,
  each less than the maximum step from the one before. Without a failure it covers exactly the requested duration: its last vertex is where the
  flow carries the starting point in that time (within the accumulated tolerance), and a negative duration follows the flow the opposite way.""",
  ["inputs"], "all starting points, durations of both signs, tolerances and maximum steps for a family of flow fields with known solutions, and discontinuous fields for the step bound and termination",
  "No test runs the integrator.",
  [CZ], [("Dormand-Prince stages, error estimate and step control", "compute_backtrace")], ["returned vertices; evaluation points of the velocity function"])

p("C09", "A failing velocity evaluation ends one trace cleanly",
  """Whenever an evaluation of the velocity fails - it raises an error such as a dry aquifer, or yields a non-finite value - the trace
  terminates and returns exactly the vertices accepted before that evaluation, all finite, without raising, and a warning is written to the run's log.
  Other traces of the same capture zone are unaffected, and a user's interrupt is not swallowed.""",
  ["fault_sequences"], "a fault of every kind at every velocity evaluation of a trace, and at every trace of a capture zone",
  "No test runs the integrator, let alone with failures; the number of fault positions is the number of evaluations.",
  [CZ, MO], [("guard around the integration loop", "compute_backtrace")], ["returned vertices, log records of 'Oneka' loggers, propagated exceptions"])

p("C10", "A capture zone is the once-counted union of evenly started traces",
  """Computing a capture zone starts one trace at each of npaths directions evenly spaced around the target, beginning due east, at one unit beyond the well
  radius; marks every node passed closer than the umbra by any of them, once; and adds exactly one realization of the given weight
  to the field, on top of whatever was registered there before.""",
  ["inputs", "histories"], "all small numbers of paths, well positions and radii, flow directions, weights, umbrae and sequences of capture zones on one field",
  "No test computes a capture zone.",
  [CZ, PF], [("starting circle, rasterize, register", "compute_capturezone")], ["ProbabilityField.pgrid, total_weight"])

p("C11", "Parameter distributions: what is accepted is sampled and averaged right",
  """A scalar, pair or triple (tuple or list) is accepted as a distribution exactly when its values are ordered and lie within the given bounds, and every
  accepted finite distribution, degenerate ones included, can be sampled and averaged. A scalar always yields itself; a pair is uniform on [min, max];
  a triple is triangular with the given minimum, mode and maximum; the mean is that of the distribution and lies within its support.""",
  ["inputs"], "all scalars, pairs and triples over an ordered alphabet including ties and the bounds, and all answers of the random source",
  "No test touches the distributions; a random test could not tell the shape of a distribution.",
  [ST], [("validation", "isdistribution"), ("sampling", "generate_random_variate"), ("mean", "compute_variate_mean")],
  ["return values under a controlled random source"])

p("C12", "The deterministic zone is that of the mean parameters",
  """The deterministic capture zone marks exactly the nodes passed closer than the umbra by the traces from the target well through the flow defined by the mean discharge of
  every well, the mean conductivity, porosity and thickness, and the fitted expected regional flow about the target well, with total weight one. It does not depend on any
  random source, and with the confined setting the velocities use the full
  thickness throughout, which changes nothing where the aquifer is confined throughout.""",
  ["inputs", "configurations"], "all combinations of target well, distribution forms, aquifer regimes, flow directions, trace durations of either sign and grid settings over a bounded alphabet",
  "No test runs a deterministic capture zone.",
  [DE, ST, MO, CZ], [("mean parameters, fit, capture zone", "create_deterministic_capturezone")], ["returned ProbabilityField"])

p("C13", "Every stochastic realization uses its own draws and counts once",
  """A stochastic run of N realizations yields total weight N, and at every node the number of realizations whose traces pass closer than the umbra. Each
  realization draws anew the discharge of every well, the conductivity, porosity and thickness, refits the regional flow with those values, and draws the
  six coefficients from the multivariate normal law with that fit's expectation and covariance; nothing carries over from one realization to the next.""",
  ["histories", "inputs"], "all answer sequences of the random source over a small alphabet of quantiles and up to three realizations",
  "No test runs a stochastic capture zone; a run with real randomness has no expected value to compare with.",
  [ST, MO, CZ, PF], [("realization loop", "create_stochastic_capturezone")], ["returned ProbabilityField; requests made to the random source"])

p("C14", "Without uncertainty the stochastic zone is the deterministic one",
  """When every parameter is a constant (or a degenerate distribution) and the observation errors are negligible, every realization of a stochastic run marks the same nodes as
  the deterministic run of the same problem, so the capture probabilities are exactly 0 or 1 and agree with the deterministic zone, and the two grids cover
  the same lattice.""",
  ["configurations"], "all targets, aquifer regimes, degenerate distribution forms and numbers of realizations over a bounded alphabet",
  "Neither run mode is tested.",
  [ST, DE], [("two separate implementations of the same pipeline", "create_stochastic_capturezone, create_deterministic_capturezone")],
  ["returned ProbabilityFields"])

p("C15", "Invalid runs are refused before any work, valid ones complete",
  """A run is refused with an assertion error, before it computes, plots or archives anything, whenever one of its arguments is out of its range: target not an index of a well; npaths, buffer, spacing,
  umbra, tol or maxstep not positive; smooth negative; duration zero; a distribution ill-formed, out of its bounds (porosity at most 1) or identically zero for an aquifer property;
  fewer than seven observations before or after filtering; a well or observation that is malformed, has a non-positive radius or a non-positive standard deviation; or one of these values has the wrong type.
  Every otherwise well-posed run within these ranges, including one that leaves all optional arguments at their defaults, completes, archives itself once and returns its probability field.""",
  ["inputs"], "every single argument (and pairs of arguments) set to every boundary value of its range, both run modes",
  "No test calls the entry point.",
  [ON, ST, UT], [("argument assertions", "oneka"), ("distribution validity", "isdistribution")], ["AssertionError, files written, figures made, returned field"])

p("C16", "Archives reload identically, are never half-read and never overwritten",
  """Loading the archive of a run gives back every argument of that run, and its probability field, under its own name and exactly as given. A later run never
  destroys or alters an earlier run's archive, even within the same second. An archive cut short at any byte by a crash is either refused with an error or read back
  completely, never with altered content.""",
  ["crash_points", "histories"], "every truncation point of an archive, all sequences of runs under every advance of the clock, all argument values over a bounded alphabet",
  "No test touches the archive.",
  [AR, ON], [("pickled dictionary in a bzip2 file named by time", "dump_oneka, load_oneka")], ["files in the working directory, load_oneka's result"])

p("C17", "Reported areas and probabilities are those of the field",
  """The impact curve pairs, for every k, the k-th largest node probability (node weight over total weight) with k times the area of one grid cell; the deterministic area is the number of visited nodes times the
  cell area; the maps show each node's (for the stochastic map optionally Gaussian-smoothed) probability at its own coordinates, with the target, wells and observations at theirs. The decile table of a run lists, for each level 0.05 to 0.95, the first point of that curve not exceeding
  the level, in both units, and a field without any registered weight is refused rather than reported.""",
  ["inputs", "configurations"], "all small probability fields (every assignment of weights to a small grid, square or not) and run results",
  "No test touches the reports.",
  [VI, ON], [("impact curve, area, contour map", "create_impact_plot, create_deterministic_plot, create_probability_plot"), ("decile table", "oneka")],
  ["return values, arguments reaching the plotting library, log records"])

p("C18", "Models, fields and inputs do not leak into one another",
  """No sequence of operations on one model or probability field - construction, assignment or in-place change of its coefficients, fitting, tracing, rasterizing, registering - changes
  the answers of another one, past or future, and none of the library's computations modifies the wells, observations, tracks or coefficient arrays it was given. Repeating a query
  without an intervening change to the same object gives the identical answer.""",
  ["histories"], "all interleaved operation histories on two or three objects up to a bounded length",
  "The tests use one object per test and look at it once.",
  [MO, PF, DE, ST, UT], [("coefficient storage", "Model.coef setter and default argument"), ("grid allocation", "ProbabilityField.__init__, expand")],
  ["answers of every live object after every operation"])

p("C19", "Head and potential maps show the model, with gaps where it is dry",
  """The head map and the potential map evaluate the model at every node of a regular grid that spans exactly the given window with the given numbers of rows and columns, placing each value at
  its own coordinates. A location where the aquifer is dry is left blank (not a number) in the head map, and no combination of wet and dry locations makes either map fail.""",
  ["inputs"], "all wet/dry/confined patterns over small windows, all window shapes and row/column counts, and every pattern of per-node dry failures",
  "No test touches the maps.",
  [VI, MO], [("map loops", "contour_head, contour_potential")], ["arguments reaching the plotting library"])

p("C20", "The summary table states the true statistics of every column",
  """For any table of values with at least one number per column, the summary reports for each column, in the given format and order, the count, minimum, median, maximum, mean and (population) standard deviation of
  that column's values that are not NaN, under its own name; the columns do not influence one another.""",
  ["inputs"], "all small tables over an alphabet of values including ties and NaN, all column counts and formats",
  "No test touches the summary.",
  [UT], [("column statistics and layout", "summary_statistics")], ["text of the returned buffer"])

p("C21", "Shipped data sets run as stated and the driver passes them through",
  """Every shipped data module passes the entry point's validation and keeps enough observations for the fit. Running the driver on a data module hands each of its settings to the run
  under its proper meaning, exactly once and unchanged, with a log file opened for that run that receives the run's messages and those of no later run, also when a run is refused; naming a module that does not exist runs nothing and says so.""",
  ["configurations"], "all shipped data modules, and every single setting of a synthetic module varied",
  "No test imports the data modules' values or calls the driver.",
  ["runme.py", "data/basic.py", "data/paynesville.py", ON], [("positional hand-over of 19 settings", "runme.main")], ["arguments received by the entry point, log file, printed text"])

p("C22", "Capture zones do not depend on coordinates, orientation or list order",
  """Shifting all coordinates of a problem (also by UTM-sized amounts), mirroring it or turning it by a right angle (with a number of paths whose starting directions map onto themselves), raising the base and all heads by the same amount, or permuting the wells or the observations
  shifts, mirrors or turns the capture zone with it and changes nothing else, up to the tracing tolerance. Scaling all discharges, the conductivity and the porosity by one factor leaves the zone unchanged, as does multiplying conductivity and discharges while dividing the duration.""",
  ["configurations", "inputs"], "all of these transformations and their compositions, on a bounded family of problems in both run modes",
  "No test computes a capture zone; a symmetric test point hides swapped axes.",
  [DE, ST, MO, CZ, PF, UT], [("whole pipeline", "create_deterministic_capturezone, create_stochastic_capturezone, filter_obs")], ["returned ProbabilityFields"])

p("C23", "Longer, wider or denser tracing never loses captured nodes",
  """On the same problem, a longer duration, a larger umbra or a multiple of the number of paths never removes a node from the capture zone (up to the tracing tolerance), and the capture zone always lies strictly
  inside the grid: the outermost rows and columns are never visited.""",
  ["inputs", "configurations"], "all ordered pairs of settings from a bounded alphabet of durations, umbrae and path counts, over a family of problems",
  "No test computes a capture zone.",
  [CZ, PF], [("trace length, marking window, grid growth", "compute_capturezone, compute_backtrace, ProbabilityField.rasterize")], ["returned ProbabilityFields"])

p("C24", "The run log records the run's inputs and results",
  """The log of every run names each of its settings with the value given (to two decimals at least), lists every well and every observation given, says which observations were removed or averaged and lists every one that stays
  active with its index, and gives, per realization, the base, conductivity, porosity, thickness, fitted and drawn coefficients and recharge (-2(A+B)) actually used, or for the deterministic run the base, conductivity, porosity, coefficients and recharge; the mode (stochastic or deterministic) is the one that ran.""",
  ["inputs", "configurations"], "every setting varied singly, both run modes, all filter outcomes over a small alphabet",
  "No test reads the log.",
  [ON, ST, DE, UT], [("run header", "log_the_run"), ("filter log", "filter_obs"), ("realization log", "create_stochastic_capturezone, create_deterministic_capturezone")],
  ["records of the 'Oneka' logger"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
