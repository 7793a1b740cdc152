"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
S = "src/pykrige/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=S + c) for a, b, c in state]
    P.append(d)

NOINP = "The tests evaluate a handful of fixed data sets (mostly one 5- or 10-point set and one file of reference values); "

p("C01", "2D ordinary kriging returns the best linear unbiased prediction",
  "For any two-dimensional data set, any variogram model (built-in or custom function) with explicit parameters, any anisotropy scaling/angle and any evaluation point, ordinary kriging returns as estimate and variance exactly the solution of the ordinary kriging equations (weights summing to one, mean-squared prediction error of those weights). This holds with euclidean coordinates (distances after rotating by the anisotropy angle and stretching the second axis) and with geographic coordinates (great-circle distance in degrees, longitudes in any wrap), and for every backend.",
  ["inputs", "configurations"], "data sets, evaluation points, variogram models and parameters, anisotropies, coordinate types, backends",
  NOINP + "the kriging equations have to hold for every geometry, model and parameter vector, which only an independent solver can decide.",
  ["ok.py", "core.py", "variogram_models.py", "lib/cok.pyx", "lib/variogram_models.pyx"],
  [("kriging matrix and right-hand side", "ok.py:_get_kriging_matrix/_exec_vector/_exec_loop"), ("compiled loop", "lib/cok.pyx:_c_exec_loop"), ("coordinate adjustment", "core.py:_adjust_for_anisotropy")],
  ["OrdinaryKriging(...).execute(...)"])
p("C02", "3D ordinary kriging returns the best linear unbiased prediction",
  "For any three-dimensional data set, any variogram model with explicit parameters, any anisotropy (two scalings, three angles) and any evaluation point, 3D ordinary kriging returns as estimate and variance exactly the solution of the ordinary kriging equations for distances taken after rotating about x, y and z and stretching the second and third axes. This holds for every backend.",
  ["inputs", "configurations"], "3D data sets, evaluation points, variogram models and parameters, scalings and angles, backends",
  NOINP + "in 3D the tests use one data set and rotations one axis at a time; combinations of all three angles and two scalings are unbounded.",
  ["ok3d.py", "core.py", "variogram_models.py", "lib/cok.pyx"],
  [("kriging matrix and right-hand side", "ok3d.py:_get_kriging_matrix/_exec_vector/_exec_loop"), ("coordinate adjustment", "core.py:_adjust_for_anisotropy")],
  ["OrdinaryKriging3D(...).execute(...)"])
p("C03", "2D universal kriging solves the universal kriging system for every drift",
  "For any two-dimensional data set, variogram, anisotropy and any combination of drift terms (regional_linear, point_log, external_Z, specified, functional, several of each where allowed, or none), universal kriging returns as estimate and variance exactly the solution of the universal kriging equations with those drift functions. External drift is looked up at the original coordinates; point-logarithmic and functional drifts are evaluated in the anisotropy-adjusted frame; both backends agree with this.",
  ["inputs", "configurations"], "data sets, evaluation points and grids, variograms, anisotropies, subsets and numbers of drift terms, backends",
  NOINP + "each drift is tested alone against recorded values on one data set; combinations of drifts, anisotropy, masks and styles are never exercised together.",
  ["uk.py", "core.py", "variogram_models.py"],
  [("drift columns of the kriging matrix", "uk.py:_get_kriging_matrix"), ("drift entries of the right-hand side", "uk.py:_exec_vector/_exec_loop"), ("external drift lookup", "uk.py:_calculate_data_point_zscalars")],
  ["UniversalKriging(...).execute(...)"])
p("C04", "3D universal kriging solves the universal kriging system for every drift",
  "For any three-dimensional data set, variogram, anisotropy and any combination of the supported drift terms (regional_linear, specified, functional, several of the latter two, or none), 3D universal kriging returns as estimate and variance exactly the solution of the universal kriging equations with those drift functions, in both backends.",
  ["inputs", "configurations"], "3D data sets, evaluation points and grids, variograms, anisotropies, subsets of drift terms, backends",
  NOINP + "3D drifts are compared with each other on one tiny data set only.",
  ["uk3d.py", "core.py", "variogram_models.py"],
  [("drift columns of the kriging matrix", "uk3d.py:_get_kriging_matrix"), ("drift entries of the right-hand side", "uk3d.py:_exec_vector/_exec_loop")],
  ["UniversalKriging3D(...).execute(...)"])
p("C05", "Data points are honoured exactly, or filtered when exact_values is False",
  "With exact_values=True every kriging class and backend (also with a moving window or pseudo-inverse) returns at each data location the observed value and zero variance, whatever the nugget. With exact_values=False and a positive nugget the prediction at a data location is instead the value and variance obtained when the evaluation point carries the full nugget towards every data point, and away from data locations and for zero nugget the flag changes nothing.",
  ["inputs", "configurations"], "data sets, models with and without nugget, classes, backends, windows, evaluation points at and off data locations",
  NOINP + "exactness is tested on one data set in one backend; it must hold for all data, nuggets and backends.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "lib/cok.pyx"],
  [("coincidence test with eps and exact_values", "ok.py:_exec_vector/_exec_loop/_exec_loop_moving_window"), ("compiled coincidence test", "lib/cok.pyx:check_b_vect")],
  ["estimate and variance at data locations"])
p("C06", "All backends return the same estimates and variances",
  "For the same object and call, the vectorized, loop and (where supported) C backends return the same estimates and variances at every unmasked point, in every execution style, for every variogram model, with and without nugget, exact_values, pseudo-inverse, drift terms and (loop and C) a moving window. What a backend does not support is refused with an error rather than computed differently.",
  ["inputs", "configurations"], "objects of the four kriging classes, styles, masks, windows, backends",
  NOINP + "backends are compared on a few fixed cases, and without the compiled extension the C comparison is vacuous.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "lib/cok.pyx", "lib/variogram_models.pyx"],
  [("per-backend solvers", "ok.py:execute"), ("compiled solvers", "lib/cok.pyx"), ("compiled variogram models", "lib/variogram_models.pyx")],
  ["execute(..., backend=...)"])
p("C07", "Grid, points and masked execution describe the same field in the same layout",
  "Grid execution returns an array whose entry [row j, column i] (3D: [z k, y j, x i]) is the result of points execution at (x_i, y_j[, z_k]); masked execution returns a masked array of the same shape with exactly the given mask (also when the mask or a specified-drift grid is passed transposed) whose unmasked entries equal those of grid execution. This holds for every kriging class, backend and grid size including a single row, column or point, and a point's result does not depend on which other points are evaluated with it.",
  ["inputs", "configurations"], "grids of any shape, masks, point lists, classes, backends",
  NOINP + "layout is tested on nearly square grids with one mask; swapped axes, thin grids and transposed masks in every class and backend are not.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "lib/cok.pyx"],
  [("meshgrid, mask orientation and reshape", "ok.py:execute; ok3d.py:execute; uk.py:execute; uk3d.py:execute")],
  ["shape, mask and entries of the arrays returned by execute"])
p("C08", "Moving-window kriging equals ordinary kriging on the nearest data points",
  "With n_closest_points=k the ordinary kriging result at a point equals the result of ordinary kriging using only the k data points closest to it (in the anisotropy-adjusted frame, or by great-circle distance for geographic coordinates), with the same variogram parameters, in 2D and 3D and in both supporting backends. With k at or above the number of data points it equals kriging without a window.",
  ["inputs", "configurations"], "data sets, window sizes, anisotropies, coordinate types, evaluation points, styles, backends",
  NOINP + "moving windows are tested on one data set per dimension and compared between backends, not against the definition.",
  ["ok.py", "ok3d.py", "lib/cok.pyx"],
  [("neighbour search", "ok.py:execute; ok3d.py:execute"), ("window solvers", "ok.py:_exec_loop_moving_window; ok3d.py:_exec_loop_moving_window; lib/cok.pyx:_c_exec_loop_moving_window")],
  ["execute(..., n_closest_points=k)"])
p("C09", "Kriging is unbiased and reproduces its drift functions",
  "Constant data are predicted as that constant everywhere by all kriging classes, and if the data are an exact linear combination of a constant and the drift terms of a universal kriging object then the prediction at every point is that combination evaluated there, for any variogram, anisotropy, backend and style. Adding such a combination to arbitrary data adds it to the predictions and leaves the variances unchanged.",
  ["inputs", "configurations"], "data sets, drift combinations and coefficients, classes, variograms, anisotropies, backends, styles",
  NOINP + "no test feeds data generated from the drift terms, so the unbiasedness rows are checked only indirectly.",
  ["uk.py", "uk3d.py", "ok.py", "ok3d.py"],
  [("unbiasedness rows and drift columns", "uk.py:_get_kriging_matrix; uk3d.py:_get_kriging_matrix")],
  ["execute"])
p("C10", "Equivalent ways of giving a drift give the same results",
  "The same drift supplied as regional_linear, as functional callables, as specified arrays or (2D) as a gridded external_Z term gives the same estimates and variances. External drift is exact bilinear interpolation of the grid (any spacing, orientation or order of its axes) and points outside the grid are refused; a point-logarithmic term equals the functional drift minus strength times log-distance to the well in the adjusted frame, with log-distance taken as -100 exactly at the well.",
  ["inputs", "configurations"], "data sets, drift grids, wells, coefficients, anisotropies, styles, backends",
  NOINP + "equivalences are tested for one planar field; irregular, descending or transposed grids and points on cell borders are not.",
  ["uk.py", "uk3d.py"],
  [("bilinear lookup", "uk.py:_calculate_data_point_zscalars"), ("drift initialisation", "uk.py:__init__; uk3d.py:__init__")],
  ["execute of two universal kriging objects"])
p("C11", "Kriging obeys its symmetries: affine data, order, motion and scaling",
  "With fixed variogram parameters, predictions are affine in the data values and variances do not depend on them; results do not depend on the order of the data or evaluation points, are unchanged by translating or (isotropic case) rotating or reflecting all coordinates together, and scaling the variogram by c scales variances by c only. Kriging with an anisotropy equals isotropic kriging of coordinates rotated and stretched beforehand, and variances are never negative beyond rounding.",
  ["inputs", "configurations"], "data sets, transformations, all four classes, variograms, anisotropies, backends",
  NOINP + "none of these relations is tested between two computations except one permutation.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "core.py"],
  [("coordinate adjustment about the data centre", "core.py:_adjust_for_anisotropy")],
  ["execute on transformed inputs"])
p("C12", "Variogram models follow their documented formulas and parameter forms",
  "Each built-in variogram model evaluates, for every distance and parameter set, to its documented formula (linear, power, gaussian with range*4/7, spherical, exponential and hole-effect with range/3), in Python and as seen through kriging with the compiled backend. A parameter list with the full sill, a dict with 'sill' and a dict with 'psill' describe the same model, and a custom function receives exactly the given parameter list; all these forms give identical kriging results.",
  ["inputs", "configurations"], "distances including zero and beyond the range, parameter vectors, parameter forms, models, classes",
  NOINP + "formulas are spot-checked at a few distances, and the compiled models not at all by themselves.",
  ["variogram_models.py", "lib/variogram_models.pyx", "core.py"],
  [("model functions", "variogram_models.py"), ("compiled model functions", "lib/variogram_models.pyx"), ("parameter forms", "core.py:_make_variogram_parameter_list")],
  ["variogram_models functions", "get_variogram_points()", "variogram_model_parameters", "execute"])
p("C13", "The experimental variogram and its automatic fit are correct",
  "The lags and semivariances of every kriging object are the mean distance and mean half squared difference of the data pairs in nlags equal-width distance bins between the smallest and largest distance (each pair counted once, the largest pair included, empty bins dropped), measured in the adjusted frame or as great-circle distance. When no parameters are given, the fitted parameters lie within the model's bounds and minimise the (optionally weighted) soft-L1 misfit to that experimental variogram: no worse than the starting guess and, for semivariances of moderate size (order 0.1 to 10), not improvable by small parameter changes.",
  ["inputs", "configurations"], "data sets, nlags, models, weight flag, coordinate types, anisotropies, classes",
  NOINP + "binning and fit are compared with recorded values of one data set; empty bins, ties and weighting are barely reached.",
  ["core.py", "ok.py", "ok3d.py", "uk.py", "uk3d.py"],
  [("binning", "core.py:_initialize_variogram_model"), ("fit", "core.py:_calculate_variogram_model/_variogram_residuals")],
  ["lags, semivariance, variogram_model_parameters, get_variogram_points()"])
p("C14", "Variogram fit statistics come from sequential cross-validation",
  "The epsilon residuals are the normalised errors of predicting each datum (from the second on) by ordinary kriging from all data before it, leaving out data predicted with zero variance (below 1e-10; duplicates under a pseudo-inverse or as the last datum), and Q1, Q2 and cR are |sum(eps)|/(n-1), sum(eps^2)/(n-1) and Q2 times the geometric mean of the prediction variances (n residuals). They refer to the variogram and anisotropy currently in use, for every class that computes them, and are None for a newly built 2D ordinary kriging object without enabled statistics.",
  ["inputs", "histories"], "data sets incl. duplicates, models, anisotropies, coordinate types, model updates",
  NOINP + "the statistics are compared with recorded numbers for one data set and never after an update.",
  ["core.py", "ok.py", "ok3d.py", "uk.py", "uk3d.py"],
  [("sequential prediction", "core.py:_find_statistics/_krige"), ("statistics", "core.py:calcQ1/calcQ2/calc_cR")],
  ["get_epsilon_residuals(), get_statistics()"])
p("C15", "Geographic distances are true great-circle distances",
  "The great-circle distance of any two longitude/latitude pairs is the angle in degrees between them on the sphere: symmetric, zero only for identical points, at most 180, unaffected by adding 360 degrees to a longitude or rotating all longitudes, accurate for tiny and near-antipodal separations, and elementwise over arrays and scalars; conversion from chord length agrees with it. Geographic ordinary kriging is therefore unchanged when all longitudes are shifted by the same angle or wrapped, including across the date line and at the poles, for every backend and with a moving window; an anisotropy given for geographic data is not used (with a warning) in the constructor or in later updates.",
  ["inputs", "configurations"], "coordinate pairs on the sphere, data sets, longitude shifts and wraps, backends, windows",
  NOINP + "geographic kriging is tested with one random data set; date line, poles and antipodes are not.",
  ["core.py", "ok.py"],
  [("great-circle formula", "core.py:great_circle_distance/euclid3_to_great_circle"), ("neighbour search on the sphere", "ok.py:execute")],
  ["core.great_circle_distance, core.euclid3_to_great_circle, OrdinaryKriging(coordinates_type='geographic').execute"])
p("C16", "A kriging object's results depend only on its data and current variogram model",
  "After any sequence of variogram updates (model, parameters, automatic fits, anisotropy, custom or GSTools models), executions in any style and backend, and accessor calls, an object gives the same predictions, variances, lags, fit, statistics and (2D) variogram points as a freshly constructed object with the same data, drift and latest variogram settings. Executing changes nothing, repeating a call gives the same result, and an update that is refused leaves the previous model fully in effect.",
  ["histories", "configurations"], "sequences of update/execute/accessor operations on objects of all four classes",
  "Tests perform at most one or two updates of one kind; stale state after other sequences (e.g. anisotropy updates with well drifts, refused updates) needs history search.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "core.py"],
  [("model update", "ok.py:update_variogram_model; ok3d.py; uk.py; uk3d.py")],
  ["execute, get_statistics, get_variogram_points, lags, semivariance after each operation"],
  [("X_ADJUSTED/Y_ADJUSTED/Z_ADJUSTED", "coordinates in the adjusted frame", "uk.py"), ("point_log_array", "wells in the adjusted frame", "uk.py"), ("variogram_function and variogram_model_parameters", "model in use", "ok.py")])
p("C17", "The pseudo-inverse option averages redundant data and otherwise changes nothing",
  "With pseudo_inv=True (pinv or pinvh), a variogram without nugget and exact data duplicates, every kriging class and backend returns, also with a moving window covering the duplicates, the estimate and variance obtained after replacing each group of coincident data points by one point with the mean value. For well-conditioned data without duplicates pseudo_inv=True gives the same results as False.",
  ["inputs", "configurations"], "data sets with groups of coincident points, classes, backends, pseudo-inverse types, windows, variograms",
  NOINP + "the pseudo-inverse is tested with one doubled data set in one style.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "lib/cok.pyx", "core.py"],
  [("choice of inverse", "core.py:P_INV"), ("solvers", "ok.py; ok3d.py; uk.py; uk3d.py; lib/cok.pyx")],
  ["execute"])
p("C18", "A GSTools covariance model gives the kriging that the model describes",
  "Passing a GSTools covariance model (any model class, variance, length scale, nugget, anisotropy ratios and angles; in 1D/2D/3D; latitude-longitude models for geographic coordinates) at construction or by update gives the same estimates and variances as passing that model's variogram as a custom function together with the equivalent anisotropy, and as GSTools' own ordinary kriging. Models of more dimensions than the class supports, and latitude-longitude models for anything but 2D ordinary kriging on geographic coordinates, are refused.",
  ["inputs", "configurations"], "GSTools models, data sets, classes, coordinate types, construction or update",
  NOINP + "one GSTools model per class is tried on one data set.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "compat_gstools.py"],
  [("unpacking of the model", "ok.py:__init__/update_variogram_model; ok3d.py; uk.py; uk3d.py"), ("validation", "compat_gstools.py:validate_gstools")],
  ["execute of objects built from GSTools models"])
p("C19", "ASCII grid files round-trip grid values, coordinates and missing cells",
  "Writing any regular grid (at least 2 x 2 nodes, ascending coordinates) as ASCII grid (either header style, any no-data value) and reading it back returns the same values (to the two decimals written), the same orientation, the same cell-centre coordinates and cell size, and the no-data value exactly at the masked cells. A grid whose spacing is not constant (or, in style 2, differs between x and y) is refused, the caller's arrays are not modified, and rewriting what was read gives the same data again. Coordinates that do not fit the grid's shape or run downwards are answered with a warning.",
  ["inputs"], "grids, coordinates, spacings, value magnitudes, masks, no-data values, header styles, footers",
  "The tests write and read one or two grids and compare loosely (1e-2); fine spacings, wide values, masks and both styles together are not covered.",
  ["kriging_tools.py"],
  [("writer", "kriging_tools.py:write_asc_grid"), ("reader", "kriging_tools.py:read_asc_grid")],
  ["read_asc_grid(write_asc_grid(...))"])
p("C20", "ZMAP grid files round-trip grid values, coordinates and missing cells",
  "Writing any regular grid (at least 2 x 2 nodes, ascending coordinates) as ZMAP grid and reading it back returns the same values (to the four decimals, or eight significant digits for magnitudes from 1e6, that are written), the same orientation, cell-centre coordinates, cell size and coordinate-system name, and the no-data value at masked and NaN cells. The file keeps to the layout that its header declares (fixed-width fields, nodes per line, a new line for every column). A grid whose spacing is not constant is refused, and the caller's arrays are not modified.",
  ["inputs"], "grids, coordinates, spacings, value magnitudes, masks, no-data values, coordinate-system names",
  "The tests round-trip one grid and compare loosely; sizes not divisible by the line length, wide values, masks and names are not covered.",
  ["kriging_tools.py"],
  [("writer", "kriging_tools.py:write_zmap_grid"), ("reader", "kriging_tools.py:read_zmap_grid")],
  ["read_zmap_grid(write_zmap_grid(...))"])
p("C21", "Grid readers read every header variant correctly and refuse damaged files",
  "An ASCII grid file is read according to its header whatever the order and case of its keywords, corner or centre registration, CELLSIZE or DX/DY, either spelling of the optional-underscore keywords, single rows or columns, white space layout and (non-blank, uncommented) footer lines; a ZMAP file likewise whatever its comment lines (before the header or in the body) and number of values per line. A file that is truncated, has surplus or missing rows, columns or values, or an incomplete or unknown header is refused with an error instead of returning a wrong or partly uninitialised grid.",
  ["inputs", "fault_sequences"], "file texts generated from a header/body grammar, and truncations or edits of them",
  "The tests read only what the writers produce and the sample files; header variants and damaged files are not generated.",
  ["kriging_tools.py"],
  [("header parsing and size checks", "kriging_tools.py:read_asc_grid/read_zmap_grid")],
  ["read_asc_grid, read_zmap_grid"])
p("C22", "The scikit-learn Krige estimator is a faithful wrapper",
  "Fitting and predicting with Krige gives for each of its four methods exactly the points-style estimates (and execute also the variances) of the corresponding kriging class with the same options: all variogram, anisotropy, drift, coordinate, exactness, pseudo-inverse and window settings reach it. Parameters survive get_params/set_params/clone, clones are independent, refitting replaces the old data, and prediction without a fit or with points of the wrong dimension is refused.",
  ["inputs", "configurations", "histories"], "methods, option settings, data sets, evaluation points, fit/refit/clone sequences",
  "The test runs one grid search and looks at scores only; whether each option reaches the kriging class is not checked.",
  ["compat.py"],
  [("option passing", "compat.py:Krige.fit"), ("prediction", "compat.py:Krige.predict/execute")],
  ["Krige.fit/predict/execute/score, sklearn clone"])
p("C23", "Regression kriging is the regression prediction plus the kriged residual",
  "RegressionKriging predicts the fitted regression model's prediction plus the kriging (with the given kriging options, in 2D and 3D) of the training residuals; krige_residual returns the second term alone and score is the R2 of predict. Hence, with exact values, training targets are reproduced at training locations, and a regressor without residuals leaves its own prediction unchanged.",
  ["inputs", "configurations"], "regressors, predictors, coordinates, targets, kriging methods and options",
  "The tests only require a minimum score on two data sets, which many wrong combinations reach.",
  ["rk.py", "compat.py"],
  [("fit and predict", "rk.py:RegressionKriging.fit/predict/krige_residual/score")],
  ["RegressionKriging.predict/krige_residual/score"])
p("C24", "Classification kriging adds kriged log-ratio residuals and predicts class labels",
  "ClassificationKriging predicts, for any number and kind of class labels, the label of the largest probability after adding the kriging (with the given options) of the training residuals of the isometric log-ratio transformed one-hot targets to the transformed class probabilities; score is the accuracy of those labels, and with exact values training labels are reproduced at training locations. The log-ratio transformation is an isometry of the simplex inverted by its inverse, and closure makes rows sum to the given constant without changing ratios.",
  ["inputs", "configurations"], "label sets, classifiers, predictors, coordinates, kriging options; compositions",
  "The tests use integer labels 0..k-1, one data set and a minimum score.",
  ["ck.py", "compat.py"],
  [("fit and predict", "ck.py:ClassificationKriging"), ("log-ratio transforms", "ck.py:closure/ilr_transformation/inverse_ilr_transformation")],
  ["ClassificationKriging.predict/krige_residual/score, closure, ilr_transformation, inverse_ilr_transformation"])
p("C25", "Unsupported or inconsistent requests are refused, never answered",
  "Unknown variogram models, coordinate types, styles, backends, pseudo-inverse types or kriging methods; parameter lists or dicts of the wrong kind, length or keys; a custom model without function or parameters; missing, wrongly sized or wrongly typed drift data, masks or point arrays; non-boolean exact_values; and windows of fewer than two points all raise an error, at construction, update or execution. The corresponding valid request is accepted.",
  ["inputs", "configurations"], "single defects injected into otherwise valid requests of all classes",
  "The tests check a dozen fixed invalid calls, mostly of one class each.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "core.py", "compat.py"],
  [("argument checks", "ok.py; ok3d.py; uk.py; uk3d.py"), ("parameter checks", "core.py:_make_variogram_parameter_list")],
  ["exceptions of constructors, update_variogram_model and execute"])
p("C26", "Results do not depend on how inputs are represented, and inputs are not modified",
  "Equal numbers given as lists, tuples, integer or float arrays, (N,1) arrays, strided or Fortran-ordered views, read-only arrays or array-like masks give the same results in every kriging class and backend. No call modifies the arrays, lists or dicts passed to it, and modifying them afterwards does not change the object's later results.",
  ["inputs", "configurations"], "representations of coordinates, values, evaluation points, masks, parameters and drift data",
  "The tests pass contiguous float arrays nearly everywhere.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "core.py", "lib/cok.pyx"],
  [("conversion and copying of inputs", "ok.py:__init__/execute; ok3d.py; uk.py; uk3d.py"), ("parameter copies", "core.py:_make_variogram_parameter_list")],
  ["execute, constructor arguments before and after"])
p("C27", "Reporting options and accessors reflect the model and change nothing",
  "Verbose output, plotting and statistics options change no prediction, variance, lag, parameter or residual, and switching them toggles only the option. get_variogram_points (2D classes) returns the lags with the current model evaluated at them, get_statistics and get_epsilon_residuals return the values in use and print_statistics prints them, verbose construction and updates print the model name with the parameters in use (full and partial sill consistent), and the plots show the experimental variogram, the current model and the residuals.",
  ["inputs", "configurations", "histories"], "classes, models, options, accessor calls, updates",
  "The tests call these functions, if at all, only to see that they do not fail.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py"],
  [("reporting code paths", "ok.py; ok3d.py; uk.py; uk3d.py: __init__/update_variogram_model/display_variogram_model/plot_epsilon_residuals")],
  ["stdout, matplotlib axes, accessors"])

p("C28", "Copies, other objects and concurrent calls do not influence results",
  "A copy (deepcopy, pickle round trip, copy.copy) of an object of any kriging class, or of the Krige estimator, gives the same predictions, variances, lags, parameters and statistics as the original; updating or refitting one of the two leaves the other as it was. Results of one object do not depend on which other objects exist, are built, updated or executed. Executing one object, and building, updating and executing others, from several threads at the same time returns what running those calls one after another returns.",
  ["inputs", "histories", "schedules"], "objects of all classes with all kinds of models and drifts, ways of copying, later updates, schedules of two or three threads",
  "No test copies an object or uses more than one thread, and the results have to be the same for every interleaving.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "core.py", "compat.py", "lib/cok.pyx"],
  [("state of an object", "ok.py; ok3d.py; uk.py; uk3d.py: __init__/update_variogram_model/execute"), ("shared helpers", "core.py"), ("estimator state", "compat.py:Krige")],
  ["execute, accessors of several objects, from one or more threads"])

p("C29", "Arguments work by name, by position and with their documented defaults",
  "Leaving out an optional argument is the same as passing its documented default, and passing arguments by position in the documented order is the same as passing them by name. This holds for constructor, update_variogram_model and execute of the four kriging classes, for Krige, RegressionKriging and ClassificationKriging, and for the grid file writers and readers. In particular nothing is printed or plotted unless asked for, an update without anisotropy arguments is isotropic, and an execution without a window uses all data; get_params of Krige returns every option with its value.",
  ["inputs", "configurations"], "option sets of all classes, wrappers and file functions, number of arguments passed by position",
  "The tests call each class with a few fixed sets of options, nearly always by name.",
  ["ok.py", "ok3d.py", "uk.py", "uk3d.py", "compat.py", "rk.py", "ck.py", "kriging_tools.py"],
  [("signatures", "ok.py; ok3d.py; uk.py; uk3d.py: __init__/update_variogram_model/execute"), ("wrapper signatures", "compat.py:Krige; rk.py; ck.py"), ("writers", "kriging_tools.py")],
  ["results, accessors, stdout, files written"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P))
