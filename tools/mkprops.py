"""Writes /verif/properties.jsonl from the table below (kept as code so that quoting stays sane)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [{"name": s, "where": files[0]} for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

CAL, HLP, FET, WRA, STA, FIN, UTI, CON = ("pyowc/calibration.py", "pyowc/helper.py", "pyowc/data/fetchers.py",
    "pyowc/data/wrangling.py", "pyowc/core/stats.py", "pyowc/core/finders.py", "pyowc/utilities.py", "pyowc/configuration.py")

prop("C01", "The mapped file holds each source profile exactly once, in profile order",
     "Every mapping run on readable inputs completes, and afterwards the float's mapped file lists exactly the union of the profile numbers it already held and those of the float source, each once, in ascending order; every per-profile array (mapped salinity, error, noise, signal, potential temperature, and the recorded mapping settings) has one column per listed profile, in that same order, holding that profile's own values and nothing of another profile. This holds whatever the order of profiles in the source, whatever subset was mapped before, and also when no profile can be mapped at all. The list of historical casts kept with the results names only profiles of the file and is in the order of the profiles.",
     ["histories", "inputs", "configurations"],
     "every sequence of mapping runs over a growing or reordered source, with profiles of different lengths, profiles without position or data, and with no, an older-format or a partial mapped file already present",
     "The tests check one fixed single-run file against a stored one; no test ever extends an existing mapped file or uses a source that is not already in ascending order.",
     [CAL, HLP], ["la_profile_no", "profile_index", "the 2-D result matrices", "the per-profile setting vectors"],
     [("update_salinity_mapping", CAL), ("load_varibales_from_file", HLP), ("sort_numpy_array", HLP)],
     ["the mapped .mat file after each run"])
prop("C02", "Mapping results are frozen: later runs never change mapped profiles",
     "Once a profile is in the mapped file, later mapping runs leave its mapped values and its recorded settings unchanged, whatever changed since (configuration, climatology, the profile's own source data, other profiles); casts listed as used for mapped profiles stay listed; a run that finds no new profile leaves the mapped results as they were. Each profile mapped in a run records the settings in force in that run, and a profile for which nothing was mapped records none.",
     ["histories", "configurations"],
     "every sequence of mapping runs interleaved with configuration changes, source growth and climatology replacement",
     "No test runs the mapping twice with different inputs, so nothing about what a second run preserves is observed.",
     [CAL, HLP], ["scale_*", "use_pv", "use_saf", "p_delta", "p_exclude", "la_* matrices"],
     [("missing profile detection", CAL), ("load_varibales_from_file", HLP)], ["the mapped .mat file before and after each run"])
prop("C03", "A mapped column is the two-stage objective mapping of that profile",
     "For each level of a profile, a mapped salinity, its error, the noise and the signal variance are written exactly when the profile has a position, the level has salinity and lies at or below the excluded surface layer, and more than five of the selected historical casts can be interpolated to its potential temperature within the configured pressure distance; all other entries are missing. The written values are those of the large-scale objective mapping plus the small-scale mapping of its residuals computed from those casts after discarding casts more than three standard deviations from their mean, and mapped salinities outside 30 to 40 are written as missing; the listing of selected casts holds, within a sixtieth of a degree, the position of every cast used, and each position it lists is that of a cast used for the profile listed with it, in the order of the profiles.",
     ["inputs", "configurations"],
     "every float profile, climatology and mapping configuration (scales, PV use, exclusion depth, pressure window, maximum number of casts)",
     "The stored-file tests compare means of one dataset produced years ago; the run itself needs a bathymetry file that is absent, so today no test executes this path.",
     [CAL, HLP, WRA, STA], ["hist_data", "mapped_values", "mapped_residuals"],
     [("update_salinity_mapping per-level loop", CAL), ("process_profile_hist_variables", HLP), ("remove_statical_outliers", HLP)],
     ["the mapped .mat file", "selected_hist"])
prop("C04", "A float is never mapped against itself; floats do not influence each other",
     "Argo reference casts that belong to the float being processed never take part in any of its results, while the same casts are used when another float is processed. The result for a float does not depend on which floats, regions or profiles the same process handled before, nor on how the work was split over runs or processes.",
     ["histories", "schedules", "inputs"],
     "every order and interleaving in which several floats, and several profiles of one float, are processed in one process or in parallel processes, with casts of any of them in the Argo reference data",
     "Tests read each box once for one float in a fresh process; the file cache makes any later read depend on earlier ones, which no test exercises.",
     [FET, CAL], ["the cached reference files", "source"], [("read_mat_argo", FET), ("read_mat_ctd", FET), ("read_mat_bottle", FET)],
     ["get_region_hist_locations", "get_region_data", "the mapped .mat files"])
prop("C05", "Locations and data of the historical casts refer to the same casts",
     "The list of historical locations contains every cast of every enabled and readable CTD, bottle and Argo file of the given boxes, in box order and then CTD, bottle, Argo order, and skips the disabled, absent or unreadable ones. Asking for the data of positions of that list returns exactly those casts, in list order, each column with its own latitude, longitude (0..360, or shifted by 360 throughout the low end where the casts lie on both sides of Greenwich), date, and only its own levels with pressure, salinity and temperature all present and not deeper than the deepest float level plus the pressure window; casts left with no level are dropped whole.",
     ["inputs", "configurations", "fault_sequences"],
     "every box list, combination of enabled types, set of missing or damaged files, cast lengths (including one single cast in a file), and set of selected positions",
     "Tests use two boxes with complete files and compare counts or a checksum; missing files, single-cast files and uneven depths are never combined with selected positions.",
     [FET], ["starting_index", "grid_* arrays"], [("get_region_hist_locations", FET), ("get_region_data", FET), ("get_data", FET)],
     ["return values of get_region_hist_locations and get_region_data"])
prop("C06", "The search region is the 5 by 5 block of WMO boxes around the profile",
     "For every position the box search returns 25 rows: the 10-degree box containing the position (to within a hundredth of a degree) and its neighbours up to two boxes away in each direction, wrapping around in longitude; rows beyond the poles bring in no box a second time and are empty. Each returned row is that box's entry of the supplied table, unchanged, and a position that is missing returns 25 empty rows.",
     ["inputs"], "every longitude in 0 to 360, every latitude in -90 to 90, and every box table",
     "Tests look at a handful of mid-latitude positions; box edges, the 0/360 seam and the poles are different code paths.",
     [FIN], ["la_lookup_no"], [("find_25boxes", FIN), ("nearest_neighbour", FIN)], ["return value of find_25boxes"])
prop("C07", "Ocean depth is read from the bathymetry cell that was asked for",
     "For every requested region the elevation returned at each grid node is the one the 5-minute bathymetry file stores for that latitude and longitude, for regions of any size, on either side of the dateline and the Greenwich meridian, given in -180..180 or 0..360 longitudes, and clipped at the poles. The returned coordinates cover the requested region with the file's spacing, rows from north to south and columns from west to east.",
     ["inputs"], "every region of up to a full turn of longitude (4320 cells after rounding outwards) and every elevation file",
     "Tests check shapes and a few values; the seek arithmetic differs per longitude range and wraps, and the file itself is absent from the repository.",
     [FET], ["decoder", "topo"], [("get_topo_grid", FET)], ["return value of get_topo_grid"])
prop("C08", "The best historical casts are chosen by ellipse and correlation, never twice",
     "The selected casts are distinct, all lie inside the search ellipse (three times the large scales, with the potential-vorticity term when it is enabled), and number exactly the smaller of the maximum and the count inside the ellipse; if the ellipse holds no more than the maximum all of them are selected. Otherwise one third (rounded up, duplicates dropped) is drawn at random, the remainder up to two thirds are the closest of the rest by the large-scale correlation including time, and the others are the closest of what then remains by the small-scale correlation; equal inputs give the equal selection.",
     ["inputs", "configurations"], "every set of historical positions, dates and depths, every scale configuration and maximum, with and without potential vorticity",
     "Tests use a few synthetic clouds and check the count or uniqueness only.",
     [FIN, UTI], ["index_ellipse", "index_rand", "correlation_large_sorted", "correlation_small_sorted"],
     [("find_besthist", FIN), ("find_ellipse", FIN), ("spatial_correlation", UTI)], ["return value of find_besthist"])
prop("C09", "Climatology is interpolated on the float's potential temperature surfaces",
     "For every float level with salinity, temperature and pressure, and every historical cast, the interpolated salinity and pressure are the linear interpolation in potential temperature between two consecutive valid cast levels of different temperature that bracket the float temperature; when several brackets exist the one whose interpolated pressure is closest to the float's is taken, for salinity and pressure alike. Where no bracket exists, or the float level is incomplete, both are missing; gaps inside a cast are skipped, casts never mix, and the inputs are not modified.",
     ["inputs"], "every cast set and float profile, with gaps, inversions, temperature plateaus, exact coincidences, one-level casts and casts of different lengths",
     "Tests compare one stored dataset and a few hand-made columns; inversions combined with gaps and coincident temperatures are not enumerated.",
     [WRA], ["grid_theta", "sign_changes", "output_placeholder"], [("interp_climatology", WRA), ("calculate_interpolation_weights", WRA)],
     ["return value of interp_climatology"])
prop("C10", "Objective mapping returns the optimal estimate and its error",
     "The mapped value at the target and at every data point is the best linear unbiased estimate given the squared-exponential covariance with the given scales, signal and noise variance: a generalised-least-squares mean plus the covariance-weighted residuals. The reported error is the square root of signal variance minus explained variance plus the variance of the estimated mean, so the result does not depend on the order of the data, a constant added to the data shifts the mapping by that constant, and a far away target gets the mean with the full signal error.",
     ["inputs", "configurations"], "every data set, target, scale, signal and noise variance, with and without time and potential vorticity terms",
     "Tests check one stored example and shapes; the algebra must hold for every covariance.",
     [WRA, STA], ["data_data_covar", "weight"], [("map_data_grid", WRA), ("covar_xyt_pv", STA)], ["return value of map_data_grid"])
prop("C11", "Covariance, signal and noise statistics follow their definitions",
     "Covariance between two positions is exp(-sum of squared scaled differences) in latitude, longitude, time where a time scale is given, and potential vorticity where it is enabled; it is 1 for equal positions, symmetric, and between 0 and 1. Signal variance is the population variance of the valid salinities, and noise variance is half the mean squared difference between each cast and its nearest distinct neighbour; the fit covariance of two float levels is the product of a vertical term, with the scale of the water mass the levels lie in, and the horizontal small-scale covariance of the two profiles, with missing levels counting as fully correlated vertically.",
     ["inputs", "configurations"], "every set of positions, salinities, float temperature matrices and scale configuration",
     "Tests check single values and one stored matrix; scale selection depends on water mass boundaries and on matrix layout.",
     [STA], ["cov", "h_cov", "n_cov"], [("covar_xyt_pv", STA), ("covarxy_pv", STA), ("build_cov", STA), ("signal_variance", STA), ("noise_variance", STA)],
     ["return values of these functions"])
prop("C12", "The piecewise linear fit is the weighted least-squares solution",
     "For any observations in ascending x, weights and break points, the fit returns the coefficients of the continuous piecewise linear function with those breaks that minimises the weighted squared residual, and the residuals of exactly that function; each observation belongs to the segment between the two breaks around it. Inconsistent inputs and systems found singular return zero coefficients and the observations as residual.",
     ["inputs"], "every observation series (unevenly spaced, repeated x), weight matrix and set of break points inside, on and outside observation points",
     "Tests check a few breaks for shapes and one residual; optimality for all inputs is not sampled.",
     [STA, UTI], ["trends", "fit_param"], [("brk_pt_fit", STA), ("sorter", UTI)], ["return value of brk_pt_fit and sorter"])
prop("C13", "The calibration fit picks the best admissible model and reports that model",
     "Among offset, linear and piecewise linear fits with up to the allowed number of breaks, limited by the effective degrees of freedom of the covariance, the returned fit is the one with the lowest small-sample information criterion (the breaks of each candidate being searched from evenly spread starting points, or from the given ones, without ending where a nearby break would be far better); with prescribed breaks only, it is the fit with those breaks, and prescribed breaks stay when more are searched. Slope per profile, coefficients, time derivative and break points all describe that one model in original units, breaks lie between the second and the last but one profile, the error of the fit follows from the error covariance (for searched breaks including, roughly, that of their position), so does the rms error of the slope in original units, the station statistics from each profile's own data, profiles without data still get a fitted value, and a series without valid data returns missing values.",
     ["inputs", "configurations"], "every observation matrix, error, covariance and break specification",
     "Tests cover one stored offset-only case; every path with breaks is never entered.",
     [STA], ["aic", "rss", "b_A", "b_pts", "ndf"], [("fit_cond", STA), ("nlbpfun", STA)], ["return value of fit_cond"])
prop("C14", "Ten theta levels of least salinity variance are chosen inside the allowed ranges",
     "Only mapped float levels inside the configured temperature and pressure ranges (both bounds: inside if ordered as a band, outside the band if reversed) can be used. The chosen levels are distinct candidate levels, at most ten, in order of increasing salinity variance, each present in at least the configured fraction of the profiles that the best covered level is present in, and for every profile the returned index is the usable level whose temperature is closest to the chosen one, or missing when the profile does not reach it.",
     ["inputs", "configurations"], "every float matrix with gaps and inversions and every combination of range settings",
     "The tests of this function fail on the installed numpy and only checked counts.",
     [FIN], ["theta_levels", "theta_level_indices", "var_sal_tlevels"], [("find_10thetas", FIN)], ["return value of find_10thetas"])
prop("C15", "The calibration series settings survive and grow with the float",
     "Setting the calibration series creates default settings once; afterwards the operator's stored settings (series numbers, breaks, ranges) are kept, new source profiles are added with the series number of the profile preceding them, and the file lists every known profile once, in ascending order, with its own series number. Profiles with no valid salinity, temperature or pressure are flagged 0, a range given with more than one value is removed, and a file of an older version without the fraction of profiles that theta levels must reach gets the default fraction while another fraction is kept.",
     ["histories", "inputs"], "every sequence of runs, operator edits, source growth and reordering",
     "Tests call it once without a file and once with a complete one and only check that a file exists.",
     [CON], ["calseries", "calib_profile_no"], [("set_calseries", CON)], ["the calseries .mat file after each run"])
prop("C16", "Calibrated salinity is the float salinity with the fitted conductivity factor",
     "For every profile of a fitted series, calibrated conductivity is the fitted factor of that profile times its conductivity, and calibrated salinity, its error, and the per-station estimate and error follow from it at the same level and temperature; a missing sample stays missing and a flagged profile gets no calibration. Each series is fitted from its own profiles only, and inconsistent break settings produce a file of missing values for all profiles.",
     ["inputs", "configurations", "histories"], "every float, mapping, series split, flagging and break specification whose prescribed breaks the data determine",
     "The test for this path cannot run here for lack of the bathymetry file, and covered one series without flags.",
     [CAL], ["pcond_factor", "cal_SAL", "cal_COND", "sta_SAL"], [("calc_piecewisefit", CAL)], ["the calibration .mat file"])
prop("C17", "Dates, longitudes and vorticity are converted consistently",
     "Every valid calendar date number becomes year plus elapsed fraction of a 365-day year (hours and minutes included when given), invalid dates become 0 without affecting others; longitudes come back in 0..360, with the values up to 40 shifted by 360 exactly when some value is at or above 320, element order kept. Potential vorticity is the planetary vorticity over depth, replaced by a small constant when zero, and spatial correlation and ellipse distance are the sums of squared scaled distances, with the vorticity term only when both vorticities are non-zero.",
     ["inputs"], "every date number of 8, 10, 12 or 14 digits, every longitude array and every pair of points",
     "Tests check a few dates and arrays.",
     [UTI, FIN], ["grid_long", "dec_dates"], [("change_dates", UTI), ("cal2dec", UTI), ("wrap_longitude", UTI), ("potential_vorticity", UTI), ("spatial_correlation", UTI), ("find_ellipse", FIN)],
     ["return values of these functions"])
prop("C18", "Near the Subantarctic Front only casts from the float's side are kept",
     "South of 30S the float profile is classed north of the front when its temperature at 300 dbar is above 5 degrees and south when below 3, and otherwise by lying within the typical northern or southern profile envelope; when it is classed, only historical casts on the same side by their own temperature at 300 dbar remain, and when it is not, all casts remain. The kept casts are whole and unchanged with all their fields aligned and in order, and north of 30S everything is returned unchanged.",
     ["inputs"], "every float profile and historical set, with gaps, repeated pressures and profiles that do not reach 300 dbar",
     "Tests use one southern and one northern profile.",
     [FET], ["crit_saf", "grid_crit_saf"], [("frontal_constraint_saf", FET)], ["return value of frontal_constraint_saf"])
prop("C19", "The analysis never alters its inputs and writes only its own outputs",
     "Mapping, series setting and fitting leave float source, climatology and constants files byte for byte unchanged and write only the output file of the step for that float at its configured location. Numerical functions leave the arrays they are given unchanged, and calling any of them again with equal inputs (and an equal random state) gives an equal result, even when the caller has overwritten an earlier result.",
     ["histories", "inputs"], "every sequence of operations on every input, in any order within one process",
     "Tests never look at files other than the produced one or at arguments after a call.",
     [CAL, CON, FET], ["files on disk", "argument arrays"], [("update_salinity_mapping", CAL), ("set_calseries", CON), ("calc_piecewisefit", CAL)],
     ["directory tree before and after each operation", "arguments before and after each call"])
prop("C20", "A run that fails leaves the earlier results usable",
     "When a mapping or calibration run stops with an error at any point before it opens its result for writing, the float's existing output file is unchanged; an earlier result that cannot be read at the time is not replaced; and when the cause is removed the next run completes and gives exactly the result an uninterrupted history would have given.",
     ["fault_sequences", "crash_points", "histories"], "every step at which an input can be missing or damaged or a computation can fail, at every profile of a run, followed by recovery",
     "No test injects a failure into a run that has earlier results.",
     [CAL, HLP, FET], ["mapped file", "cached reference files"], [("update_salinity_mapping", CAL), ("calc_piecewisefit", CAL)],
     ["the output files before, after the failure, and after recovery"])

PLO, DSH, PUT = "pyowc/plot/plots.py", "pyowc/plot/dashboard.py", "pyowc/plot/utils.py"
prop("C21", "The diagnostic figures show the float's own data and results",
     "For an analysed float of at least two profiles for which at least as many theta levels can be chosen as figures are asked for, plot_diagnostics completes and saves exactly one file of each kind (trajectory, uncalibrated and calibrated theta-salinity, salinity curve, one salinity variance figure per level asked for, one uncalibrated and one calibrated salinity anomaly per configured theta range, salinity profile) under the configured directory, named after the float and kind, in the configured format; it changes no other file and not the configuration. Whatever was plotted before in the same process, each saved figure holds this float's data and nothing drawn for another figure: the trajectory the float's positions in file order and the selected historical casts, all with longitudes from -180 to 180, with the number of the first, every third and the last profile; the theta-salinity figures every profile's salinity (or calibrated salinity) against potential temperature, with the mapped salinity and its error at the levels that stand for the chosen theta levels; the salinity curve the fitted factor with one and two errors and the single-profile factors, and the same for the mean salinity offset per profile; the salinity variance figures the float's, the mapped and the calibrated salinity with their errors on the n-th chosen theta level, interpolated between usable levels only (those inside the theta and pressure ranges of the series settings); the anomaly figures the salinity on temperatures 0.1, 0.2, ... minus its median over the profiles; the salinity profile figure the profiles, the chosen levels and the salinity variance per candidate theta; what a legend calls uncalibrated, mapped, calibrated or single-profile, or once or twice the error, is that.",
     ["inputs", "configurations", "histories"],
     "every analysed float (missing values, uncalibrated profiles, integer storage, any longitude convention), every combination of series ranges, number of levels, theta ranges and formats, and every order of plotting several floats with windows left open or closed in between",
     "The tests only check that plotting throws no error for one float with plt.show patched; no test looks at what a figure holds, and most of them cannot find their files.",
     [DSH, PLO, PUT], ["figures of the process", "files in FLOAT_PLOTS_DIRECTORY"],
     [("plot_diagnostics", DSH), ("sal_var_plot", PLO), ("cal_sal_curve_plot", PLO), ("trajectory_plot", PLO), ("sal_anom_plot", PLO), ("theta_sal_plot", PLO),
      ("t_s_profile_plot", PLO), ("create_dataframe", PUT)],
     ["axes of each figure when it is saved", "files on disk before and after"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 90, p["id"]
        f.write(json.dumps(p) + "\n")
for p in P:
    if len(p["title"]) > 80: print(p["id"], len(p["title"]))
