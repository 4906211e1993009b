"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["geocat/comp/"+f for f in files],
            state=state or [],
            mechanism=[dict(name=n, where="geocat/comp/"+w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook)))

CL, IN, ME, SP, GR, FO, ST, GC = ("climatologies.py", "interpolation.py", "meteorology.py", "spherical.py",
    "gradient.py", "fourier_filters.py", "stats.py", "gc_util.py")

# ---------------------------------------------------------------- climatology
p("C01", "calendar_average is the calendar-binned mean, stamped at mid-period",
  "For any time series sampled at least as finely as the requested frequency (hour, day, month, season or year), calendar_average returns exactly one value per calendar period touched by the data: the mean of the samples in an hour, day or month, and for seasons (DJF, MAM, JJA, SON) and years the mean of the monthly means of the months with data weighted by the number of days of each month in the data's own calendar. "
  "Each value is stamped with the midpoint of its period in the data's calendar. "
  "No sample is dropped, counted twice or assigned to a neighbouring period.",
  ["inputs"], "all record lengths, start dates, sampling steps, calendars, frequencies, leap/non-leap years, extra dimensions",
  "The existing tests check a few fixed daily/hourly series and are not even part of the reliably running suite; period edges, leap years and calendars are unbounded input space.",
  [CL], [("resample/groupby to calendar periods", CL+":calendar_average"), ("half-period offset of stamps", CL+":calendar_average, _calculate_center_of_time_bounds"), ("days-in-month weights", CL+":calendar_average")],
  ["values and time coordinate of the returned object"])
p("C02", "climatology_average is the multi-year mean per calendar bin",
  "For any multi-year series, climatology_average returns for every hour-of-day-of-year, day-of-year, month or season present the mean over all years of that bin (for seasons: monthly climatologies weighted by the days in each month), in calendar order, each value labelled with that bin in the median year of the record (or the season name). "
  "Every sample contributes to exactly the bin it belongs to and to no other.",
  ["inputs"], "all record lengths, start dates, sampling steps, calendars, frequencies, even and odd year counts",
  "A handful of fixed series with fixed expected arrays cannot cover start offsets, calendars, year counts and leap years.",
  [CL], [("group-by month-day(-hour)/month/season", CL+":climatology_average"), ("median-year stamps", CL+":climatology_average")],
  ["values and labels of the returned object"])
p("C03", "Seasonal climatologies use exactly the months of each season",
  "climatology_average with frequency 'season' (with or without custom three-month seasons) returns, for each requested season and in the requested order, the day-weighted mean over all years of exactly that season's three months, including seasons that wrap around the end of the year; the default is the four meteorological seasons. "
  "No other month influences a season's value.",
  ["inputs"], "all sets and orders of custom three-month seasons, all records of monthly or finer data, all calendars",
  "Tests use two custom season lists on one dataset; there are 12 seasons, any order and subset, any start month.",
  [CL], [("custom season month mapping", CL+":climatology_average"), ("days-in-month weights", CL+":climatology_average")],
  ["season coordinate and values"])
p("C04", "climate_anomaly removes exactly the bin climatology",
  "For every frequency (day, month, season, year) climate_anomaly returns an object with the time axis of its input in which each sample equals the input sample minus the climatology of its calendar bin as climatology_average (for years: calendar_average) defines it, so that anomaly plus that climatology reproduces the input and the day, month and equally weighted anomalies average to zero in each bin. "
  "Bins never mix samples of different days, months, seasons or years; missing samples stay missing and do not affect others.",
  ["inputs"], "all series, start dates, lengths from one to more than a hundred years, calendars, frequencies, extra dimensions",
  "Tests compare one fixed series; the round trip must hold for any series, including those spanning centuries or starting mid-bin.",
  [CL], [("group-by then subtract", CL+":climate_anomaly")], ["values and time coordinate of the result"])
p("C05", "month_to_season averages the three months around the stamped month",
  "For any monthly series of whole years (starting in any month) and any of the twelve three-month seasons, month_to_season returns one value per occurrence of the season whose middle month lies in the record; the value is the mean of the samples of the three consecutive months centred on that month that are present in the record, and the value is stamped with that middle month. "
  "No month of another season occurrence or year leaks in, and an unknown season name or a record that is not a multiple of twelve months is rejected.",
  ["inputs"], "all monthly records of whole years (any start month, any number of years), all 12 seasons, calendars, extra dimensions, Dataset or DataArray",
  "Tests use records of whole years beginning in January or one file; records starting in other months are not covered.",
  [CL], [("quarterly resampling anchored on the season's first month", CL+":month_to_season")], ["values and time stamps"])
p("C06", "Climatology results do not depend on container, layout or calendar encoding",
  "All climatology functions give the same values for the same data whether dates are encoded as datetime64 or as proleptic-Gregorian cftime objects, whether time is the first or another dimension or carries another name, whether the variable is passed alone or within a Dataset, and whether or not it is chunked with dask. "
  "The time dimension keeps its name and other dimensions, coordinates and (when keep_attrs is true) attributes are preserved.",
  ["inputs", "configurations"], "all functions and frequencies x container x time name/position x date encoding x chunking",
  "Tests exercise one configuration at a time on fixed data; this is a relation between pairs of arbitrary configurations.",
  [CL], [("time coordinate inference", CL+":_get_time_coordinate_info"), ("dataset/array normalisation", CL+":_setup_clim_anom_input")], ["values, dims, coords and attrs of both results"])

# -------------------------------------------------------------- interpolation
p("I01", "Hybrid coordinate pressures follow p = a*p0 + b*ps",
  "pressure_at_hybrid_levels returns hya*p0 + hyb*ps at every level and horizontal point, for any surface pressure shape, and delta_pressure_hybrid returns the absolute difference of the pressures at the two interfaces bounding each layer, so that layer thicknesses are non-negative and sum to the pressure difference between the first and last interface. "
  "numpy and xarray inputs give the same numbers and the level dimension is aligned with the right coefficients.",
  ["inputs"], "all level counts, surface-pressure shapes and dimension orders, reference pressures, coefficient coordinates",
  "Fixed-profile tests check one vertical grid and one shape of surface pressure.",
  [IN, ME], [("broadcast of coefficients against ps", IN+":_pressure_from_hybrid, pressure_at_hybrid_levels, delta_pressure_hybrid")], ["returned pressures, dims and coords"])
p("I02", "interp_hybrid_to_pressure interpolates every column independently",
  "For every horizontal and time point interp_hybrid_to_pressure returns, at each requested pressure, the piecewise linear (or linear in log pressure) interpolation of that column between its two neighbouring hybrid levels, and NaN outside the column's pressure range when not extrapolating. "
  "The result for one column does not depend on other columns, on the order of the requested levels, on the order of dimensions, or on numpy-versus-dask storage, and the level coordinate holds exactly the requested pressures.",
  ["inputs"], "all columns, hybrid coefficients, surface pressures, target levels (order, count, default mandatory levels), dim orders, methods",
  "Tests compare a single CESM column set with NCL output at a loose tolerance.",
  [IN], [("per-column interpolation", IN+":interp_hybrid_to_pressure, _vertical_remap"), ("default mandatory levels", IN+":__pres_lev_mandatory__")], ["plev coordinate, dims, values"])
p("I03", "Below-ground extrapolation follows the ECMWF formulas and touches nothing else",
  "With extrapolate=True, target pressures greater than the column's lowest-level pressure receive the ECMWF temperature (variable='temperature'), ECMWF geopotential-height (variable='geopotential') or lowest-model-level value (variable='other'); all other target pressures keep exactly the value obtained without extrapolation. "
  "This holds for every column separately, whatever its surface pressure, surface geopotential and bottom temperature.",
  ["inputs"], "all columns, surface pressures, surface geopotentials crossing every regime threshold of the formulas, target levels",
  "Tests use one dataset and print tolerance; the three-regime formula switches are per-column and data-dependent.",
  [IN], [("ECMWF extrapolation", IN+":_temp_extrapolate, _geo_height_extrapolate, _vertical_remap_extrap")], ["values above/below surface"])
p("I04", "Chunked computation equals in-memory computation for interpolation",
  "For every legal chunking of the inputs, the interpolation functions return lazily or eagerly the same values, dimensions and coordinates as for unchunked inputs, with or without extrapolation.",
  ["inputs", "configurations"], "all chunk layouts x methods x extrapolation variants x shapes",
  "Tests check one chunking of one dataset; block-local mistakes only appear for particular chunk layouts.",
  [IN], [("map_blocks over chunks", IN+":interp_hybrid_to_pressure, interp_sigma_to_hybrid")], ["computed values of chunked and unchunked runs"])
p("I05", "interp_sigma_to_hybrid interpolates sigma data at hybrid pressures per column",
  "For each column interp_sigma_to_hybrid returns, at pressure hya*p0 + hyb*ps of every hybrid level, the linear (or log-linear) interpolation of the column given at sigma*ps, and NaN outside the column, whatever the dimension order and number of levels, with the level dimension of the result replaced by hlev.",
  ["inputs"], "all sigma levels, hybrid coefficients, level counts, shapes, dim orders, methods",
  "Tests use one small dataset with equal shapes and one method per test.",
  [IN], [("per-column interpolation over stacked columns", IN+":interp_sigma_to_hybrid")], ["values, dims, hlev"])
p("I06", "interp_multidim is separable interpolation with cyclic and missing handling",
  "interp_multidim returns, at every requested (lat, lon) point, the bilinear (or nearest-neighbour) interpolation of the surrounding grid cells; with cyclic=True the grid is closed across the longitude seam, without extrapolation points outside the grid are missing, with it they continue linearly, and cells equal to missing_val behave as missing. "
  "Grid points reproduce the input exactly and fields linear in latitude and longitude are reproduced everywhere inside.",
  ["inputs"], "all grids (regular or not), target points including seam and edges, methods, missing values, containers",
  "Tests use a 4x... fixed grid and a handful of target points.",
  [IN], [("pre/post processing of cyclic points and missing values", IN+":_pre_interp_multidim, _post_interp_multidim, interp_multidim")], ["returned values and coordinates"])

# ---------------------------------------------------------------- meteorology
p("M01", "dewtemp inverts the saturation relation",
  "dewtemp returns, for every temperature (K) and relative humidity (%), the dew point given by the documented closed formula: it equals the temperature at 100 % humidity, never exceeds it below 100 %, increases with humidity and with temperature, and treats every element of scalars, lists, arrays and DataArrays independently.",
  ["inputs"], "all temperatures and humidities in the physical range, all shapes and containers",
  "Tests check a dozen fixed values.", [ME], [("dew point formula", ME+":dewtemp, _dewtemp")], ["returned values"])
p("M02", "heat_index is the documented piecewise NWS heat index",
  "For every temperature (F) and humidity, heat_index returns the simple Steadman average where that stays below the regression threshold (and the temperature itself below 40 F), otherwise the Rothfusz regression with the low-humidity and high-humidity adjustments applied exactly in their documented ranges, with alternate coefficients and threshold when requested. "
  "Each element is treated independently of the others and humidity outside 0-100 % is rejected.",
  ["inputs"], "all temperatures, humidities (including the regime boundaries), both coefficient sets, all containers and shapes",
  "Tests check one table of values; the regime boundaries and mixed arrays are not covered.",
  [ME], [("piecewise regimes", ME+":heat_index, _heat_index, _nws_eqn, _xheat_index")], ["returned values, type and attributes"])
p("M03", "relhum follows the saturation vapour pressure table",
  "relhum returns, for every temperature, mixing ratio and pressure, the relative humidity obtained from the tabulated saturation vapour pressure interpolated linearly in temperature, with temperature clamped to the table's range and the result floored at 0.0001 %; it grows with mixing ratio and with pressure, and each element of an array is independent of the others.",
  ["inputs"], "all temperatures (incl. below/above the table), mixing ratios, pressures, shapes, containers",
  "Tests check a few profiles near room conditions.", [ME], [("table lookup and interpolation", ME+":_relhum, relhum, _xrelhum")], ["returned values"])
p("M04", "relhum_ice and relhum_water follow their Magnus formulas",
  "relhum_ice and relhum_water return for every temperature, mixing ratio and pressure the documented Magnus-type relative humidity with respect to ice and water, are proportional to mixing-ratio-derived vapour pressure, and give the same numbers for scalars, lists, arrays and DataArrays of any shape.",
  ["inputs"], "all temperatures, mixing ratios, pressures, shapes, containers", "Tests check one or two values per function.",
  [ME], [("Magnus formulas", ME+":_relhum_ice, _relhum_water")], ["returned values"])
p("M05", "FAO-56 vapour pressure functions follow their equations",
  "saturation_vapor_pressure, actual_saturation_vapor_pressure, saturation_vapor_pressure_slope and psychrometric_constant return the FAO-56 equation for every temperature (Fahrenheit) or pressure (kPa), with the fill value tfill (NaN by default) for the temperature-based ones exactly where the temperature is not above freezing (32 F); the slope is the derivative of the saturation curve to the precision of the published coefficients, and numpy and xarray inputs of any shape agree.",
  ["inputs"], "all temperatures (including exactly freezing), fill values, pressures, shapes, containers", "Tests check short fixed vectors.",
  [ME], [("FAO equations and tfill masking", ME+":saturation_vapor_pressure and siblings")], ["returned values"])
p("M06", "max_daylight is the FAO-56 day length for every day and latitude",
  "max_daylight returns for every (day of year, latitude) pair the FAO-56 maximum daylight hours, between 0 and 24, equal to 12 at the equator, with results of north and south latitude summing to 24 hours for the same day, and the output ordered by day then latitude regardless of how they are passed.",
  ["inputs"], "all days 1-366, all latitudes within the supported range, any order and count, all containers",
  "Tests check a fixed grid of values.", [ME], [("day length formula on a day x latitude grid", ME+":max_daylight, _max_daylight")], ["values and dims"])
p("M07", "delta_pressure layers partition the column between top and surface",
  "For every column delta_pressure returns layer thicknesses bounded by the mid-points between pressure levels, the surface pressure below and the top pressure above: thicknesses of levels above ground are non-negative and sum to surface pressure minus top pressure, levels below ground are NaN, and the result follows the order in which levels were given.",
  ["inputs"], "all pressure level sets (ascending/descending, two or more), all surface pressures above the column top (even within the first layer), scalar/array/xarray",
  "Tests check three levels sets with one surface pressure.",
  [ME], [("layer thickness with surface cut-off", ME+":_delta_pressure1D, delta_pressure")], ["returned thicknesses"])
p("M08", "zonal_meridional_psi integrates the zonal-mean meridional flow from the top",
  "zonal_meridional_psi returns at every level and latitude the mass stream function 2*pi*a*cos(lat)/g times the pressure integral of the zonal-mean meridional wind over the layers from the model top to that level, counting only layers above the zonal-mean surface (levels without wind or below ground add nothing); it is linear in the wind, zero for zero wind, independent of longitude shifts, and each time is treated separately.",
  ["inputs"], "all wind fields, pressure or hybrid level sets in either order, surface pressures, unstructured grids, latitudes, times",
  "Tests compare a single field with NCL output.", [ME], [("layer integral of the zonal mean wind", ME+":zonal_meridional_psi, _zonal_meridional_psi")], ["returned stream function"])
p("M09", "Point-wise meteorology is element-wise, container-independent and NaN-isolating",
  "For dewtemp, heat_index, relhum, relhum_ice, relhum_water, the FAO vapour functions and psychrometric_constant, applying the function to an array equals applying it to each element alone, in whatever container (list, ndarray, DataArray, dask-backed DataArray), shape or element order, and a NaN element yields NaN there without changing or breaking any other element (below 40 F the heat index is the temperature whatever the humidity).",
  ["inputs", "configurations"], "all point-wise functions x containers x shapes x permutations x NaN positions",
  "Tests check fixed vectors per container; isolation between elements is a relation over all pairs of inputs.",
  [ME], [("vectorised branches", ME+":all point-wise functions")], ["returned values"])

# ------------------------------------------------------------ spherical
p("S01", "Spherical harmonic decomposition and recomposition are inverse",
  "On a grid with exact quadrature weights, recomposing a band-limited field's decomposition reproduces the field, and decomposing a recomposed set of coefficients reproduces the coefficients; decomposition is linear, does not depend on the overall scale of the weights, works for theta, phi and scale given in the order of the data's dimensions, orders the harmonics by degree then order, and gives the same result for numpy, xarray and dask inputs.",
  ["inputs"], "all band-limited fields, truncations, grids, weight scalings, dimension orders and containers",
  "The existing spherical tests do not run here; they sample two single harmonics.",
  [SP], [("weighted projection on harmonics", SP+":decomposition, _decomposition_rectilinear_or_list"), ("summation of harmonics", SP+":recomposition")], ["coefficients, fields, dims"])
p("S02", "scale_voronoi returns the solid-angle weights of the points",
  "For every set of distinct points on the sphere scale_voronoi returns for each point the area of its Voronoi cell: positive weights that sum to 4*pi, follow the points under permutation, do not change under rotation of the sphere, and are the same for numpy and xarray input in the shape of the input.",
  ["inputs"], "all point sets and shapes, chunking of the voronoi calculation, rotations and permutations", "Existing tests (not running) check the sum on one grid.",
  [SP], [("spherical Voronoi areas", SP+":scale_voronoi")], ["weights"])

# ------------------------------------------------------------ gradient
p("G01", "gradient differentiates with respect to true WGS84 distance",
  "gradient returns the meridional and zonal derivatives of a field per metre of distance along the WGS84 ellipsoid, for 2-D fields with 1-D or 2-D longitude/latitude coordinates and for numpy or xarray input alike: each derivative equals the difference of the data between the two neighbours (one-sided at edges) over the arc length between them, meridional arcs following the documented radius sqrt(a^2 cos^2 + b^2 sin^2) series and zonal arcs the circle of latitude; they vanish for constants, scale linearly with the data and change sign when an axis is reversed.",
  ["inputs"], "all fields, regular and irregular coordinates in either direction, 1-D and 2-D, containers",
  "Tests compare two fixed fields at coarse tolerance.",
  [GR], [("arc lengths", GR+":arc_lat_wgs84, arc_lon_wgs84"), ("finite differences over arc length", GR+":gradient")], ["both components and helper arc lengths"])

# ------------------------------------------------------------ fourier
p("F01", "Fourier filters keep exactly the requested frequency band",
  "For any real signal, fourier_low_pass keeps exactly the Fourier modes below the cutoff, fourier_high_pass exactly those at or above it (the mean is removed by a high-pass), fourier_band_pass those from the low up to the high cutoff and fourier_band_block all the others (a low cutoff between two modes counts as the mode below, a high cutoff as the mode above), where the frequency of a mode is its index times the sampling frequency divided by the number of samples along the filtered axis; kept modes are unchanged in amplitude and phase and removed ones vanish.",
  ["inputs"], "all signal lengths (even/odd), sampling frequencies, cutoffs, shapes and filtered axes",
  "Tests filter a single tidal record and a few sums of sinusoids along axis 0.",
  [FO], [("index cut-offs on the FFT spectrum", FO+":fourier_filter")], ["spectrum of the output"])
p("F02", "Fourier filters act line by line, linearly and idempotently along time_axis",
  "A Fourier filter acts independently on every one-dimensional line along time_axis whichever axis that is, is linear, is idempotent, satisfies low_pass + high_pass = identity for a cutoff on a mode and band_pass + band_block = identity, returns real data of the input's shape, and preserves dims, coords and attributes of xarray inputs.",
  ["inputs"], "all shapes, axes, containers, cutoffs, signals", "Tests use time_axis=0 or square arrays only.",
  [FO], [("axis handling", FO+":fourier_filter and wrappers")], ["values, shape and metadata"])

# ------------------------------------------------------------ stats
p("T01", "nmse is the domain-weighted normalised mean squared error",
  "nmse returns sum(w(obs-mod)^2)/sum(w(obs-mean(obs))^2) with area weights of the latitude/longitude grid over the points valid in both fields: it is zero for equal fields, one when the model is the weighted mean of the observations, invariant to adding a common constant or multiplying both fields by a common factor, and computed separately for every remaining dimension and every variable of a Dataset.",
  ["inputs"], "all fields, regular grids, missing masks, extra dims, containers",
  "Existing stats tests do not run in the suite and sample one dataset.", [ST], [("weighted MSE normalised by variance", ST+":nmse")], ["returned value"])
p("T02", "pearson_r is the (weighted) Pearson correlation",
  "pearson_r returns the Pearson correlation of the two inputs over the requested dimensions, with optional weights (along the reduced dimensions for labelled data, of the whole array otherwise) and NaN skipping: it lies in [-1, 1], is symmetric, is 1 with itself, changes sign under negation, is invariant to positive affine maps of either input and equal weights equal no weights, for numpy, DataArray and Dataset inputs alike.",
  ["inputs"], "all fields, dims, weights, NaN patterns, containers", "Existing tests do not run in the suite and sample a fixed array.",
  [ST], [("xskillscore correlation with weights", ST+":pearson_r")], ["returned value"])
p("T03", "EOF analysis is the singular value decomposition of the anomalies",
  "eofunc_eofs and eofunc_pcs return the leading eigenvectors and principal components of the (optionally weighted) anomaly data with the documented scalings: EOFs are orthogonal, the anomalies are recovered by summing PCs times EOFs, eigenvalues and variance fractions are those of the covariance matrix in decreasing order, missing grid points stay missing and do not influence others, and the time dimension can be any axis (also counted from the end) of an array and is the leftmost of a DataArray, given at least two points with data.",
  ["inputs"], "all data shapes, ranks, time axes, weights, scalings, missing points, containers",
  "Existing EOF tests do not run in the suite; they compare absolute values of fixed fields.",
  [ST], [("solver construction and output layout", ST+":_generate_eofs_solver, eofunc_eofs, eofunc_pcs")], ["EOFs, PCs, attributes"])

# ------------------------------------------------------------ cross-cutting
p("X01", "Functions neither modify their inputs nor remember earlier calls",
  "No public function changes the values, attributes, coordinates or names of its arguments or any library default, and the result of a call depends only on its arguments, not on which calls were made before it in the process.",
  ["histories", "inputs"], "all sequences of calls of public functions with shared arguments",
  "Unit tests make one call on fresh data and never compare inputs before and after or call orders.",
  [CL, IN, ME, SP, GR, FO, ST, GC], [("copies before in-place work", "interpolation.py:_pre_interp_multidim, meteorology.py:_xheat_index")], ["deep copies of arguments before and after; repeated results"])
p("X02", "Invalid inputs are rejected with the documented errors",
  "Inputs a function's documentation declares invalid (unknown frequency, method, season, filter or variable name, non-time coordinates, unevenly spaced time where required, mismatched shapes, humidity or latitude out of range, missing required extrapolation arguments, wrong types) raise the documented error and never return a value, while inputs inside the documented domain are never rejected.",
  ["inputs", "configurations"], "all functions x invalid argument classes x otherwise valid inputs",
  "Tests try one instance of some of the classes.", [CL, IN, ME, FO, ST], [("argument validation", "climatologies.py, interpolation.py, meteorology.py, fourier_filters.py, stats.py")], ["exception type"])
p("X03", "Wrappers, NCL-named entry points and package exports agree with their functions",
  "Every alternative entry point (fourier low/high/band wrappers versus fourier_filter, package-level exports, NCL-style EOF, climatology and calculation aliases, the dimension-based variants of functions) returns the same result as the function it stands for on all inputs, and removed functions only announce their deprecation.",
  ["inputs", "configurations"], "all aliases x inputs", "Tests exercise aliases on fixed data, if at all.",
  [FO, ST, ME, "deprecated.py", "__init__.py"], [("wrappers", "fourier_filters.py, stats.py, deprecated.py, __init__.py")], ["values of both entry points"])
p("X04", "Dask-backed inputs give the same results as in-memory inputs",
  "For every function documented or tested to accept dask-backed xarray inputs, computing the result from any chunking equals the in-memory result, and functions that the library's own dask tests expect to stay lazy return dask-backed results without losing blocks or reordering data.",
  ["inputs", "configurations"], "all dask-supporting functions x chunk layouts x shapes",
  "test_dask samples one chunking per function and is not in the reliably running suite.",
  [CL, IN, ME, SP, ST], [("apply_ufunc / map_blocks", "interpolation.py, meteorology.py, climatologies.py")], ["computed values"])
p("X05", "Coordinates and dimension order of xarray inputs survive",
  "Functions that map a field to a field of the same grid return DataArrays with the dimensions (names and order) and coordinates of the input, documented attributes set, and data aligned to those coordinates even when the dimensions of some inputs are permuted (the order is then that of one of the inputs).",
  ["inputs", "configurations"], "all element-wise and filter functions x dim orders x coords", "Tests mostly compare bare values.",
  [ME, FO, GR, SP, CL], [("xarray re-wrapping", "meteorology.py, fourier_filters.py, gradient.py, spherical.py")], ["dims, coords, attrs"])

p("X06", "Columns, members and requested points are computed independently",
  "Along dimensions a function does not act on, every slice of the result equals the result for that slice alone, whatever the other slices contain (missing, constant, of another sign or magnitude) and wherever that dimension stands; and what is returned at a requested level, point, day or latitude does not depend on which others are requested or in which order.",
  ["inputs", "configurations"], "all functions accepting further dimensions or requested targets x fields x other members x positions of the extra dimension x selections",
  "Tests use single fields; leakage between columns (global minima, shared masks, wrong axes, positional pairing) needs pairs of different inputs.",
  [CL, IN, ME, FO, ST], [("loops over stacked columns, broadcasting and grouping", "interpolation.py, climatologies.py, meteorology.py, fourier_filters.py, stats.py")], ["values of the stacked and the separate calls"])

p("X07", "Arguments mean the same by position, by keyword and by default",
  "Every public function keeps the calling convention its documentation gives: parameters in the documented order and under the documented names, and an omitted optional argument means the documented default. "
  "Calls that spell the same arguments differently - by position, by keyword, or by leaving documented defaults out - return identical results.",
  ["inputs", "configurations"], "all public functions x numbers of positional arguments x subsets of omitted or explicit defaults x argument values",
  "Tests call each function in one or two spellings; a swapped pair of optional parameters or a changed default only shows when the spellings are compared.",
  [CL, IN, ME, SP, GR, FO, ST], [("function signatures and forwarding between functions", "every module")], ["results of two spellings of one call"])
p("X08", "Calls in several threads do not affect one another",
  "When public functions run at the same time in several threads of one process, on their own or on shared arguments, every call returns what it returns alone and leaves its arguments alone.",
  ["schedules", "inputs"], "all sets of concurrent calls of public functions x interleavings (zonal_meridional_psi excepted: uxarray's zonal mean is not thread-safe itself)",
  "No test uses threads; dask's threaded scheduler and web services call the functions concurrently.",
  [CL, IN, ME, SP, GR, FO, ST], [("absence of shared mutable state; absence of temporary in-place changes of arguments", "every module")], ["results per thread against the result of the call alone"])
p("X09", "The documented warnings appear exactly when their condition holds",
  "Humidity that looks fractional (heat_index), latitudes beyond the validity of the day-length equation (max_daylight), hybrid coefficients on differently named dimensions, custom seasons without the season frequency, an unused dim or axis argument (pearson_r), chunking along the level dimension, deprecated and removed functions: each raises its warning whenever its condition holds, and none of these warnings appears otherwise.",
  ["inputs", "configurations"], "all inputs on either side of each condition, including its boundaries and mixed inputs",
  "Tests trigger some of the warnings once and never check that ordinary input stays quiet.",
  [CL, IN, ME, ST, "deprecated.py"], [("warnings.warn and its conditions", "climatologies.py, interpolation.py, meteorology.py, stats.py, deprecated.py")], ["recorded warnings"])
p("X10", "Results depend on the numbers, not on the type they are stored in",
  "The same numbers given as 32- or 64-bit integers, in single precision or in double precision give the same results: integers exactly as double precision (no truncation, no integer division, no overflow), single precision to within rounding of single precision.",
  ["inputs"], "all public functions x arguments x stored types x values, up to the largest 32-bit integers where the result is linear in them",
  "Tests use double precision nearly everywhere; whole-number data (heights, counts, days, Pa) and model output in single precision are what users have.",
  [CL, IN, ME, SP, GR, FO, ST], [("implicit conversions in array arithmetic", "every module")], ["values for two stored types"])
p("X11", "Physical units carried by the data survive",
  "Data that carry units (pint quantities in DataArrays) go through the climatology functions and the vertical interpolation with their unit and with the magnitudes the plain numbers give; the pressures of the vertical interpolation may be in any units of pressure, mixed, in any order of levels; data without units stay without, and correlation and normalised error are dimensionless.",
  ["inputs", "configurations"], "data units x pressure units of surface pressure, reference pressure and levels x methods x level orders x the climatology functions",
  "One test interpolates one field with all pressures in Pa.",
  [IN, CL, ST], [("pint detection and unit handling around metpy", IN+":interp_hybrid_to_pressure")], ["units and magnitudes of the result"])

p("X12", "Expressing a field in another unit only changes the unit of the result",
  "Multiplying a field by any constant factor multiplies climatologies, anomalies, filtered signals, interpolated values, gradients, harmonic coefficients and recompositions, principal components, humidities (factor on the mixing ratio) and the stream function by that factor, multiplying all pressures multiplies layer thicknesses and hybrid pressures, and neither changes normalised errors, correlations, EOF patterns, variance fractions or (for a factor on all pressures) interpolated values; adding a constant to a field adds it to its averages and interpolated values and changes no anomaly, gradient, correlation, normalised error or EOF. Nothing depends on the absolute magnitude of the data.",
  ["inputs", "configurations"], "every function linear, homogeneous or invariant in an argument x factors from 2**-60 to 2**60, signs and offsets x containers",
  "Tests use one magnitude per function; absolute thresholds, fill values and lost digits only show for very small or very large numbers.",
  [CL, IN, ME, FO, GR, SP, ST], [("linearity of the climatology, interpolation, filter, gradient and harmonic code", CL+", "+IN+", "+FO+", "+GR+", "+SP), ("invariance of the statistics", ST+":nmse, pearson_r, eofunc_eofs")], ["values of the result of the rescaled call against those of the original call"])

p("U01", "Variables are found by standard name, then long name, then listed names",
  "Functions that search a dataset for their inputs (zonal_meridional_psi) use the first variable, in dataset order, whose name or standard_name attribute spells the standard name; failing that, the first whose name or long_name attribute spells the long name; failing that, the first existing name of the listed alternatives in their documented order, each in its usual capitalisations. "
  "An explicitly named variable is always used as given, unrelated variables never matter, and a required variable that none of these finds raises KeyError.",
  ["inputs", "configurations"], "all datasets with decoy variables, attributes, spellings and orders",
  "Tests look up a handful of fixed datasets; precedence between competing candidates and hash-order dependence only show over many datasets.",
  [GC, ME], [("CF-style variable search", GC+":_find_var, _find_optional_var"), ("search for wind, surface pressure and levels", ME+":zonal_meridional_psi")], ["which variable the result was computed from"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
