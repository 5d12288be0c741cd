"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level='model_checking', state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, state=state))


TLA = 'TLA+ spec model-checked with TLC; traces of the real code validated against it by TLC'
NOTE = ('TLC explores the specified behaviour exhaustively within the stated bounds and replays every recorded '
        'execution of the real code through the same operators; assurance on the code side is that of the '
        'explored scenarios (systematic grid from TLC plus seeded random ones). Trusted: TLC, the double-arithmetic '
        'overrides, the recording driver.')

prop('C01', 'A ModelChain run depends only on its own inputs, never on earlier runs',
     'Running a ModelChain (from weather, from plane-of-array irradiance or from effective irradiance) gives the same results whether the object is fresh or has already been used for any sequence of runs, on the same or different data, in single-array or multi-array form, including runs that raised an error. A run never changes the weather data, the system, or the location it was given, and one chain never affects another.',
     ['histories', 'inputs'], 'every sequence of runs, failed runs and interleaved chains on one ModelChain object',
     'Tests build a new ModelChain per case; reuse of one object over mixed run kinds, data shapes and failures is a history quantifier they do not sample.',
     ['pvlib/modelchain.py', 'pvlib/pvsystem.py'],
     [('ModelChain.run_model*', 'pvlib/modelchain.py'), ('ModelChainResult', 'pvlib/modelchain.py')],
     ['ModelChain.results', 'caller-owned DataFrames'], TLA, NOTE, state=[('results', 'outputs of the last run', 'ModelChain.results')])
prop('C02', 'Multi-array ModelChain runs isolate arrays and keep the caller\'s container shape',
     'For a system with several arrays, each array\'s irradiance, temperature and DC results equal those of a one-array system with that array and that array\'s data, and do not depend on any other array; only the solar position, computed with the pressure and air temperature of the first array\'s data, is shared. Per-array results are tuples exactly when several arrays or tuple input are used and bare values otherwise (one weather table given for all arrays stays one table), and inputs whose number, type, columns or time index do not match the arrays are rejected with an error.',
     ['configurations', 'inputs'], 'every number and mix of arrays, per-array or shared weather, and every malformed input combination',
     'Tests use a few fixed two-array systems; isolation is a relation between runs over all array mixes.',
     ['pvlib/modelchain.py', 'pvlib/pvsystem.py'],
     [('_verify_df/_assign_weather/_singleton_tuples', 'pvlib/modelchain.py'), ('PVSystem._validate_per_array', 'pvlib/pvsystem.py')],
     ['ModelChain.results'], TLA, NOTE)
prop('C03', 'ModelChain selects models consistently with the given parameters or refuses',
     'Given no explicit choice, a ModelChain selects the DC, AC, AOI, spectral and temperature models that the module, inverter and temperature parameters of all arrays support, and raises ValueError when they support none or conflict. An explicitly named model is used if and only if its name is one of the documented names (case-insensitively) and the required parameters are present; anything else is rejected, never silently replaced.',
     ['configurations'], 'every combination of parameter sets on modules, inverter and temperature model and every model name',
     'Tests name a handful of combinations; selection is a function on a product of parameter sets.',
     ['pvlib/modelchain.py', 'pvlib/pvsystem.py', 'pvlib/temperature.py'],
     [('infer_*_model and model setters', 'pvlib/modelchain.py')], ['selected model, or the exception'], TLA, NOTE)
prop('C04', 'ModelChain computes the documented pipeline with the documented data precedence',
     'Each ModelChain run applies the selected models in the documented order, each step using the previous steps\' results for the same array. Supplied cell temperature takes precedence over module temperature, which takes precedence over the temperature model; missing wind speed is 0 m/s and missing air temperature 20 C; a supplied albedo column overrides the array albedo; losses are applied exactly once, to DC before AC.',
     ['inputs', 'configurations'], 'every subset of optional weather columns crossed with run kinds and model choices',
     'Tests check call wiring with mocks for a few combinations, not the values over the product of columns and models.',
     ['pvlib/modelchain.py'], [('run_model, run_model_from_poa, run_model_from_effective_irradiance', 'pvlib/modelchain.py')],
     ['ModelChain.results fields'], TLA, NOTE)
prop('C05', 'PVSystem applies each array\'s own parameters and unwraps single arrays',
     'Every PVSystem calculation returns for array i exactly what the corresponding stand-alone function returns for array i\'s parameters and the i-th input; with one array the bare value is returned and with several a tuple in array order. A scalar input is shared by all arrays, and a tuple of the wrong length is rejected.',
     ['configurations', 'inputs'], 'every number of arrays, parameter mix and argument form of the PVSystem methods',
     'Tests use identical arrays or mocks, which cannot show cross-array leaks.',
     ['pvlib/pvsystem.py'], [('_unwrap_single_value, _validate_per_array', 'pvlib/pvsystem.py')], ['return values of PVSystem methods'], TLA, NOTE)
prop('C06', 'NREL snow coverage evolves as the documented accumulate/slide/melt automaton',
     'Coverage is a fraction of slant height in [0,1]: an interval whose hourly snowfall rate exceeds the threshold sets it to 1; otherwise it slides down only when plane-of-array irradiance and temperature permit, at the documented rate times the interval length, and never rises. Coverage is reset to 0 where snow depth is below its threshold (when given), depends only on past data, and the resulting DC loss is the fraction of strings touched.',
     ['histories', 'inputs'], 'every sequence of snowfall, irradiance, temperature, depth and every regular sampling interval',
     'Tests replay two or three fixed series; the rule is a recurrence over all series and intervals.',
     ['pvlib/snow.py'], [('coverage_nrel, fully_covered_nrel, dc_loss_nrel', 'pvlib/snow.py')], ['returned series'], TLA, NOTE,
     state=[('coverage', 'covered fraction of slant height', 'coverage_nrel')])
prop('C07', 'Kimber and HSU soiling accumulate, cap and reset exactly by their rain rules',
     'Kimber soiling grows linearly by the daily rate up to the maximum, returns to zero only on rain above the threshold or on a manual wash date, and stays zero for the grace period after a cleaning rain. HSU soiling ratio follows accumulated particulate mass, resets exactly where rain over the accumulation period reaches the threshold, and is 1 when clean; neither depends on future data and sampling interval only scales the increments.',
     ['histories', 'inputs'], 'every rain history, wash calendar, threshold, period and sampling interval',
     'Tests use a few fixed rain files; the rule is an automaton over all rain histories.',
     ['pvlib/soiling.py'], [('kimber, hsu', 'pvlib/soiling.py')], ['returned series'], TLA, NOTE)
prop('C08', 'Transient temperature models are causal recurrences over any sampling',
     'The Fuentes and Prilliman module temperatures at each time depend only on data up to that time, follow the documented recurrence with the actual time step, and equal the steady state for constant input. A change to later data never changes earlier output, and the output keeps the index of the input.',
     ['histories', 'inputs'], 'every weather series and sampling interval',
     'Tests compare two reference files; causality and step-size dependence quantify over all series.',
     ['pvlib/temperature.py'], [('fuentes, prilliman', 'pvlib/temperature.py')], ['returned series'], TLA, NOTE)
prop('C09', 'Clear-sky detection flags exactly the samples in a window meeting all criteria',
     'A sample is flagged clear exactly when some full window containing it meets all documented criteria at the final scaling factor; thresholds are strict, and inferred limits interpolate the documented table over 1 to 30 minutes and otherwise are refused. The answer does not depend on array or Series form, on absolute time, or on scaling of the clear-sky model that the scaling factor removes, and inputs too short or irregular for a window are rejected.',
     ['inputs'], 'every measured/clear-sky pair, sampling interval, window length and threshold set',
     'Tests use one 30-sample day; the window membership rule quantifies over all series and windows.',
     ['pvlib/clearsky.py', 'pvlib/tools.py'], [('detect_clearsky', 'pvlib/clearsky.py'), ('_get_sample_intervals', 'pvlib/tools.py')], ['flags, components, alpha'], TLA, NOTE)
prop('C10', 'Single-axis tracker rotation respects limits, geometry and backtracking',
     'Tracker rotation stays within the configured rotation limits, equals the sun-following rotation when that is within limits and no backtracking correction applies, and when backtracking never leaves a row-to-row shadow that rotating to the documented angle would remove. Surface tilt and azimuth are the geometric orientation of the axis rotated by that angle, the angle of incidence is the angle between that orientation and the sun, and all outputs are NaN with the sun at or below the horizon.',
     ['inputs', 'configurations'], 'every sun position, axis orientation, ground coverage ratio, cross-axis slope and limit',
     'Tests use selected orientations; the limits and geometry are relations over a continuous product.',
     ['pvlib/tracking.py', 'pvlib/shading.py'], [('singleaxis, calc_surface_orientation, calc_axis_tilt, calc_cross_axis_tilt', 'pvlib/tracking.py')], ['returned columns'], TLA, NOTE)
prop('C11', 'Inverter models convert, clip and fall back by the documented operating regions',
     'AC power equals the documented Sandia, ADR or PVWatts conversion in the operating region, never exceeds the rated AC power, is minus the night tare when DC power is below start-up (Sandia) or DC voltage is zero (ADR), is zero rather than negative for PVWatts, and is NaN outside the ADR voltage window. Multi-input variants equal the weighted single-input model of the summed DC power and reject mismatched input counts, and fitting Sandia parameters to exact Sandia data returns those parameters.',
     ['inputs', 'configurations'], 'every DC power, voltage, parameter set, number of inputs and scalar/array/Series form',
     'Tests sample single points per model; region boundaries, scalar forms and input counts are a product they do not reach.',
     ['pvlib/inverter.py'], [('sandia, sandia_multi, adr, pvwatts, pvwatts_multi, fit_sandia', 'pvlib/inverter.py')], ['return values'], TLA, NOTE)
prop('C12', 'Single-diode solutions satisfy the diode equation and agree across methods',
     'Every current/voltage pair returned by any solution method satisfies the single-diode equation for its parameters, and all methods agree to numerical tolerance. Maximum power is at least the power of any other point of the curve and equals v_mp*i_mp, v_oc gives zero current and i_sc zero voltage, curve points run from short circuit to open circuit, and zero photocurrent gives zero power.',
     ['inputs', 'configurations'], 'every physical parameter set, including ideal resistances and dark conditions, in scalar, array and Series form',
     'Tests compare stored values at few parameter sets; the equation quantifies over the parameter space and methods.',
     ['pvlib/singlediode.py', 'pvlib/pvsystem.py', 'pvlib/ivtools/utils.py'], [('singlediode, i_from_v, v_from_i, max_power_point', 'pvlib/pvsystem.py'), ('bishop88*, _lambertw*', 'pvlib/singlediode.py')], ['return values'], TLA, NOTE)
prop('C13', 'Steady-state cell temperature models follow their equations and unit conversions',
     'Each steady-state module/cell temperature model equals its published equation, gives ambient temperature at zero irradiance, rises with irradiance and falls with wind where documented, and handles every mounting constant of the parameter tables (the NOCT-SAM model is defined for positive plane irradiance). Converting between the linear models through the generic model preserves the predicted temperature.',
     ['inputs', 'configurations'], 'every irradiance, temperature, wind, mounting and parameter set',
     'Tests check one or two points per model.', ['pvlib/temperature.py', 'pvlib/pvsystem.py'],
     [('sapm_*, pvsyst_cell, faiman, faiman_rad, ross, noct_sam, generic_linear, GenericLinearModel', 'pvlib/temperature.py')], ['return values'], TLA, NOTE)
prop('C14', 'DC-side power and loss models follow their equations over the whole input range',
     'The PVWatts, SAPM, Huld, ADR-efficiency and Batzelis DC models, the De Soto, CEC and PVsyst parameter models, the PVWatts and combined loss factors, ohmic losses and the transformer efficiency follow their published equations, including at zero and very low irradiance and at regime limits. Power scales linearly with strings and voltage with modules per string.',
     ['inputs', 'configurations'], 'every irradiance, temperature and parameter set, including zero, negative, NaN and integer input',
     'Tests check isolated reference points.', ['pvlib/pvsystem.py', 'pvlib/pvarray.py', 'pvlib/transformer.py'],
     [('pvwatts_dc, sapm, calcparams_*, pvwatts_losses, combine_loss_factors, dc_ohms_from_percent, dc_ohmic_losses, scale_voltage_current_power', 'pvlib/pvsystem.py'), ('huld, pvefficiency_adr, batzelis', 'pvlib/pvarray.py'), ('simple_efficiency', 'pvlib/transformer.py')], ['return values'], TLA, NOTE)
prop('C15', 'Cached, shared and global library state never leaks between calls',
     'Values returned by the library are owned by the caller: changing a returned parameter table, module database, results object or default does not change what any later call returns. Calling with the numpy and numba solar position back ends in any order gives each call the method it asked for.',
     ['histories'], 'every sequence of calls with caller-side modification of returned values in between',
     'Tests never modify a returned value and call again.', ['pvlib/temperature.py', 'pvlib/pvsystem.py', 'pvlib/solarposition.py', 'pvlib/modelchain.py'],
     [('parameter tables, default dictionaries, retrieve_sam, spa import switching', 'pvlib')], ['return values of later calls'], TLA, NOTE)
prop('C16', 'Plane-of-array irradiance is the sum of its documented components',
     'For every sky model total in-plane irradiance equals direct plus sky diffuse plus ground diffuse, direct is DNI times the non-negative cosine of incidence, ground diffuse is GHI*albedo*(1-cos tilt)/2, and a horizontal surface receives the horizontal diffuse (Klucher excepted, and within the zenith limits of the circumsolar term). Each sky diffuse model equals its published equation in every regime (sky clearness bins, sun below horizon, sun behind the surface), and its returned components sum to its total.',
     ['inputs', 'configurations'], 'every geometry, irradiance and sky model, at and between regime boundaries, in scalar, array and Series form',
     'Tests use a few sun positions and one tilt.', ['pvlib/irradiance.py'], [('get_total_irradiance, get_sky_diffuse, isotropic, klucher, haydavies, reindl, king, perez, perez_driesse, poa_components', 'pvlib/irradiance.py')], ['return values'], TLA, NOTE)
prop('C17', 'Decomposition and closure models keep GHI = DHI + DNI*cos(zenith) and bounds',
     'Irradiance decomposition models return the diffuse fraction of their published piecewise correlations, non-negative components that satisfy the closure equation when the sun is up, and zero beam beyond the zenith and minimum-cosine limits. Completion of a missing component satisfies closure, and clearness index and clear-sky index stay within their documented caps.',
     ['inputs'], 'every GHI, zenith, day and optional pressure, at and between correlation breakpoints',
     'Tests use three or four zeniths.', ['pvlib/irradiance.py'], [('erbs, erbs_driesse, orgill_hollands, boland, louche, disc, dni, complete_irradiance, clearness_index', 'pvlib/irradiance.py')], ['return values'], TLA, NOTE)
prop('C18', 'Time-series beam models use only the documented neighbour samples',
     'DIRINT beam irradiance is the DISC beam times a coefficient selected by clearness, zenith, precipitable water and the change to the adjacent samples only, each sample being otherwise independent, and is zero or NaN when DISC is; a missing dew point counts as not given. DIRINDEX is the clear-sky beam scaled by the ratio of DIRINT values and never negative. GTI-DIRINT returns, of its iterations, the split of the plane irradiance that transposes back closest to it (within 1 W/m2 unless it warns), non-negative with the sun in front of the plane, and treats each half day with the sun behind the plane by itself, for one day or many, arrays or Series.',
     ['histories', 'inputs'], 'every time series of GHI, zenith and optional dew point', 'Tests use two or three samples.',
     ['pvlib/irradiance.py'], [('dirint, dirindex, gti_dirint', 'pvlib/irradiance.py')], ['return values'], TLA, NOTE)
prop('C19', 'Clear-sky models are physical at every sun position and turbidity',
     'Clear-sky GHI, DNI and DHI equal their published model, are finite and non-negative for physical input, are zero with the sun below the horizon (no light where the airmass is undefined; the Bird model is undefined there), and for the Ineichen and Bird models close as GHI = DNI*cos(zenith) + DHI. Turbidity climatology lookups return the value of the grid cell and day of year, interpolated continuously between month middles, for any latitude, longitude, year and timezone.',
     ['inputs'], 'every zenith, airmass, turbidity, altitude, aerosol and time, including night and NaN', 'Tests check a few rows.',
     ['pvlib/clearsky.py', 'pvlib/tools.py', 'pvlib/location.py'], [('ineichen, simplified_solis, haurwitz, bird, lookup_linke_turbidity', 'pvlib/clearsky.py')], ['return values'], TLA, NOTE)
prop('C20', 'Sun-surface geometry is the true angle between sun and surface normal',
     'Incidence angle, projection, beam component, projected solar zenith, tracker surface orientation and axis tilts equal spherical geometry for every orientation, are invariant under full turns and under a common rotation of sun and surface azimuth, and a surface facing the sun has incidence zero. No angle is ever NaN for finite input because of rounding.',
     ['inputs'], 'every sun and surface orientation including poles, antipodes and exact alignment', 'Tests check a handful of aligned cases.',
     ['pvlib/irradiance.py', 'pvlib/shading.py', 'pvlib/tools.py'], [('aoi, aoi_projection, beam_component, projected_solar_zenith_angle, calc_surface_orientation', 'pvlib')], ['return values'], TLA, NOTE)
prop('C21', 'Solar position depends on the instant and place, not on how time is expressed',
     'The same instants expressed in any timezone, order, resolution or index length give the same solar position, and every position satisfies zenith + elevation = 90 (true and apparent), azimuth from 0 to 360, and refraction that does not lower the sun (beyond 0.0001 degrees near the zenith). All methods agree within their documented accuracy (the simplified ephemeris in 1901-2099), each row depends only on its own time, and an unknown method is rejected.',
     ['inputs', 'configurations'], 'every timestamp set, timezone, location and method', 'Tests check one date in one timezone per method.',
     ['pvlib/solarposition.py', 'pvlib/spa.py'], [('get_solarposition and its methods', 'pvlib/solarposition.py')], ['returned columns'], TLA, NOTE)
prop('C22', 'Sunrise, transit and sunset fall on the local date in order',
     'For each local date sunrise, transit and sunset are returned in the timezone of the request and in that order, transit falling on that local date, the sun\'s elevation at rise and set is the documented horizon and transit is the day\'s highest sun. Where the sun does not rise or set the result is missing (with PyEphem, refused), and the answer does not depend on the time of day, order or repetition of the requested times.',
     ['inputs'], 'every date, latitude, longitude, timezone and method', 'Tests use a few dates at two sites.',
     ['pvlib/solarposition.py', 'pvlib/location.py'], [('sun_rise_set_transit_spa/ephem/geometric', 'pvlib/solarposition.py')], ['returned times'], TLA, NOTE)
prop('C23', 'Calendar quantities are right in every timezone, year and representation of time',
     'Day-of-year quantities (extraterrestrial irradiance, day angle, equation of time, declination, earth-sun distance, hour angle) are the same for any representation of the same time and respect leap years and local time where documented. Hour angle and time-of-day conversions round-trip and are consistent with the offset in force at each instant, including daylight saving changes.',
     ['inputs'], 'every timestamp, timezone with daylight saving, and accepted time type', 'Tests use single dates in fixed-offset zones.',
     ['pvlib/irradiance.py', 'pvlib/solarposition.py', 'pvlib/tools.py', 'pvlib/atmosphere.py'], [('get_extra_radiation, equation_of_time_*, declination_*, hour_angle, tools._datetimelike_scalar_to_*', 'pvlib')], ['return values'], TLA, NOTE)
prop('C24', 'A Location\'s timezone views always name the same zone',
     'After construction or any sequence of timezone assignments, the string and the timezone-object views of a Location denote the same zone, an assignment that is rejected leaves the previous zone in force, and other attributes are unaffected. Fixed-hour offsets map to the zone with that offset, unsupported values are rejected, and calculations localize to that zone.',
     ['histories', 'inputs'], 'every sequence of assignments of every accepted and rejected timezone form', 'Tests construct once per form.',
     ['pvlib/location.py'], [('Location.tz, Location.pytz', 'pvlib/location.py')], ['tz, pytz attributes'], TLA, NOTE)
prop('C25', 'Array functions act element by element, keep the index and never change inputs',
     'For functions documented as numeric, the result at each position depends only on the inputs at that position: scalar, array and Series forms agree, permuting or slicing the input permutes or slices the output, and Series output carries the input index. Inputs are never modified and NaN in one position never affects another (a layout in which every position is NaN may be refused).',
     ['inputs'], 'every documented numeric function, any length, order, dtype and index', 'Tests call each function in one or two forms.',
     ['pvlib'], [('vectorised model functions', 'pvlib')], ['return values, inputs after the call'], TLA, NOTE)
prop('C26', 'Weather file readers place every value at the right time and column',
     'For every well-formed file a reader returns one row per record, each value under its documented column in documented units with missing-value codes as NaN, indexed by the record\'s time in the file\'s timezone under the documented labelling, and metadata equal to the header. No record is dropped, duplicated or shifted, including at midnight, year end, 24:00 records and leap days.',
     ['inputs', 'programs'], 'every well-formed file of each supported format', 'Tests parse one sample file per format.',
     ['pvlib/iotools'], [('read_tmy3, read_tmy2, read_epw, read_surfrad, read_solrad, read_crn, read_srml, read_midc, read_bsrn, read_panond ...', 'pvlib/iotools')], ['returned DataFrame and metadata'], TLA, NOTE)
prop('C27', 'Web data readers send the request asked for and fail loudly',
     'For every argument combination a web reader requests the documented address with exactly the requested location, period, variables and credentials, maps variable names and units only when asked, and labels data in the documented timezone. Error responses, error payloads and invalid arguments raise an exception and are never returned as data.',
     ['inputs', 'fault_sequences'], 'every argument combination and server response class', 'Tests use live servers or few mocked answers.',
     ['pvlib/iotools'], [('get_* functions', 'pvlib/iotools')], ['HTTP requests, return values, exceptions'], TLA, NOTE)
prop('C28', 'Readers close what they open and leave caller-supplied handles usable',
     'Every file opened by a reader is closed when the call ends, whether it succeeds or raises at any point, and buffers supplied by the caller are left open, ready to be rewound and read again. A read that fails raises instead of returning part of the data, and reading a path, a URL or an open buffer of the same content give equal results, also after an earlier reading failed.',
     ['crash_points', 'inputs'], 'every reader, every input form and a failure at every read', 'Tests never fail a read part way.',
     ['pvlib/iotools'], [('reader functions', 'pvlib/iotools')], ['open file objects after the call'], TLA, NOTE)
prop('C29', 'Shading and view-factor geometry conserves energy and stays within [0,1]',
     'View factors and shaded fractions lie in [0,1], facing views of ground, sky and rows complement each other, shaded fraction equals the exact ray geometry of row-to-row shading, and unshaded geometry gives zero loss. Bifacial totals (infinite sheds and ANTS-2D) are the sum of their components and scale linearly with irradiance.',
     ['inputs', 'configurations'], 'every row geometry, slope, sun position and number of rows', 'Tests check special geometries.',
     ['pvlib/shading.py', 'pvlib/bifacial'], [('shaded_fraction1d, masking_angle, sky_diffuse_passias, direct_martinez', 'pvlib/shading.py'), ('vf_*, infinite_sheds', 'pvlib/bifacial')], ['return values'], TLA, NOTE)
prop('C30', 'Incidence-angle modifiers are 1 at normal incidence, 0 behind, and monotone',
     'Each IAM model equals its published equation, is 1 at normal incidence, never negative or above its documented bound, zero for incidence at or beyond 90 degrees, even in the sign of the angle where documented, and NaN only where the input is. Diffuse IAM equals the solid-angle average of the direct IAM, and fitted or converted IAM models reproduce their source within tolerance.',
     ['inputs', 'configurations'], 'every angle from -180 to 180 and parameter set', 'Tests check about ten angles.',
     ['pvlib/iam.py'], [('ashrae, physical, martin_ruiz, martin_ruiz_diffuse, sapm, interp, schlick, schlick_diffuse, marion_*, convert, fit', 'pvlib/iam.py')], ['return values'], TLA, NOTE)
prop('C31', 'Spectral models follow their documented polynomials, limits and averages',
     'Spectral mismatch and response models equal their published equations within the documented validity limits and clamp, flag as NaN or raise outside them as documented. Spectral averages are invariant to scaling of the spectrum and conversions between response and efficiency invert each other.',
     ['inputs', 'configurations'], 'every airmass, precipitable water, aerosol, clearness, module type and spectrum', 'Tests check few points.',
     ['pvlib/spectrum'], [('spectral_factor_*, calc_spectral_mismatch_field, sr_to_qe, qe_to_sr, average_photon_energy', 'pvlib/spectrum')], ['return values'], TLA, NOTE)
prop('C32', 'Atmospheric conversions invert each other and airmass is sane at every zenith',
     'Altitude and pressure, and dew point and humidity, conversions invert each other. Relative airmass models equal their published formulas, are about 1 at zenith, increase with zenith and are NaN beyond 90 degrees; turbidity, precipitable water, Angstrom and wind-speed conversions follow their published formulas including their lower limits.',
     ['inputs'], 'every zenith, pressure, altitude, humidity and aerosol value', 'Tests check isolated points.',
     ['pvlib/atmosphere.py', 'pvlib/albedo.py'], [('alt2pres, pres2alt, get_relative_airmass, gueymard94_pw, rh_from_tdew, tdew_from_rh, ...', 'pvlib/atmosphere.py')], ['return values'], TLA, NOTE)
prop('C33', 'Deprecation wrappers warn once per use and forward behaviour unchanged',
     'A renamed or deprecated argument or function warns on each use of the old form, returns exactly what the new form returns, and never warns for the new form. Supplying both the old and the new name is an error, and other arguments are passed through untouched.',
     ['inputs', 'histories'], 'every way of passing positional and keyword arguments through the wrappers, in any sequence', 'Tests check one call form.',
     ['pvlib/_deprecation.py'], [('deprecated, renamed_kwarg_warning', 'pvlib/_deprecation.py')], ['warnings, return values'], TLA, NOTE)
prop('C34', 'Bounded searches and fits recover the optimum or parameters they search for',
     'The bounded scalar search brackets the maximum of any unimodal function within tolerance inside its bounds, independently for every row (tolerances above the float spacing of the bounds). Fits of single-diode and ADR parameters to data generated by their own model recover parameters that reproduce the data within the documented accuracy of the method (the Sandia methods within 0.5-1 % of the short-circuit current); a fit that finds no solution raises. Curve clean-up keeps each point of the first quadrant once, in order of voltage.',
     ['inputs'], 'every unimodal function, bracket and tolerance; every physical parameter set', 'Tests fit a few stored curves.',
     ['pvlib/tools.py', 'pvlib/ivtools', 'pvlib/pvarray.py'], [('_golden_sect_DataFrame', 'pvlib/tools.py'), ('fit_*', 'pvlib/ivtools')], ['return values'], TLA, NOTE)
prop('C35', 'Wavelet variability scaling only smooths, by plant geometry and cloud speed',
     'Wavelet-based variability scaling depends only on plant geometry, cloud speed and the clear-sky index series (finite, sampled at most every 4096 s; a coarser interval is rejected): wavelet modes and residual sum to the original series, smoothing factors lie in [0,1], a point plant and a constant series are left unchanged, and a larger plant or slower cloud is never less smoothed. Array and Series input agree, and the interval is read from the whole index spacing.',
     ['inputs', 'configurations'], 'every series length, sampling interval, plant layout and cloud speed', 'Tests use one short series.',
     ['pvlib/scaling.py'], [('wvm, _compute_wavelet, _compute_vr', 'pvlib/scaling.py')], ['return values'], TLA, NOTE)


def build():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            o = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  observe_at=p['observe'], hook_needed=None))
            if p['state']:
                o['anchors']['state'] = [dict(name=a, meaning=b, where=w) for a, b, w in p['state']]
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    for p in P:
        fs = glob.glob(os.path.join(V, 'checks', p['id'].lower() + '_*.py'))
        if fs:
            checks.append(dict(property=p['id'], quick_cmd='bin/check %s quick' % p['id'],
                               thorough_cmd='bin/check %s thorough' % p['id'],
                               technique=p['technique'], level=p['level'], level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    m = dict(version=1, setup_cmd='bash bin/build.sh', checks=checks, not_applicable=na,
             notes='No hooks are needed in /repo: every observation point is public API. See DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


build()
