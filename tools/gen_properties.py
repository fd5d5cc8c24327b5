"""Writes /verif/properties.jsonl (kept as code so that the texts are easy to edit)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
              "why_tests_cant":why,"anchors":a})

TB="pyrtlib/tb_spectrum.py"; RT="pyrtlib/rt_equation.py"; AB="pyrtlib/absorption_model.py"; UT="pyrtlib/utils.py"
WF="pyrtlib/weighting_functions.py"; UN="pyrtlib/uncertainty/absmod_uncertainty.py"; EX="pyrtlib/climatology/extrapolation.py"
AP="pyrtlib/climatology/atmospheric_profiles.py"; ER="pyrtlib/apiwebservices/erafive.py"; IG="pyrtlib/apiwebservices/igra2.py"
WY="pyrtlib/apiwebservices/wyomingupperair.py"; WS="pyrtlib/apiwebservices/webservices.py"
LL=["pyrtlib/_lineshape/h2oll.py","pyrtlib/_lineshape/o2ll.py","pyrtlib/_lineshape/o3ll.py"]

prop("C01","Computations are independent of what ran before in the process",
 "The result of a simulation, a weighting-function computation, a direct absorption-coefficient call or a spectroscopic-parameter query depends only on its own inputs and options and on the absorption models currently selected. "
 "Whatever other computations ran earlier in the same process - with other models, profiles, channels, angles, viewing directions, emissivities, clouds, ozone or perturbed spectroscopic parameters, finished or failed - the result equals the one obtained in a fresh process. "
 "Repeating the same computation gives the same numbers.",
 ["histories"],"all sequences of public operations (select model, simulate with any option set, perturb parameters, compute weighting functions, call absorption routines, query parameters) in one process",
 "The tests run one computation per test with one expected table; whether leftovers of earlier computations (selected model, reloaded line list, view direction, emissivity, perturbed parameters) reach a later one depends on the order of operations, which no test varies.",
 [TB,RT,AB,UT,UN,WF]+LL,
 [("model selection kept in class attributes",AB),("line list reloaded before each simulation",TB+" execute/_init_linelist"),("module reload",UT+" import_lineshape"),("view direction and emissivity set before use",TB+" execute")],
 [("selected model per species","class attribute read by every absorption call",AB),("line list","module-level arrays replaced at selection, overwritten by perturbed parameters",",".join(LL)),("view direction, emissivity","class attributes of the RTE class",RT)],
 ["brightness-temperature table and intermediate dictionary returned by a simulation","absorption coefficients","weighting functions"])

prop("C02","Inputs are never modified and returned results never change afterwards",
 "No computation changes the arrays, dictionaries or parameter sets a caller passes in: profiles, heights, frequencies, angles, emissivities, ozone and cloud profiles and spectroscopic parameters hold the same values afterwards. "
 "What a computation has returned keeps its values whatever is computed later with the same or other objects, and changing a returned object does not influence later computations.",
 ["histories","inputs"],"all sequences of computations over shared input arrays, with all input variants (surface height not zero, descending order, ozone, clouds, perturbed parameters)",
 "Tests build fresh inputs for each case and compare only the returned brightness temperatures, immediately; aliasing shows only when an input or an earlier result is looked at again after a later step.",
 [TB,RT,UN,EX,AP,WF,UT],
 [("profile arrays kept and shifted to height above the surface",TB+" __init__"),("returned dictionary of intermediate arrays",TB+" execute"),("deep copy before perturbation",UN+" parameters_perturbation"),("profile arrays read per call",AP+" gl_atm")],
 [("result arrays","allocated once per simulation object, overwritten by each execution",TB)],
 ["arguments after the call","earlier results after later calls"])

prop("C03","A simulation does not depend on profile order; non-monotonic heights are refused",
 "A profile given top-down gives exactly the same result as the same profile given bottom-up, including pressure, temperature, humidity, ozone and cloud contents. "
 "Heights that are neither strictly increasing nor strictly decreasing are refused with an error instead of producing numbers. "
 "Shifting all heights by a constant changes nothing in the plane-parallel case.",
 ["inputs"],"all profile orders and all height patterns (increasing, decreasing, equal, locally reversed) over short profiles, with every combination of ozone, clouds, viewing direction and path model",
 "Every test profile is ascending and starts at sea level.",
 [TB],[("monotonicity test and flip of the profiles",TB+" __init__"),("height offset",TB+" __init__, init_cloudy")],
 None,["result table and dictionary","raised error"])

prop("C04","Brightness temperatures solve the radiative transfer equation",
 "For a given profile of layer opacities and temperatures, the upwelling and downwelling brightness temperatures, the atmosphere-only brightness temperature and the mean radiating temperature are those of the discretised radiative transfer equation with modified Planck radiances: surface emission weighted by emissivity for upwelling, cosmic background for downwelling, and layer contributions attenuated by the opacity between layer and antenna. "
 "Hence an isothermal opaque atmosphere gives its own temperature, a transparent one gives the background, the mean radiating temperature lies within the profile's temperature range, and integrated opacity is the sum over layers.",
 ["inputs"],"all small layer structures over a grid of layer opacities from zero to saturated, temperatures, frequencies, emissivities and both viewing directions",
 "The tests compare total brightness temperature for a few standard atmospheres with stored tables; extreme opacities, saturation, emissivities other than 1, the atmosphere-only and mean radiating temperatures are never looked at.",
 [RT,UT],[("layer recursion for both directions",RT+" planck"),("inverse Planck",RT+" bright"),("modified Planck function",UT+" tk2b_mod")],None,
 ["planck, bright","columns tbtotal, tbatm, tmr of a simulation"])

prop("C05","Layer integration and cloud terms follow their definitions",
 "Path integrals of a quantity use the exponential (logarithmic-mean) layer rule with its documented special cases, are additive over layers, bounded by the end values of each layer and reported per layer and in total. "
 "Integrated cloud liquid and ice contents and the cloud mean radiating temperature are computed from exactly the layers between cloud base and top (base and top being profile levels; the radiating temperature is that of the first cloud), contents summed over one or several clouds. Cloud absorption follows the liquid and ice density profiles level by level (liquid from the selected liquid model, ice from the ice formula) and is zero where the density is zero.",
 ["inputs"],"all profile value patterns (zero, equal, nearly equal, growing, decaying, negative) over short layer stacks, all base/top level pairs for one and two clouds, liquid and ice independently present or absent",
 "One cloudy test compares brightness temperature of one profile; the integrated contents, ice, cloud radiating temperature, several clouds and special cases of the integration are not reached.",
 [RT,TB],[("layer integration",RT+" exponential_integration"),("cloud content",RT+" cloud_integrated_density"),("cloud absorption",RT+" cloudy_absorption"),("cloud radiating temperature",RT+" cloud_radiating_temperature"),("cloud levels",TB+" init_cloudy")],None,
 ["layer and total integrals","sliq, sice, tauliq, tauice, tmrcld"])

prop("C06","Channels and angles are computed independently of each other",
 "Adding, removing, repeating or reordering frequencies or elevation angles in one simulation changes no value reported for the remaining ones. "
 "Each row of the result table and each slice of the returned dictionary belongs to the frequency and angle it is listed for, including per-channel surface emissivities; the table lists all frequencies for the first angle, then for the next.",
 ["inputs"],"all ordered selections (with repetition) of frequencies and angles from a small set, with scalar and per-channel emissivity, clouds and ray tracing on and off",
 "Tests use one angle, one fixed frequency grid and compare whole tables, so a mix-up between channels or angles that the stored tables do not contain is invisible.",
 [TB,RT],[("loops over angle and frequency",TB+" execute"),("emissivity per channel",TB+" emissivity, execute"),("table assembly",TB+" execute")],
 [("emissivity of the current channel","class attribute set in the channel loop",RT)],["result table rows","dictionary slices"])

prop("C07","Slant path lengths obey plane-parallel and refractive ray geometry",
 "Without ray tracing each layer's path is its thickness divided by the sine of the elevation angle; with ray tracing it follows the refracted ray in a spherical atmosphere for the profile's refractive index and the observer height. "
 "Near-vertical rays have path equal to thickness; path lengths are never shorter than the layer, never longer than the plane-parallel value, grow as the elevation decreases, and match Snell's law for spherically stratified media within the algorithm's accuracy.",
 ["inputs"],"all elevation angles on a grid down to low elevations including values near the vertical, all standard atmospheres, uniform and vacuum media, several observer heights, several level spacings",
 "Only one ray-tracing result at one angle is compared; no test relates path lengths at different angles, heights or refractive profiles.",
 [RT,TB],[("ray tracing",RT+" ray_tracing"),("plane-parallel path",TB+" execute")],None,["layer path lengths","integrated path quantities of a simulation"])

prop("C08","Vapour pressure, density and refractivity are physically consistent",
 "Saturation vapour pressure over water follows the Goff-Gratch formula, over ice (when the ice option is on) its ice counterpart below the freezing threshold; vapour pressure is relative humidity times saturation and vapour density obeys the ideal gas law. "
 "Dry and wet refractivity follow the Thayer formula, are zero without the corresponding gas, and the refractive index is one plus their sum in parts per million. "
 "The same physical state gives the same humidity, to 0.2 per cent, whichever of the library's functions computes it.",
 ["inputs"],"temperature grid 150-340 K around all thresholds, relative humidity 0 to supersaturated, pressure 0.01 to 1100 hPa, ice option on and off, level-by-level and whole-profile evaluation",
 "The existing tests evaluate these functions at single points and never with the ice option.",
 [RT,UT],[("saturation pressure and density",RT+" vapor"),("refractivity",RT+" refractivity"),("Goff-Gratch functions",UT+" eswat_goffgratch, esice_goffgratch, satvap")],None,["returned e, rho, dryn, wetn, refindx"])

prop("C09","Selecting an absorption model takes effect completely, or fails loudly",
 "Every model name the library lists for a species can be selected and used for that species, and the coefficients used from then on are exactly those listed for that model, with nothing left over from a previously selected model; species can be given different models. "
 "A name the library does not list for a species raises an error naming the problem before any number is produced. "
 "A simulation uses for each species the model selected for it when it runs, however the selection was made.",
 ["histories","configurations"],"all sequences of model selections for water vapour, oxygen, nitrogen, liquid water and ozone, over all listed and several unlisted names",
 "Tests select a handful of models each in one fixed order and only compare brightness temperatures.",
 [AB,UT,TB]+LL,[("model lists from coefficient files",AB+" implemented_models"),("selection and check",AB+" set_ll"),("coefficient loading","pyrtlib/_lineshape"),("module reload",UT+" import_lineshape"),("selection for all species",TB+" init_absmdl")],
 [("line list module attributes","coefficients of the selected model",",".join(LL))],["line list in effect","absorption coefficients","raised error"])

prop("C10","Absorption coefficients equal the published model for every species",
 "For every listed water-vapour, oxygen, ozone and nitrogen model, and for cloud liquid water, the absorption coefficient at any frequency, temperature, pressure and humidity equals the published formula of that model evaluated with its coefficient table, for line and continuum parts. "
 "It is finite and (except in the oxygen model R98, whose published form has no lower limit) not negative, water-vapour absorption vanishes without vapour, ozone absorption without ozone, and cloud absorption without liquid water; cloud absorption is proportional to liquid content.",
 ["inputs","configurations"],"all listed models times a grid of frequencies (including line centres, wings, cut-off edges, 1-1000 GHz), temperatures, pressures from surface to mesosphere and humidities from zero to saturation",
 "Stored tables cover total brightness temperature of a few atmospheres below 200 GHz for some models: single terms, mesospheric pressures, submillimetre frequencies, cut-offs and most ozone and liquid models are not reached.",
 [AB,UT,RT]+LL,[("water vapour",AB+" H2OAbsModel"),("oxygen",AB+" O2AbsModel"),("nitrogen",AB+" N2AbsModel"),("ozone",AB+" O3AbsModel"),("liquid water",AB+" LiqAbsModel, "+UT+" dilec12"),("unit conversion per level",RT+" clearsky_absorption"),("complex error function",UT+" _dcerror")],None,
 ["absorption routines","wet and dry absorption profiles of a simulation"])

prop("C11","Spectroscopic perturbations change exactly what they name",
 "Perturbing a spectroscopic parameter returns a new parameter set in which only the named parameters, and of parameters with an uncertainty per line only the given line index (all lines if none is given), differ - by plus or minus the stated uncertainty - and leaves the stored set untouched. "
 "A simulation with unperturbed parameters (continuum scale factors at one) equals the simulation without any for every model that supports them, a perturbed one equals the model evaluated with that coefficient changed, and later simulations without perturbation are unaffected. "
 "The propagation formulas give the documented values.",
 ["inputs","histories","configurations"],"all parameters times all line indices times both directions for each supported model, all sequences of perturbed and unperturbed simulations, all propagation functions over a value grid including covariances",
 "One stored table for one parameter in one direction; the neutrality of an unperturbed set and the isolation of perturbations is asserted nowhere.",
 [UN,AB],[("parameter sets",UN+" SpectroscopicParameter"),("perturbation",UN+" parameters_perturbation"),("use in absorption",AB),("propagation",UN+" uncertainty_propagation")],
 [("stored parameter set","class attribute replaced by set_parameters",UN)],["returned parameter dictionaries","absorption and simulation with perturbed parameters"])

prop("C12","Weighting functions are transmittance times absorption, channel by channel",
 "A weighting function at a level is the absorption there times the transmittance between that level and the antenna, on the interpolated height grid, for the set frequencies, angle, model and viewing direction; it is not negative and integrates over the path to one minus the total transmittance within discretisation accuracy. "
 "Each channel's function is independent of the other channels, band-averaging averages exactly the members of each band in order, and plotting changes neither the object nor later results.",
 ["inputs","histories"],"all small channel sets and orders, both directions, all band partitions of up to five channels, sequences of compute and plot operations",
 "The tests run it for one configuration and compare one array; band averaging and the effect of plotting on later computations are not observed.",
 [WF],[("computation",WF+" generate_wf"),("band averaging",WF+" _mean_channel, plot_wf"),("grid interpolation",WF+" __init__")],
 [("frequencies, model, angle, band partition","settings of the object",WF)],["returned array","plotted curves and labels","object settings after plotting"])

prop("C13","Standard atmospheres are complete, consistent and freshly delivered",
 "Each of the six standard atmospheres is delivered with its published altitude, pressure, density, temperature and gas-mixing-ratio profiles under the documented gas identifiers, on the common 0-120 km grid, with pressure decreasing upwards and density consistent with the gas law; minor and trace gases come from the column of their identifier. "
 "Unknown selections fail instead of returning another profile, and each call returns independent data.",
 ["inputs","histories"],"all atmospheres times all gas identifiers, identifiers outside the range, all sequences of calls with modification of the returned arrays",
 "Tests read one or two columns of one atmosphere.",
 [AP,"pyrtlib/climatology/*.dat"],[("profile tables",AP+" gl_atm, gl_atm_minor, gl_atm_trace"),("identifiers",AP)],None,["returned arrays"])

prop("C14","Reference-atmosphere formulas follow ITU-R P.835 everywhere",
 "Temperature, pressure and water-vapour density of the reference atmospheres as functions of latitude, season and height, and the standard atmosphere's temperature, pressure, vapour density and vapour pressure, equal the formulas of Recommendation ITU-R P.835-6 in every height layer and latitude zone, symmetric in the sign of latitude, for single heights and arrays alike. "
 "Unknown seasons are refused.",
 ["inputs"],"all latitude zones and both hemispheres, both seasons, dense height grid 0-100 km including all layer limits and their neighbours, single heights and arrays",
 "Tests evaluate three heights at one latitude.",
 [EX],[("zonal selection",EX+" temperature, pressure, water_vapour_density"),("layer formulas",EX)],None,["returned values"])

prop("C15","Profile extrapolation keeps the measured part and is repeatable",
 "Extrapolating a profile returns the measured levels unchanged followed by reference-atmosphere levels above the measured top only, with heights strictly increasing up to 100 km and pressure, temperature and relative humidity (as a fraction, like the input) of the reference atmosphere for the latitude and month at exactly those heights. "
 "It works for measured tops below and above 50 km, gives the same answer on every call of the same or another object, and the season follows the hemisphere.",
 ["inputs","histories"],"all latitudes zones times all twelve months times measured tops from near surface to 90 km, all sequences of extrapolations on one object",
 "The only test of it needs the network and looks at one profile.",
 [EX],[("height vector",EX+" profile_extrapolation"),("season",EX+" _get_season"),("humidity conversion",EX+" profile_extrapolation")],
 [("height vector of the object","grown by each call",EX)],["returned z, p, t, rh"])

prop("C16","Unit conversions are mutually consistent and element-wise",
 "Conversions between humidity measures (mixing ratio, vapour pressure, vapour density, relative humidity, dew point), pressure and height, gas amounts (ppmv, g/kg, molecules per volume) and condensate densities follow their documented formulas, and each pair of opposite conversions restores the value. "
 "They act element by element, identically on single values and arrays, and layer thickness follows the hypsometric equation, additive over layers.",
 ["inputs"],"grid of pressures, temperatures, humidities, all gas identifiers, ice threshold variants, dew-point methods, array lengths from one to four",
 "Tests check single numbers per function; inverse pairs, ice variants, all gas identifiers and array shapes are not covered.",
 [UT],[("conversion functions",UT)],None,["returned values"])

prop("C17","Instrument channel lists contain each instrument's channels",
 "For every supported ground and satellite instrument, in any letter case, the channel list holds exactly the instrument's documented centre frequencies, with side bands placed symmetrically around their line centre, in order and without duplicates. "
 "An unknown instrument name is refused, and each call returns a fresh list that callers may change.",
 ["inputs","histories"],"all instrument names in several spellings, unknown names, repeated calls with modification of the result",
 "Tests check the length or the first values of some instruments.",
 [UT],[("channel tables",UT+" get_frequencies, get_frequencies_sat")],None,["returned arrays"])

prop("C18","Reanalysis reading returns the nearest column in the documented orientation",
 "Reading a reanalysis file returns the profile of the grid point nearest to the requested longitude and latitude among all points of the grid, for any grid shape and any order of the latitudes and longitudes. "
 "The table runs from the surface upward, every variable comes from that point and level, relative humidity is a fraction, height starts at zero and follows the hypsometric equation, units and time describe the values.",
 ["inputs","configurations"],"all small grids (1-4 by 1-4, ascending or descending coordinates, one or more times), all requested points around each grid point",
 "Tests read two square files at one point each.",
 [ER,UT],[("nearest point",ER+" _find_nearest"),("reading and flipping",ER+" read_data"),("heights",UT+" atmospheric_tickness")],None,["returned table and attributes"])

prop("C19","Radiosonde archive files are decoded exactly for the requested period",
 "From an archive file the library returns exactly the soundings whose time lies within the requested period, each with all its levels in order, header fields and dates attached to the right rows. "
 "Every fixed-width field is decoded to its documented physical unit - pressure, height, temperature, humidity, wind, elapsed and release times, latitude and longitude of any sign and size - and missing-value codes become missing values, in both the raw and the derived format.",
 ["inputs"],"all files of up to three small soundings over an alphabet of dates (including missing hour), level counts and field values with missing codes, all requested periods",
 "No test decodes a file; the only related test needs the network.",
 [IG],[("date selection",IG+" _select_date_range"),("field decoding",IG+" _get_fwf_params"),("cleaning and units",IG+" _clean_body_df, _clean_header_df")],None,["returned body and header tables"])

prop("C20","Wyoming soundings and station lists are decoded exactly",
 "From an answer of the sounding archive the library returns every level that reports temperature and dew point, in order, with pressure, height, temperature, dew point, humidity and mixing ratio under their names and units, and station identifier, number, time, position and elevation as given in the answer, whether or not the station has an identifier. "
 "The station list of a region contains each listed station once with its identifier and full name.",
 ["inputs"],"all answers of up to four levels over an alphabet of level lines (complete, without trailing fields, extreme values), with and without identifier, negative positions, all small station maps",
 "The tests need the network and look at one station name.",
 [WY],[("table parsing",WY+" _get_data"),("metadata parsing",WY+" _get_data"),("station list",WY+" get_stations")],None,["returned tables"])

prop("C21","Server failures surface as errors, never as wrong data",
 "When a sounding archive answers with an error status, with its no-data message, or with an empty, truncated or structurally damaged payload (damaged archive, missing parts of the page, fewer levels than announced), a request for soundings ends in an error and never in a table with wrong contents; a following request with a good answer works normally. An error status for a station list is an error too. "
 "Each request asks the address that belongs to the requested station, period, data set and region.",
 ["fault_sequences","histories"],"all sequences of up to three server answers (good, error statuses, no-data text, truncated, empty, connection failure) over all request kinds",
 "No test can make a server fail; those that exist need the network.",
 [WS,IG,WY],[("status check",WS+" _get"),("error mapping",IG+" _get_data_raw, "+WY+" _get_data_raw"),("address building",IG+" request_data, "+WY+" _get_data_raw")],None,["raised error or returned table","requested addresses"])

prop("C22","Every combination of simulation options gives the modelled result",
 "For every combination of viewing direction, path model, clouds, ozone, emissivity, observer height, perturbed parameters and model choice - set at construction or afterwards, and changed between executions of the same object - the returned table and dictionary equal the composition of the documented steps: humidity, refractivity, path, absorption, integration, radiative transfer. "
 "The table always has the documented columns with one row per frequency and angle, and the dictionary the documented entries with their shapes.",
 ["configurations","histories"],"full product of the options over two small profiles, each option set before or after construction, all sequences of option changes up to a bound followed by execution",
 "Tests fix about a dozen option sets; combinations (for example ozone with clouds seen from the ground, or switching direction on one object) are not exercised.",
 [TB,RT,AB],[("option handling",TB+" __init__, setters, init_cloudy, init_absmdl"),("composition of steps",TB+" execute")],
 [("options","attributes of the simulation object",TB)],["returned table and dictionary"])

prop("C23","Objects in use at the same time do not disturb each other",
 "Several simulations, weighting-function objects, perturbed parameter sets, extrapolations and direct absorption calls can be constructed, configured and executed in any interleaving: each gives the results it gives when it is the only one, with the absorption models selected at that moment. "
 "Results and tables already handed out are never changed by what is done later, and changing them, or the parameter sets and model lists a query has returned, changes nothing that is computed later (an attached profile or parameter set is used as it is when the object is executed).",
 ["histories","schedules"],"all interleavings of the steps (construct, set options, attach clouds, select models, perturb, execute, fail, overwrite a result) of every pair of life cycles, including two of the same kind",
 "Every test uses one object at a time and looks at its result once.",
 [TB,RT,AB,WF,UN,EX,AP],[("view direction and emissivity handed over through the class",RT+" _from_sat, _emissivity"),("model selection and line lists",AB+" set_ll"),("stored parameters",UN+" set_parameters"),("result arrays",TB+" execute")],
 [("models in effect","process-wide",AB),("options","per object",TB)],["result tables","arrays handed out earlier"])

prop("C24","Questionable input is announced by a warning, sound input is not",
 "A profile with fewer than 25 levels or not reaching above 10 hPa is announced by a warning whenever a simulation is constructed from it; so are executing with clouds while an outdated liquid-water model is selected, attaching clouds to an object whose cloud option is off, a refracted ray that is trapped in a duct, "
 "negative absorption or humidity met in an integration, a cloud whose temperature is hidden behind more than 125 nepers, and the shift of grouped weighting functions in a plot. "
 "Every occurrence is announced, not only the first, and input free of these conditions produces no warning.",
 ["inputs","histories"],"all sequences of constructing, switching clouds, attaching clouds, selecting liquid models and executing up to a bound; level counts and top pressures around the limits; ducts times elevation angles; sign patterns of short profiles",
 "No test looks at a warning; most run with warnings switched off.",
 [TB,RT,WF],[("level and pressure check",TB+" __init__"),("cloud checks",TB+" init_cloudy, execute"),("duct, integration and cloud checks",RT+" ray_tracing, exponential_integration, cloud_radiating_temperature"),("plot note",WF+" plot_wf_grouped")],
 None,["warnings issued"])

prop("C25","Invalid settings are refused with an error and leave everything as it was",
 "A viewing direction that is no truth value, an emissivity or frequency or height grid of the wrong kind, an unknown season, extrapolation scheme, physical constant, gas, profile, perturbation direction, parameter, line number or propagation formula, an unordered profile, and a grouped plot for a ground observer are refused with an error. "
 "After a refusal the object or library is exactly as it was before: the previous settings are read back, and results equal those of an object that never saw the invalid setting.",
 ["inputs","histories"],"all sequences of valid and invalid settings and executions up to a bound; all strings within one edit of each valid name; all gas and profile numbers around the valid ranges; all positions of an unknown name in a list of parameters",
 "Tests try one invalid value for a few setters and never look at the object afterwards.",
 [TB,WF,EX,UN,UT,AP],[("setters",TB+" satellite, emissivity; "+WF+" satellite, frequencies; "+EX+" height"),("season and scheme",EX),("perturbation",UN+" parameters_perturbation, uncertainty_propagation"),("constants",UT+" constants"),("gases",AP+" gl_atm_minor, gl_atm_trace")],
 [("settings","attributes of the object",TB+", "+WF+", "+EX),("stored parameters","class attribute",UN)],["raised error","settings read back","results after the refusal"])

prop("C26","Simulations and queries in parallel threads give the results they give alone",
 "Several threads of one process can run simulations, call the absorption functions, query parameter sets, convert humidities, extrapolate profiles, read the built-in catalogues and read reanalysis files at the same time, each on its own objects: as long as no thread selects absorption models or stores parameter sets meanwhile, "
 "each gets exactly the result it gets alone, with its own viewing direction, emissivity, clouds and files, and none ends in an error, a deadlock or a crash of the interpreter.",
 ["schedules"],"all preemptions of each activity before each of its source lines by other activities running to the end, and pairs of preemptions at function entries",
 "No test uses a thread; a clash needs a switch between two particular lines.",
 [TB,RT,AB,UN,UT,EX,AP,ER],[("settings handed to the solver",TB+" execute; "+RT+" planck"),("line lists and files read under a lock",AB+" import_lineshape, implemented_models; "+ER+" read_data"),("perturbed copies",UN+" parameters_perturbation")],
 [("selected models and line lists","process-wide, read only in this property",AB),("netCDF library","one thread at a time",UT)],["result tables","errors","crashes"])

prop("C31","Downloads from the live archives return current data",
 "Requests to the public sounding, reanalysis and satellite-product services return the data those services publish.",
 ["inputs"],"all live requests","Needs the services themselves.",
 [WY,IG,ER,"pyrtlib/apiwebservices/eps_sandbox.py"],[("HTTP access",WS)],None,["downloaded files"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
