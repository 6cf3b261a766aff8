"""Writes properties.jsonl and MANIFEST.json from one table (run after editing: /opt/venv/bin/python tools/meta.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, R, T, U, W, L = ('pyrtlib/absorption_model.py', 'pyrtlib/rt_equation.py', 'pyrtlib/tb_spectrum.py', 'pyrtlib/utils.py',
                    'pyrtlib/weighting_functions.py', 'pyrtlib/_lineshape')
CL, CE = 'pyrtlib/climatology/atmospheric_profiles.py', 'pyrtlib/climatology/extrapolation.py'
UN, COV = 'pyrtlib/uncertainty/absmod_uncertainty.py', 'pyrtlib/uncertainty/covariance_matrix'
API = 'pyrtlib/apiwebservices/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=m.split('@')[0], where=m.split('@')[1]) for m in mech], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe:
        d['anchors']['observe_at'] = observe
    P.append((d, technique, note))


PIN = 'The existing tests compare a few fixed profiles, frequencies and models with stored numbers, '

prop('C01', 'Brightness temperatures solve the radiative transfer equation',
     'For every atmosphere, frequency, elevation angle, set of models, cloud and surface emissivity, the reported brightness temperature is the '
     'solution of the plane-stratified transfer equation for the layer opacities of that same run: downwelling radiation seen from the ground adds '
     'the attenuated cosmic background, upwelling radiation seen from a satellite adds the attenuated surface emission of the lowest level. '
     'The atmospheric part and the mean radiating temperature belong to the same solution, for opaque as well as for nearly transparent columns.',
     ['inputs', 'configurations'], 'every profile x frequency x angle x direction x emissivity x cloud x model',
     PIN + 'mostly one clear midlatitude profile; opaque channels, thin channels, emissivity below one, oblique satellite views and their atmospheric '
     'parts are not covered.', [R, T], ['RTEquation.planck@' + R, 'TbCloudRTE.execute@' + T, 'RTEquation.bright@' + R],
     'runtime monitor on executed simulations with an independent transfer-equation oracle',
     'Independent solution recomputed from the layer opacities of each observed run, tolerance 1e-9; sampled scenarios, not all inputs.',
     observe=['DataFrame columns tbtotal, tbatm, tmr', 'layer opacities of the full output'])

prop('C02', 'Simulated temperatures obey the laws of thermal radiation',
     'Whatever the gas model, an isothermal atmosphere over a black surface is seen from space at exactly its own temperature, brightness temperatures lie '
     'between those of the coldest and the warmest emitter in view, the radiance depends linearly on the surface emissivity, and an opaque column '
     'shows the temperature of its visible end. The conversion between brightness temperature and Planck radiance is exact in both directions at all '
     'microwave and submillimetre frequencies, and an isothermal sky only gets warmer towards the horizon.',
     ['inputs', 'configurations'], 'every profile x frequency x angle x direction x emissivity',
     PIN + 'so a law that must hold for all profiles is never evaluated as a law.', [R, T, U],
     ['RTEquation.planck@' + R, 'RTEquation.bright@' + R, 'tk2b_mod@' + U, 'constants@' + U],
     'runtime monitor of physical invariants (metamorphic laws) over executed simulations',
     'Laws that need no gas model; independent of the reference implementation.')

prop('C03', 'Opacities and columns account for every layer exactly once',
     'In every run each layer opacity (vapour, dry air, liquid, ice) is the path length of that layer times the mean absorption of the layer, '
     'logarithmic for the gases where both ends are positive and arithmetic otherwise, and the total opacity of each kind is the sum of its layers. '
     'The reported water vapour, cloud liquid and cloud ice columns and the wet and dry path delays are the vertical integrals of the corresponding profiles.',
     ['inputs', 'configurations'], 'every profile (fine, coarse, equal values in a layer, zero values) x frequency x angle x cloud',
     PIN + 'the column integrals of a single profile; special layers (equal ends, zero ends, cloud edges, last layer) are not reached.', [R, T],
     ['RTEquation.exponential_integration@' + R, 'RTEquation.cloud_integrated_density@' + R, 'RTEquation.refractivity@' + R,
      'TbCloudRTE.execute@' + T],
     'runtime conservation monitor: independent layer-by-layer integration against executed runs',
     'Every layer of every sampled run is recomputed; tolerance 1e-9.', observe=['taulay*, srho, swet, sdry, sliq, sice of the full output'])

prop('C04', 'Slant paths follow the elevation angle and the refracting spherical atmosphere',
     'For a plane atmosphere each path increment is the layer thickness divided by the sine of the elevation angle; with ray tracing it is the length of the '
     'ray that obeys Snell\'s law in a spherical atmosphere with the refractivity of the profile and the given observation height, exactly vertical at 90 '
     'degrees and growing as the elevation falls. The path actually used for the opacities of a run is this path, for each angle of the run.',
     ['inputs', 'configurations'], 'every profile x observation height x elevation angle x ray tracing on/off',
     PIN + 'mostly at 90 degrees and without ray tracing.', [R, T], ['RTEquation.ray_tracing@' + R, 'RTEquation.refractivity@' + R, 'TbCloudRTE.execute@' + T],
     'runtime monitor: executed paths against an independent Snell-law integration and the published algorithm',
     'Algorithm agreement 1e-9; physical agreement 5e-3 (documented approximation of the algorithm).')

prop('C05', 'Water vapour absorption is that of the selected published model',
     'At every frequency, pressure, temperature and humidity the water vapour absorption equals the line and continuum sum of the selected published model '
     'with its published line list, and is zero without vapour. The reported line and continuum parts are that model\'s parts, and whole '
     'simulations use the same values level by level.',
     ['inputs', 'configurations'], 'every model x frequency 1-1000 GHz x state from the surface to the mesosphere',
     PIN + 'up to about 200 GHz on one profile, to a few decimals, so line cut-off, shifted lines, speed dependence, high altitude and submillimetre range are '
     'open.', [A, L + '/h2oll.py', L + '/h2o_lineshape.nc', R],
     ['H2OAbsModel.h2o_absorption@' + A, 'H2OAbsModel.h2o_continuum@' + A, 'line list@' + L + '/h2oll.py', 'RTEquation.clearsky_absorption@' + R],
     'differential runtime monitor against an independent implementation with pinned line tables',
     'Each sampled value compared at 1e-9..1e-7; line tables pinned at the base commit.')

prop('C06', 'Oxygen and nitrogen absorption is that of the selected published models',
     'At every frequency, pressure, temperature and humidity the dry-air absorption equals the sum of the selected published oxygen model (lines with '
     'line mixing, non-resonant part, published line list) and the selected nitrogen continuum. The parts reported separately add up to it, and whole '
     'simulations use the same values level by level.',
     ['inputs', 'configurations'], 'every oxygen and nitrogen model x frequency x state',
     PIN + 'on few channels around 50-60 GHz; mixing of weak lines, Zeeman-range pressures and the submillimetre lines are not reached.',
     [A, L + '/o2ll.py', L + '/o2_lineshape.nc', R],
     ['O2AbsModel.o2_absorption@' + A, 'N2AbsModel.n2_absorption@' + A, 'line list@' + L + '/o2ll.py', 'RTEquation.clearsky_absorption@' + R],
     'differential runtime monitor against an independent implementation with pinned line tables', 'As C05.')

prop('C07', 'Ozone absorption is that of the selected published model and only when requested',
     'At every frequency and state the ozone absorption equals the sum over the published line list of the selected model within its selection '
     'distance, is proportional to the ozone density and zero without ozone. In a whole simulation it is part of the dry opacity exactly when an ozone '
     'profile and an ozone model are given.',
     ['inputs', 'configurations'], 'every ozone model x frequency x ozone profile',
     PIN + 'with ozone on one atmosphere; the line selection distance and profiles with empty levels are not reached.',
     [A, L + '/o3ll.py', L + '/o3_lineshape.nc', R, T], ['O3AbsModel.o3_absorption@' + A, 'RTEquation.clearsky_absorption@' + R],
     'differential runtime monitor against an independent implementation with pinned line tables', 'As C05.')

prop('C08', 'Cloud liquid and ice absorption follows the selected models',
     'At every frequency and temperature the liquid water absorption is the Rayleigh absorption for the permittivity of the selected liquid water model, '
     'proportional to the water density and zero without it; ice absorption follows its own published formula. A cloudy simulation uses exactly these values at '
     'each cloudy level.',
     ['inputs', 'configurations'], 'every liquid model x frequency x temperature (supercooled to hot) x density',
     PIN + 'on one cloudy profile; supercooled, hot or submillimetre cases are not reached.', [A, U, R],
     ['LiqAbsModel.liquid_water_absorption@' + A, 'dilec12@' + U, 'RTEquation.cloudy_absorption@' + R],
     'differential runtime monitor against an independent permittivity implementation', 'Each sampled value compared at 1e-9.')

prop('C09', 'The models used are exactly those the user selected',
     'Every documented way of selecting an absorption model leads to the same numbers, and a later selection of one component replaces that component '
     'only. A name outside the published lists (or a missing one) is refused with an error instead of producing numbers, including lists and models of ozone '
     'and liquid water.',
     ['configurations', 'inputs', 'histories'], 'every combination of models, ways of selecting them and invalid names',
     'Tests select models one way each and try a single invalid name.', [A, T, R, L],
     ['AbsModel.implemented_models@' + A, 'AbsModel.set_ll@' + A, 'TbCloudRTE.init_absmdl@' + T, 'TbCloudRTE._init_linelist@' + T],
     'runtime monitor: agreement of selection routes and rejection oracle over random selections',
     'Selections sampled; all models visited.', state=[('model', 'selected model of each component (class state)', A)])

prop('C10', 'A result never depends on what was computed before',
     'A simulation, weighting function, climatology request or parameter request gives bit-identical results whether it is the first operation of the process or '
     'follows any sequence of other operations, including runs with other models, perturbed parameters, clouds and failed runs. Re-executing one '
     'object after its settings were changed and restored gives its first result again.',
     ['histories'], 'every sequence of public operations in one process',
     'Tests run each case once, in one order, and a stale state shows only for particular orders.', [A, T, R, UN, CE, W],
     ['TbCloudRTE._init_linelist@' + T, 'TbCloudRTE._init_results@' + T, 'set_ll@' + A, 'SpectroscopicParameter.set_parameters@' + UN],
     'offline checker over event logs of forked processes: pristine run versus run after a random history',
     'Random histories of 1-6 operations (thorough: longer); bit identity.',
     state=[('line lists', 'module-level line list objects shared by all runs', A), ('RTEquation flags', 'class-level state', R)])

prop('C11', 'Inputs are never modified and results belong to the caller',
     'No public operation changes the arrays, tables or parameter sets passed to it, and it accepts read-only and strided inputs with the same result. '
     'Returned results share no memory with the inputs or with internal state, so overwriting them changes no later result.',
     ['inputs', 'histories'], 'every public operation x writable, read-only and strided arguments',
     'Tests never look at their inputs after a call or overwrite results.', [T, R, U, W, UN, CE, CL],
     ['TbCloudRTE.__init__@' + T, 'RTEquation.cloudy_absorption@' + R, 'profile_extrapolation@' + CE, 'gl_atm@' + CL],
     'runtime memory-ownership monitor: byte snapshots, read-only buffers, aliasing tests, overwritten results',
     'All public numerical operations visited; values sampled.')

prop('C12', 'Channels and angles are independent and correctly labelled',
     'In a run with several frequencies and angles each row equals the row of a run with that frequency and angle alone, in any order and with duplicates, '
     'including frequency-dependent emissivity. Rows are ordered angle by angle, then frequency by frequency, carry their own angle, and the short '
     'output is the full output\'s temperature part.',
     ['inputs', 'configurations'], 'every set of frequencies, angles and emissivities',
     'Tests use one angle and do not permute channels.', [T, R], ['TbCloudRTE.execute@' + T, 'TbCloudRTE._init_results@' + T],
     'metamorphic runtime monitor: batch versus single-channel executions', 'Tolerance 1e-12.')

prop('C13', 'Order of levels and altitude reference of a profile do not matter',
     'A profile listed downwards gives the results of the same profile listed upwards, clouds and ozone included, and shifting the station altitude '
     'does not change a plane-parallel result. Heights that are not strictly monotonic (repeated, reversed or missing) are refused before '
     'any number is produced.',
     ['inputs'], 'every profile, cloud and ozone x orientation x altitude offset x position of a defect',
     'Tests use ascending profiles; malformed heights are not tested.', [T], ['TbCloudRTE.__init__@' + T, 'TbCloudRTE.init_cloudy@' + T],
     'metamorphic runtime monitor plus rejection oracle', 'Tolerance 1e-12; all positions of a defect sampled.')

prop('C14', 'Clouds act only where they are',
     'Cloud water and ice absorb only between the base and the top of a declared cloud layer and contribute the columns their densities integrate to, for any number of '
     'layers, liquid or ice, and both viewing directions. A cloud without water changes nothing, clouds given to a clear-sky run are ignored, more '
     'liquid never lowers an opacity, and the reported cloud temperature is that of the lowest cloud.',
     ['inputs', 'configurations'], 'every number, position and content of clouds',
     PIN + 'with one or two fixed clouds; edges and empty or overlapping layers are not reached.', [R, T],
     ['RTEquation.cloud_integrated_density@' + R, 'RTEquation.cloud_radiating_temperature@' + R, 'RTEquation.cloudy_absorption@' + R],
     'runtime monitor: reference simulation and metamorphic cloud laws', 'Sampled clouds; tolerance 1e-9.')

prop('C15', 'Humidity conversions are mutually consistent',
     'Converting between mixing ratio, vapour pressure, vapour density, relative humidity and dew point and back returns the original value, different routes '
     'between two quantities agree, and saturation pressure is the published one over water or, below the chosen temperature, over ice. Volume '
     'mixing ratios convert with the molecular mass of the gas that the identifier denotes.',
     ['inputs'], 'every pressure, temperature and humidity, scalars and arrays, every gas identifier',
     'Tests evaluate each conversion at one point.', [U, R], ['mr2rh@' + U, 'satvap@' + U, 'rho2mr@' + U, 'gas_mass@' + U, 'RTEquation.vapor@' + R],
     'runtime monitor: inverse pairs and independent formulas', 'Known deviations listed in known_findings.txt.')

prop('C16', 'Pressure, height, density and temperature conversions are physical',
     'Height and pressure conversions are inverse to each other and follow the standard atmosphere, layer thickness is hypsometric and additive, and virtual '
     'temperature and number density obey the ideal gas law. The table of constants gives the published values with their units.',
     ['inputs'], 'every pressure, temperature, humidity and height', 'Tests evaluate each conversion at one point.', [U],
     ['pressure_to_height@' + U, 'atmospheric_tickness@' + U, 'virtual_temperature@' + U, 'ppmv_to_moleculesm3@' + U, 'constants@' + U],
     'runtime monitor: inverse pairs, additivity and independent formulas', 'Known deviations listed in known_findings.txt.')

prop('C17', 'Profile extrapolation keeps the measurement and appends the right atmosphere',
     'Extending a measured profile returns the measured levels unchanged, followed by levels strictly above them up to 100 km (or on the user\'s grid) whose '
     'temperature, pressure and humidity are those of the reference atmosphere of the given latitude and season at those heights. The season follows '
     'from month and hemisphere, repeated calls give the same answer, and the result is a valid profile with fractional humidity.',
     ['inputs', 'histories'], 'every measured profile and top height x latitude x month x grid',
     'Tests extend one profile at one latitude.', [CE], ['ProfileExtrapolation.profile_extrapolation@' + CE, 'ProfileExtrapolation._get_season@' + CE],
     'runtime monitor: bitwise preservation plus independent reference-atmosphere oracle', 'Sampled profiles, latitudes, all months.')

prop('C18', 'Reference atmospheres are those of Recommendation ITU-R P.835-6',
     'At every height between 0 and 100 km, for low, middle and high latitudes of both hemispheres, summer and winter, temperature, pressure and water vapour '
     'density are those of Recommendation ITU-R P.835-6, and so are those of the mean annual global reference atmosphere. Pressure falls '
     'strictly with height, order and repetition of heights do not matter, and an unknown season is refused.',
     ['inputs', 'configurations'], 'every latitude x season x height', 'Tests compare a handful of heights for one latitude.', [CE],
     ['_ITU835_6@' + CE, 'ProfileExtrapolation.temperature@' + CE], 'differential runtime monitor against independent segment tables',
     'All segments and both sides of each boundary visited each run.')

prop('C19', 'The built-in climatology is the published one, gas by gas',
     'Each of the six reference atmospheres returns its published heights, pressures, densities, temperatures and main gas mixing ratios, and every minor or '
     'trace gas identifier returns the published profile of that gas. The answers do not depend on earlier requests, the working directory or what the '
     'caller does with earlier answers, and identifiers outside the tables are refused.',
     ['inputs', 'histories'], 'every atmosphere and gas identifier x request sequences', 'Tests use two atmospheres and few gases.',
     [CL, 'pyrtlib/climatology'], ['AtmosphericProfiles.gl_atm@' + CL, 'gl_atm_minor@' + CL, 'gl_atm_trace@' + CL],
     'runtime monitor against pinned tables and physical consistency', 'Exhaustive over atmospheres and gases in each run; sequences sampled.')

prop('C20', 'Weighting functions are transmittance times absorption, channel by channel',
     'For every profile, step, channel, angle and viewing direction, the weighting function at a level is the total absorption there times the transmittance between '
     'the level and the observer, so that it is never negative and its integral over the path is one minus the total transmittance. Plots show '
     'each channel\'s own curve, label, band average and peak.',
     ['inputs', 'configurations'], 'every profile x vertical step x set of channels x band pass x angle x direction',
     'Tests compare stored numbers of one profile at two channels and only check that plotting runs.', [W],
     ['WeightingFunctions.generate_wf@' + W, 'WeightingFunctions._perform_calculation@' + W, 'WeightingFunctions._mean_channel@' + W, 'plot_wf@' + W],
     'differential runtime monitor plus captured plot artists', 'Reference model on the resampled grid; tolerance 1e-8.')

prop('C21', 'User spectroscopic parameters are exactly what the simulation uses',
     'A simulation with user-supplied spectroscopic parameters uses exactly these values, for every parameter, line and model, and equals the published model when '
     'they are left at their published values. Parameter sets state the published values of the named model, and after such a run the published '
     'values are in force again.',
     ['inputs', 'configurations', 'histories'], 'every parameter x line x model x perturbation',
     'Tests perturb one parameter of one model.', [UN, A, L, T], ['SpectroscopicParameter.water_parameters@' + UN, 'h2o_absorption(amu)@' + A,
                                                              'TbCloudRTE.set_amu@' + T], 'differential runtime monitor on perturbed line lists',
     'All parameters and models visited; known no-effect parameters listed in known_findings.txt.')

prop('C22', 'Uncertainty tools propagate and perturb exactly what was asked',
     'The propagated standard deviation of sums, differences, products, ratios, powers and scalings is the first-order error propagation of the given '
     'values, standard deviations and covariance, and is never negative. A perturbation request changes only the named parameters (all when none is named), only '
     'at the given line, by plus or minus their stated uncertainty, leaves the stored set untouched, and refuses unknown operations, parameters and modes; '
     'the covariance matrices shipped with the package are the published ones, symmetric, and of the documented sizes.',
     ['inputs', 'configurations', 'histories'], 'every operation, value, parameter, index, mode',
     'Tests evaluate each operation once and perturb one parameter.', [UN, COV], ['AbsModUncertainty.uncertainty_propagation@' + UN,
                                                                            'AbsModUncertainty.parameters_perturbation@' + UN, 'R17_111@' + COV],
     'runtime monitor: numerical-derivative propagation oracle, field-by-field difference of perturbed sets', 'Sampled values; all parameters visited.')

prop('C23', 'IGRA2 radiosonde archives are read value by value',
     'For every well-formed IGRA2 archive file, raw or derived, the sounding returned for a date (or the soundings of a date range) contains exactly the levels of '
     'that date with the values, units and quality handling of the documented format (levels carrying none of the measured quantities are left out), and the '
     'header table describes the same soundings. Missing values become missing, never numbers, and a date without sounding is refused.',
     ['inputs'], 'every archive content x station x date or range x raw/derived', 'The tests need the network and look at one station and date.',
     [API + 'igra2.py'], ['IGRAUpperAir._get_data_raw@' + API + 'igra2.py', '_select_date_range@' + API + 'igra2.py', '_get_fwf_params@' + API + 'igra2.py',
                          '_clean_body_df@' + API + 'igra2.py'], 'runtime monitor: generated archives served by a stub server, field-by-field oracle',
     'Real parser on generated files; the transport is a stub (no network).')

prop('C24', 'Wyoming soundings are read value by value',
     'For every well-formed page of the Wyoming sounding service, the returned table contains exactly the levels of the page that carry temperature and dew point, '
     'with each value in its own column (blank fields missing), and the station metadata of that page. Pages without data are refused, '
     'the request names the asked station and time, and the list of stations of a region is returned row by row.',
     ['inputs'], 'every page content x station x time x region', 'The tests need the network and look at one station and date.',
     [API + 'wyomingupperair.py'], ['WyomingUpperAir._get_data@' + API + 'wyomingupperair.py', 'get_stations@' + API + 'wyomingupperair.py'],
     'runtime monitor: generated pages served by a stub server, field-by-field oracle', 'Real parser on generated pages; the transport is a stub.')

prop('C25', 'ERA5 files are read at the right place with the right units',
     'Reading an ERA5 pressure-level file returns, for the requested longitude and latitude, the profile of the nearest grid point with all variables from that same '
     'point, ordered from the surface upwards, pressure, height and humidity in the documented units and the time of the file. Requests name the '
     'asked place, time, levels and variables.',
     ['inputs', 'configurations'], 'every grid, position, level set and time', 'Tests read one file at one diagonal grid point.', [API + 'erafive.py'],
     ['ERA5Reanalysis.read_data@' + API + 'erafive.py', 'ERA5Reanalysis._find_nearest@' + API + 'erafive.py', 'request_data@' + API + 'erafive.py'],
     'runtime monitor: generated netCDF files with unique values per cell', 'Off-diagonal nearest points are a known finding (pinned by the tests).')

prop('C26', 'Web requests fail loudly and return only what was delivered for them',
     'Whatever the server answers (errors, truncated, empty or foreign content, dropped connection), a data request either returns exactly the complete data the '
     'server delivered for that request or raises an error; it never returns an earlier request\'s, an incomplete or invented answer. Requests go to the documented address with '
     'the parameters asked for, and a failed request leaves later requests unaffected.',
     ['fault_sequences', 'inputs', 'histories'], 'every sequence of server answers and faults', 'The tests need the network and assume a correct answer.',
     [API + 'webservices.py', API + 'igra2.py', API + 'wyomingupperair.py'], ['HTTPEndPoint._get@' + API + 'webservices.py', 'HTTPEndPoint._get_path@' + API + 'webservices.py'],
     'runtime monitor with a fault-injecting local server and session stub', 'Faults injected at the transport; sampled sequences.')

prop('C27', 'Instrument channel lists are the published ones',
     'For every supported ground-based and satellite instrument, written in any case, the channel list is the published one in channel order, sidebands lie '
     'symmetrically about their channel centre, and an unknown instrument is refused. Each call returns a fresh list.',
     ['configurations', 'inputs'], 'every instrument name', 'Tests look at one or two instruments.', [U], ['get_frequencies@' + U, 'get_frequencies_sat@' + U],
     'runtime monitor against pinned channel tables and sideband symmetry', 'Exhaustive over instruments.')

prop('C28', 'Every valid input gives finite, meaningful numbers',
     'For every physically possible profile, however dry, cold, high, fine or coarse, and every frequency from 1 to 1000 GHz, all reported brightness '
     'temperatures, opacities and columns are finite, opacities of vapour and clouds are not negative, and results change continuously with the inputs. No '
     'invalid floating-point operation reaches a result.',
     ['inputs', 'configurations'], 'every physically possible profile x frequency x angle x model',
     'Tests use smooth textbook profiles.', [T, R, A, U], ['TbCloudRTE.execute@' + T, 'RTEquation.exponential_integration@' + R, 'tk2b_mod@' + U],
     'floating-point sanitizer (trapped invalid/divide/overflow) plus continuity monitor over stress inputs', 'Sampled stress inputs.')

CMD = './run.sh %s'


def main():
    have = [p for p in P if os.path.exists(os.path.join(ROOT, 'checks', p[0]['id'] + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for d, _, _ in P:
            assert len(d['title']) <= 80 and d['statement'].count('. ') <= 2, d['id']
            fh.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, pandas, scipy, netCDF4, matplotlib'",
             checks=[dict(property=d['id'], quick_cmd=CMD % d['id'], thorough_cmd=CMD % d['id'] + ' --tier thorough', technique=t,
                          level='exploration', level_note=n) for d, t, n in have],
             not_applicable=[dict(property=d['id'], reason='check not built yet') for d, _, _ in P if (d['id'] not in [h[0]['id'] for h in have])],
             notes='No hooks in /repo: monitors observe public results. Known and fixed defects: known_findings.txt; design: DESIGN.md.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
