import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
SIM='simcats/_simulation.py'; G='simcats/ideal_csd/geometric/'; SS='simcats/sensor/_sensor_scan_sensor_generic.py'
D='simcats/distortions/'; SF='simcats/support_functions/'; CS='simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py'
I=['inputs','configurations']; H=['inputs','configurations','histories']
p('P01','Requests outside limits or malformed are rejected, others accepted',
 "A measurement (plunger scan or sensor scan) is performed exactly if every gate voltage it uses lies within the configured limits (inclusive), both ranges have two entries, the resolution has one or two entries, a two-dimensional scan has more than one pixel and a non-fixed range per axis, sensor/plunger voltages are given both or not at all, and the needed components are configured. Every other request is rejected with ValueError before any component is run, and leaves the simulation unchanged.",
 I,"all limits (incl. None, touching bounds), sweep directions, resolutions and formats, optional voltages, both measurement kinds",
 "The tests try a handful of bad requests against one limit configuration; combinations of limits, directions, touching bounds and rejected-request side effects are not reached.",
 [SIM],[('limit and format checks','Simulation.measure / Simulation.measure_sensor_scan')],['exception type of measure/measure_sensor_scan','probe components recording calls'])
p('P02','Every valid scan completes with well-formed, finite results',
 "For every valid configuration and request, a plunger scan returns finite signal, occupations and labels of shape (res_g2, res_g1) resp. (n,), with occupations carrying two values per pixel, and a sensor scan returns a finite signal and two integer label masks of the scan's shape. This holds for 1D and 2D scans, every documented resolution format, every sweep direction, every sensor type and every combination of the provided distortions.",
 I,"configurations x resolutions (int, array, list, tuple) x sweep directions x fixed gates x sensors x distortion stacks",
 "Tests run a few fixed configurations, mostly 100x100 ascending scans; combinations (1D + distortion + descending, missing sensor voltages, tiny scans) are unexplored.",
 [SIM,G+'_ideal_csd_geometric.py',SS,D+'_dot_jumps.py',D+'_random_telegraph_noise.py'],[('measurement pipeline','Simulation.measure, Simulation.measure_sensor_scan')],['return values of both measurement functions'])
p('P03','Reversing a sweep direction mirrors the noise-free scan',
 "Without randomness, reversing the sweep direction of one or both gates yields exactly the mirrored signal, occupations and labels (2D: per axis; 1D: both ranges reversed). This includes deterministic distortions acting on the occupations and sensor scans.",
 I,"random configurations, windows, resolutions, all four direction combinations, 1D lines of any slope, sensor scans",
 "The direction tests compare a single window of the default configuration.",
 [SIM,G+'_ideal_csd_geometric.py',SS,D+'_dot_jumps.py'],[('sorting of limits and rearranging','ideal_csd_geometric'),('voltages by linspace','sensor_potential')],['results of measure/measure_sensor_scan/get_csd_data'])
p('P04','Occupations follow the charge-transition geometry',
 "At every pixel the two occupations are non-negative and their sum is the number of consecutive total charge transitions lying below that voltage point; the split between the dots follows the configured cumulative distribution across the interdot transitions of that charge region. A scan that reaches above the last defined transition raises IndexError instead of returning occupations.",
 I,"random transition geometries, rotations, distribution types and gamma factors, look-up-table settings, windows, 1D and 2D",
 "Tests compare one stored CSD of one parameter set.",
 [G+'_get_electron_occupation.py',G+'_calculate_all_bezier_anchors.py',G+'_initialize_tct_functions.py',SF+'_cumulative_distribution_functions.py'],[('region labelling and cdf evaluation','get_electron_occupation'),('anchors','calculate_all_bezier_anchors')],['IdealCSDGeometric.get_csd_data occupations'])
p('P05','Lead transition labels mark exactly the charge transitions',
 "In a 2D scan every label k>0 marks a pixel through (or directly next to) which the k-th total charge transition passes, every such transition inside the window is labelled without gaps, and unlabelled pixels are not crossed by one. In a 1D scan, between two neighbouring pixels of different total occupation exactly the pixel with the larger total is labelled with that total, and no other pixel is labelled.",
 I,"random geometries, windows, resolutions, look-up-table settings",
 "Tests compare one stored mask; no test relates labels and occupations.",
 [G+'_generate_lead_transition_mask.py',G+'_ideal_csd_geometric.py'],[('discretised sampling of the transition','generate_lead_transition_mask_2d'),('total occupation steps','generate_lead_transition_mask_1d')],['IdealCSDGeometric.get_csd_data labels'])
p('P06','A voltage point has one result, whatever window contains it',
 "The noise-free occupation and signal of a voltage point depend only on the voltages: 1D scans along a row or column of a 2D scan, sub-windows, and scans of different resolution agree at shared voltage points (up to pixels touched by a transition). A scan passed through the simulation without distortions shows the ideal data of the configured charge diagram.",
 I,"random windows, sub-windows, resolutions, cut lines, configurations and sensors",
 "Tests never compare two different scans of the same configuration.",
 [G+'_get_electron_occupation.py',G+'_ideal_csd_geometric.py',SIM,'simcats/sensor/_sensor_generic.py'],[('linspace voltage axes','get_electron_occupation / sensor_potential')],['pairs of measure results'])
p('P07','The total charge transition curve is evaluated as defined',
 "For valid parameters the evaluated transition passes through its anchors, is linear with the given slopes outside of and between the curved parts, follows the quadratic Bezier curve defined by the three anchors at maxima (and its 180 degree rotation at minima), has exactly the requested number of maxima, and is continuous. Look-up-table evaluation deviates from the exact curve by no more than the table spacing, evaluation is pointwise (order, shape and other points do not matter), inputs are not modified, and parameters that do not describe a function are rejected.",
 ['inputs'],"random valid and invalid transition parameters, evaluation points, look-up-table sizes, numbers of maxima",
 "Tests compare against three stored arrays of one parameter set.",
 [G+'_tct_bezier.py',G+'_initialize_tct_functions.py',G+'_calculate_all_bezier_anchors.py'],[('piecewise evaluation','tct_bezier')],['return values of tct_bezier and calculate_all_bezier_anchors'])
p('P08','Sensor potential and Coulomb-peak response follow their formulas',
 "The generic sensor's potential of a pixel equals offset + alpha_dot . occupation + alpha_gate . gate voltages of that pixel, and its response is the sum of its peaks' line shapes (Gaussian/Lorentzian with the given position, width, height and offset), or the potential itself if no peaks are configured. Evaluation is elementwise, leaves inputs untouched and does not depend on the order of the peaks.",
 I,"random lever arms, peaks, occupations, voltage ranges, 1D/2D, swept and fixed gates",
 "Tests compare one stored signal.",
 ['simcats/sensor/_sensor_generic.py','simcats/sensor/_sensor_peak_gaussian.py','simcats/sensor/_sensor_peak_lorentzian.py'],[('potential and response','SensorGeneric.sensor_potential / sensor_response')],['return values of the sensor methods','csd returned by Simulation.measure'])
p('P09','Measurement stages are composed in the documented order',
 "A plunger scan applies, in this order and each exactly once per listed element: ideal data, occupation distortions in list order, sensor potential, potential distortions in list order (each potential separately for multi-potential sensors), sensor response, response distortions in list order. Every stage receives the previous stage's output and the requested sweep ranges and sensor voltages, and the returned occupations, labels and signal are the final outputs of their stages.",
 I,"user-defined components of all three kinds in random numbers and orders, 1D/2D, all sensor kinds",
 "Tests check final arrays for the built-in default stack only.",
 [SIM],[('stage loop','Simulation.measure')],['call trace of probe components','return values'])
p('P10','Sensor scan stages are composed in the documented order',
 "A sensor scan uses the constant occupation of the given plunger voltages (zero without plunger voltages or without an ideal diagram) for all pixels, computes labels from the undistorted potentials, applies potential distortions in list order to each of the three potentials, then the sensor response, then response distortions in list order. Distortions receive the sensor gates' sweep ranges, and occupation distortions are not applied.",
 I,"probe distortions, plunger voltages, resolutions, sensors",
 "Tests only run undistorted sensor scans of one configuration.",
 [SIM],[('stage loop','Simulation.measure_sensor_scan')],['call trace of probe components','return values'])
p('P11','Metadata is a faithful snapshot of the measurement',
 "The returned metadata contains the request (ranges, voltages, resolution as supplied) and copies of the limits and of all components as they were for this measurement. Later changes of the simulation, of the arguments or of the metadata never affect each other, and a simulation rebuilt from the metadata reproduces the same noise-free scan.",
 H,"random configurations and measurement sequences with reconfiguration in between",
 "Tests never look at metadata after changing the simulation.",
 [SIM],[('deepcopy of request and configuration','Simulation.measure / measure_sensor_scan metadata')],['metadata dictionaries'])
p('P12','A simulation is isolated from objects supplied to it and returned by it',
 "Changing objects after they were supplied (components, lists, arrays) does not change the simulation, and neither measuring nor configuring modifies any supplied argument. Changing returned arrays does not influence later measurements.",
 H,"random configurations, aliasing of arguments, mutation after use, both measurement kinds",
 "Tests use fresh fixtures and never mutate arguments.",
 [SIM,SS,'simcats/sensor/_sensor_generic.py'],[('deepcopy in setters','Simulation property setters')],['arguments before/after','repeat measurements'])
p('P13','Noise-free measurements do not depend on history',
 "Without random components, the result of a measurement depends only on configuration and request: repeating it, interleaving other plunger or sensor scans, rejected requests, or replacing a component and putting it back give identical results, and configuring through the constructor equals configuring through the setters.",
 H,"random interleavings of plunger scans, sensor scans, rejected requests, reconfigurations",
 "Each test performs one measurement on a fresh object.",
 [SIM,SS],[('per-measurement state of the scan sensor','SensorScanSensorGeneric._volt_limits_*, _occupations')],['results of repeated measurements'])
p('P14','Seeded randomness is reproducible and confined to the given generator',
 "If all random components are given seeded generators, the same sequence of measurements from equal seeds yields identical results, independent of the global numpy/python random state and of other simulations; different seeds yield different noise. A component draws only from the generator it was given.",
 H,"seeds, distortion stacks, samplers, global generator states, interleaved foreign draws",
 "Only the config sampler is tested for repeatability.",
 [D+'_dot_jumps.py',D+'_random_telegraph_noise.py',D+'_pink_noise.py',D+'_white_noise.py',SF+'_parameter_sampling.py'],[('rng argument','all random components')],['results under equal/different seeds'])
p('P15','Activation ratio and reported latest parameters are truthful',
 "A distortion with ratio r is applied in a fraction r of the measurements, decided anew for each measurement (and each distorted potential); `activated` tells whether the last one was distorted and a deactivated distortion leaves the data untouched. Reported latest parameter values are the ones used in the last measurement.",
 ['inputs','histories'],"ratios in [0,1], sequences of calls, all distortions with a ratio or a sampled parameter",
 "One test checks the ratio on average for two classes.",
 [D+'_dot_jumps.py',D+'_random_telegraph_noise.py',D+'_pink_noise.py',D+'_white_noise.py',D+'_transition_blurring.py'],[('binomial activation','noise_function of each distortion')],['activated / latest_sigma / outputs'])
p('P16','Random telegraph noise is piecewise constant bursts in scan order',
 "Active random telegraph noise adds, along the flattened scan, alternating segments of no offset and of one constant normally distributed offset (mean height, deviation std), beginning without offset; segment lengths are geometrically distributed with the mean given by the scale in volts converted to pixels. The input is not modified and scale 0 disables it.",
 ['inputs','histories'],"scales, heights, stds, shapes, sweep ranges, seeds",
 "Tests check that the class runs and the activation ratio.",
 [D+'_random_telegraph_noise.py'],[('burst generation','random_telegraph_noise')],['difference of output and input'])
p('P17','White and pink noise are additive with the given strength and spectrum',
 "White noise adds independent zero-mean normal values with the given deviation to every pixel; pink noise adds a zero-mean signal with the given deviation and a 1/f power spectrum (flat below fmin) along the flattened scan. Neither depends on the data nor modifies its input, and zero strength adds nothing.",
 ['inputs','histories'],"strengths, shapes, fmin, seeds",
 "No test looks at noise statistics.",
 [D+'_white_noise.py',D+'_pink_noise.py'],[('noise generation','white_gaussian_noise / pink_gaussian_noise')],['difference of output and input'])
p('P18','Dot jumps shift blocks of the diagram towards higher voltages',
 "Dot jumps act on occupations and labels consistently: along the configured axis, alternating blocks of pixels show the undistorted diagram as it is at voltages lower by a non-negative whole number of pixel pitches (beginning with an unshifted block; the data entering from outside of the window is the true diagram there), all rows/columns share the same shifts, and 1D scans shift only the swept coordinate of that axis. No pixel shows data that is not in the diagram.",
 ['inputs','histories'],"diagrams, axes, sweep directions, 1D/2D, scales and jump sizes, seeds",
 "Tests only check the activation ratio and that distorted scans run.",
 [D+'_dot_jumps.py'],[('block shifts','OccupationDotJumps.noise_function, dot_jumps_blockwise, generate_dot_jumps_blockwise')],['occupations/labels before and after'])
p('P19','Transition blurring smooths each dot along the sweep and nothing else',
 "Blurring replaces each occupation by a weighted average (Gaussian resp. Fermi-Dirac kernel of the given width in volts) along gate 1 in 2D scans and along the line in 1D scans: constants stay constant, values stay within the original range, rows stay independent, each dot is treated alone, and labels are unchanged. Width 0 changes nothing.",
 ['inputs'],"widths, occupations, shapes, sweep ranges and directions, both kernels",
 "Tests do not check blurring output.",
 [D+'_transition_blurring.py',SF+'_fermi_filter1d.py'],[('1D filter along gate 1','OccupationTransitionBlurring*.noise_function')],['occupations before and after'])
p('P20','Distortion lengths given in volts scale with the pixel pitch',
 "Lengths configured in volts (blur width, telegraph burst length, jump block length and jump size) have the same extent in volts for every resolution and sweep range, for non-square scans, both axes, and 1D scans of either gate; lengths below one pixel act as one pixel. Statistics measured in volts therefore agree between resolutions.",
 I,"pairs of resolutions and ranges, axes, 1D/2D, all distortions with voltage scales",
 "All distortion tests use one square resolution.",
 [D+'_transition_blurring.py',D+'_random_telegraph_noise.py',D+'_dot_jumps.py'],[('scaling by resolution/range','noise_function of the distortions')],['extent of distortions in pixels'])
p('P21','Chained occupation distortions are replayed consistently',
 "While a distortion regenerates parts of the diagram, every earlier occupation distortion of the list is applied to the regenerated part with the same sampled parameters and activation as in the main scan, and replaying consumes no randomness and changes no reported state. Distortions later in the list are not involved.",
 H,"chains of built-in and user-defined occupation distortions, sampled parameters, ratios, seeds",
 "Only the default chain is run; nothing is asserted about regenerated data.",
 [SIM,D+'_dot_jumps.py',D+'_transition_blurring.py'],[('frozen replay','Simulation.measure generate_csd chain, freeze argument')],['calls of probe distortions with freeze','generator states'])
p('P22','Scan sensor potentials and series conductance follow their formulas',
 "For every pixel the scan sensor's dot and barrier potentials equal offset + lever arms times occupation, plunger and sensor gate voltages of that pixel, and the signal is the series conductance of dot and both barriers, where the dot conductance is the sum of its peaks or the final rise (located at the fully conductive point of both barriers for that occupation and plunger voltage) if larger. The conductance never exceeds any of its three parts and vanishes if one vanishes.",
 I,"random lever arms, offsets, barrier functions, peaks, rises, voltages, 1D/2D sensor and plunger scans",
 "Tests compare one stored scan.",
 [SS,'simcats/sensor/_sensor_rise_glf.py','simcats/sensor/barrier_function/_barrier_function_glf.py'],[('potentials, response, fully conductive point','SensorScanSensorGeneric')],['sensor_potential, sensor_response, measure_sensor_scan'])
p('P23','Sensor scan labels describe the scanned regimes',
 "The regime label of a pixel is 0 unless both barrier potentials exceed their pinch-off, else 2 where the dot potential exceeds that of the fully conductive point, else 1. Peak labels are only set in regime 1, per row at most one pixel per peak, carry the 1-based number of the peak in the configured list, and lie at the pixel whose potential is closest to the peak position.",
 I,"sensors with unsorted peaks, deformations, plunger voltages, windows, directions, 1D/2D",
 "Tests compare one stored label pair.",
 [SS],[('label generation','SensorScanSensorGeneric.get_sensor_scan_labels')],['label masks of measure_sensor_scan'])
p('P24','Barrier and rise functions are consistent with their inverses',
 "Barrier functions and the final rise are monotonic between their asymptotes, pinch-off and fully-conductive potentials are those where the configured fraction of the range is reached, and evaluating the function there returns that fraction. The generalised logistic function and its inverse undo each other, multi-component barriers are the sum of their components, and the rise is placed so that its fully conductive potential coincides with the requested offset.",
 ['inputs'],"random valid parameters and potentials",
 "Tests use one barrier parameter set.",
 ['simcats/sensor/barrier_function/_barrier_function_glf.py','simcats/sensor/barrier_function/_barrier_function_multi_glf.py','simcats/sensor/_sensor_rise_glf.py',SF+'_generalized_logistic_function.py'],[('glf and inverse','glf / inverse_glf')],['return values'])
p('P25','Peak deformations bend exactly the configured peaks',
 "A deformation shifts the position of the peak it is configured for, as a function of the pixel's distance to the line through the barriers' pinch-off point perpendicular to the wavefronts (linear by angle; circular with given radius, flat outside), in signal and labels alike, and no other peak; the configured peaks stay unchanged by measuring. A vanishing deformation leaves the scan as without deformation.",
 I,"sensors, deformations of random peaks, windows, resolutions, directions",
 "Tests compare two stored scans (one per deformation type).",
 ['simcats/sensor/deformation/_sensor_peak_deformation_circle.py','simcats/sensor/deformation/_sensor_peak_deformation_linear.py',SS],[('calc_mu','SensorPeakDeformation*'),('per-pixel peaks','SensorScanSensorGeneric._peak_func')],['calc_mu','sensor_response and labels'])
p('P26','Parameter samplers respect range, distribution and last sample',
 "Every sample lies in the total range, and in one fixed sub-range of the requested width if a sampling range is given; samples follow the configured truncated distribution; the last sample is the value returned last. Oversized sampling ranges fall back to the total range with a warning.",
 ['inputs','histories'],"all four samplers, ranges (descending for exponential), parameters, seeds",
 "Their tests are not part of the reliable set and sample one configuration each.",
 [SF+'_parameter_sampling.py'],[('rejection sampling','*SamplingRange.sample_parameter')],['sample sequences'])
p('P27','Randomly sampled configurations are valid and within documented bounds',
 "Every configuration sampled by the config sampler can be measured over its voltage limits, has transition parameters within the sampled ranges describing ordered, non-crossing transitions, reaches the requested numbers of electrons, and applies the noise settings and quality multiplier it was given.",
 ['inputs','configurations'],"seeds, sampler options",
 "Tests sample a few configurations and check only that they can be created.",
 [CS],[('random parameter generation','RandomVariationsConfigSampler')],['sampled configurations and their scans'])
p('P28','Default configurations simulate plausible scans over their limits',
 "Each shipped default configuration can be measured anywhere within its voltage limits in 1D and 2D (and sensor-scanned if supported) without error, shows its transitions with the number of electrons not decreasing with the gate voltages in the ideal data, and is not altered by use.",
 I,"windows, resolutions, directions within limits of each default configuration",
 "Tests measure a few windows of the defaults.",
 ['simcats/_default_configs.py'],[('default_configs','simcats.default_configs')],['scans of default configurations'])
p('P29','Geometry helpers obey their algebraic identities',
 "Rotation by an angle and back is the identity and preserves distances; signed point-line distances have the right magnitude and side; intersections lie on both objects and none is missed; point-below-line is consistent with evaluation; pixel-to-voltage conversion is linear and hits both limits. Degenerate inputs are rejected as documented.",
 ['inputs'],"random points, lines, circles, angles",
 "The helpers are hardly tested directly.",
 [SF+'_linear_algebra.py',SF+'_rotate_points.py',SF+'_signed_dist_points_line.py',SF+'_pixel_volt_transformation.py'],[('helpers','simcats.support_functions')],['return values'])
p('P30','Plots show the data at the right voltages',
 "Plotting a scan draws every pixel at the voltage it was measured at, for all sweep directions, 1D and 2D, with tick labels matching the axes, without modifying its inputs, and writes exactly the requested file if asked to.",
 I,"directions, shapes, sort option, tick numbers, labels",
 "Plotting is not tested.",
 [SF+'_plotting.py'],[('flipping and ticks','plot_csd')],['matplotlib artists'])
p('P31','Resetting the sensor offset places the sweep start at the target',
 "After resetting the sensor offset, the noise-free sensor potential at the starting point of the given sweep equals the requested target, whatever the offset was before; nothing else of the simulation changes, and repeating the reset changes nothing.",
 H,"configurations, sweeps, targets, previous offsets, sequences of resets",
 "Not tested.",
 [SF+'_reset_offset_mu_sens.py'],[('offset correction','reset_offset_mu_sens')],['sensor potential before and after'])
p('P32','Invalid component assignments are refused and change nothing',
 "Assigning an object that does not implement the required interface, or parameters of an invalid type or shape, to a simulation or sensor raises ValueError and keeps the previous setting, both in constructor-built and in modified objects. Every documented valid form is accepted and reads back as the documented normalised value.",
 H,"all settings of simulation and sensors, valid and invalid values, sequences of assignments",
 "Tests assign few invalid values and never check the state afterwards.",
 [SIM,'simcats/sensor/_sensor_generic.py',SS],[('property setters','Simulation, SensorGeneric, SensorScanSensorGeneric')],['exceptions and read back values'])
p('P33','The printed form of a deterministic component rebuilds it',
 "Evaluating the printed representation of an ideal diagram, peak, rise, barrier, deformation, sensor or simulation without random parts yields an equivalent object: same printed form, same scans.",
 ['inputs','configurations'],"random deterministic components and simulations",
 "Not tested.",
 ['simcats/_simulation.py','simcats/sensor/barrier_function/_barrier_function_multi_glf.py',G+'_ideal_csd_geometric_class.py'],[('__repr__','all components')],['repr and results of rebuilt objects'])
p('P34','Component settings act like constructor arguments; components are independent',
 "For every shipped component (peaks, rise, barriers, deformations, distortions, ideal diagram, sensors): a setting that is changed on an existing object reads back and has the same effect as passing it to the constructor, whatever was set or measured before; omitted arguments have the documented defaults; non-positive widths or asymmetries, parameter lists of wrong length and unknown distribution types are refused with ValueError and leave the object as it was; printing never fails and changes nothing; deep copies behave the same and are independent; sensors built from the same parts (or from defaults) do not influence each other, their parts or, once built, follow later changes of the supplied parts.",
 H,"all shipped component classes, random settings, orders of changes, omitted arguments, invalid values, shared parts",
 "Tests construct a few components once, with one set of arguments, and never change, copy or share them.",
 ['simcats/sensor/_sensor_peak_gaussian.py','simcats/sensor/_sensor_peak_lorentzian.py','simcats/sensor/_sensor_rise_glf.py','simcats/sensor/_sensor_generic.py',SS,'simcats/sensor/barrier_function/_barrier_function_glf.py','simcats/sensor/barrier_function/_barrier_function_multi_glf.py',D+'_dot_jumps.py',D+'_random_telegraph_noise.py',D+'_pink_noise.py',D+'_white_noise.py',D+'_transition_blurring.py',G+'_ideal_csd_geometric_class.py'],[('properties and constructors','all component classes')],['attributes and results of components'])
p('P35','Exported helper functions agree with the components and documentation',
 "The exported functions behind the components give what their documentation says for every input and for given as well as omitted (documented default) arguments, agree with the components built on them, accept every documented argument form, and leave their arguments unchanged: Fermi filter (all boundary modes, axes, radii), dot jumps (blocks shifted by the returned number of pixels; reapplying the returned jumps shifts another image in the same way), noise functions (noise independent of the data, linear in its strength), initialisation of the transition functions and anchors from lists or arrays, diagram stages (label mask, occupations), line shapes and cumulative distributions.",
 I,"random arguments, argument forms, omitted arguments, shapes and axes",
 "Tests call few of the functions, with one set of arguments.",
 [SF+'_fermi_filter1d.py',SF+'_cumulative_distribution_functions.py',D+'_dot_jumps.py',D+'_random_telegraph_noise.py',D+'_pink_noise.py',D+'_white_noise.py',G+'_initialize_tct_functions.py',G+'_calculate_all_bezier_anchors.py',G+'_get_electron_occupation.py',G+'_generate_lead_transition_mask.py',G+'_ideal_csd_geometric.py'],[('exported functions','__all__ of the packages')],['return values and arguments'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
