import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
SIM="simcats/_simulation.py"; DJ="simcats/distortions/_dot_jumps.py"; RTN="simcats/distortions/_random_telegraph_noise.py"
PK="simcats/distortions/_pink_noise.py"; WH="simcats/distortions/_white_noise.py"; BL="simcats/distortions/_transition_blurring.py"
PS="simcats/support_functions/_parameter_sampling.py"; SG="simcats/sensor/_sensor_generic.py"; SS="simcats/sensor/_sensor_scan_sensor_generic.py"
CS="simcats/config_samplers/_GaAs_v1_random_variations_v3_config_sampler.py"; DC="simcats/_default_configs.py"; RO="simcats/support_functions/_reset_offset_mu_sens.py"
IC="simcats/ideal_csd/geometric/_ideal_csd_geometric_class.py"; PL="simcats/support_functions/_plotting.py"

add("C01","Seeded sessions replay exactly",
 "When every generator used by a simulation's distortions and parameter samplers is supplied by the caller, all results of a session (signals, labels, activation flags and sampled parameters of every measurement) are a pure function of the configuration, the initial generator states and the sequence of calls. Repeating the session in another process or under another hash seed, after other simulations ran, or while the global `random`/`numpy.random` state, the library's default generators and the clock are disturbed at arbitrary points, gives bit-identical results.",
 ["histories","schedules","configurations"],"every session of CSD and sensor-scan measurements, 1D and 2D, over every distortion and sampler type, with foreign entropy disturbed at any point between or inside calls",
 "The tests run single measurements and never replay a session; the noisy ones do not compare values. One draw from a global or default generator in one branch (1D, reversed, activated) goes unnoticed.",
 [DJ,RTN,PK,WH,BL,PS,SIM],[("rng parameter/property of every distortion and sampler","simcats/distortions/*.py, _parameter_sampling.py"),("no use of global random state in measure paths",SIM)],["return values of Simulation.measure and Simulation.measure_sensor_scan","activated / latest_sigma / last_sample()"])

add("C02","Simulations built from the same objects are independent",
 "Simulations constructed from the same configuration objects behave as if each were alone: for any interleaving of their measurements, parameter changes (assignment or in-place through the public attributes) and retunings, also when the interleaving switches threads in the middle of calls, every result equals the one obtained without the others. Constructing and using simulations never changes the configuration objects passed in (including default_configs), and sensors constructed from the same arrays or from default arguments likewise never influence each other.",
 ["schedules","histories","configurations"],"all interleavings, at operation and at source-line granularity, of two or more sessions sharing configuration objects; all built-in components",
 "Every test builds one simulation and drops it; nothing interleaves two simulations or runs two threads.",
 [SIM,SG,SS,DC],[("deepcopy in the setters",SIM),("deepcopy in the component setters",SG)],["results of interleaved sessions against the same sessions run alone","public attributes of the passed-in objects"],
 [("frozen dot-jump noise, latest sigma, activation flag","state of a distortion between measurement and replay",DJ),("sensor voltage limits and occupations","state kept from potential to response calculation",SS)])

add("C03","An aborted measurement leaves no trace",
 "If a measurement is aborted at any point by an exception (interrupt, memory exhaustion, or an error raised by a component), that same exception reaches the caller, and all public parameters of the simulation and its components are as before the call. Every later measurement, given the same generator states, then returns exactly what it would have returned had the aborted call never been made.",
 ["crash_points","histories","fault_sequences"],"every abort point (any source line, call or random draw executed inside the library) of every measurement in any session, including repeated aborts",
 "No test raises anything inside a measurement; the abort points are thousands per call.",
 [SIM,SS,DJ,BL],[("temporary shift of the sensor peak position is undone",SS),("stateless recomputation of every stage per measurement",SIM)],["public attributes before/after","results of following measurements against an undisturbed twin"],
 [("peak position mu0","temporarily replaced while a deformed peak is evaluated",SS),("frozen noise and activation flag","kept on the distortion object",DJ)])

add("C04","Checkpoints resume the exact trajectory",
 "A simulation rebuilt from the metadata returned by a measurement, or a pickled or deep copy of the simulation taken at any point of a session (also after a failed call), continues bit-identically: all its further measurements equal those of the original. The metadata describes the measurement it was returned with: the parameters in effect and, for every distortion, the activation and sampled values that were used.",
 ["crash_points","histories","configurations"],"crash/restart at any point of any session with only pickled metadata or a pickled simulation surviving, including repeated restarts",
 "The eval tests only check that repr() round-trips; no test continues a random session from a checkpoint.",
 [SIM,DJ,RTN,PK,WH,BL,PS],[("metadata made of deep copies taken after the measurement",SIM),("all evolving state lives in the config objects, picklable",SIM)],["returned metadata","results of the restarted session"])

add("C05","Results and arguments are immutable snapshots",
 "Arrays and metadata returned by a measurement never change because of anything done afterwards with the simulation, and changing them, the arguments of a call, or any object once passed to the constructor of the simulation or assigned to an attribute of the simulation or its sensor never changes the simulation or its later results. Calls do not modify their arguments, and measuring never modifies data owned by the ideal-CSD provider.",
 ["histories","configurations"],"all sessions in which a caller mutates any previously returned or passed-in object at any point",
 "Tests look at one result right after one call and never mutate returned data.",
 [SIM,SG,SS,DJ,WH,RTN,PK],[("deep copies in metadata, setters and of the ideal CSD provider",SIM)],["results kept by the caller across the session","session results with and without caller-side mutation"])

add("C06","Labels are ground truth, free of measurement noise",
 "The occupations and lead transitions returned by a CSD measurement depend only on ideal CSD and occupation distortions, and the label masks returned by a sensor scan only on the ideal CSD and sensor: adding, removing or changing sensor-potential or sensor-response noise never changes them, whatever the noise's outcome. Without noise the signal is exactly the sensor's response to the returned occupations.",
 ["inputs","histories","configurations"],"all noise realisations (including extreme ones forced by the simulator), distortion stacks and sweeps, CSD and sensor scan",
 "Labels are compared for the noiseless default configuration only.",
 [SIM,SG,SS],[("separate arrays for occupations, potential and response",SIM)],["labels with and without the noise stages under identical generator states"])

add("C07","Distortions run once each, in order, on the right ranges",
 "In every measurement each configured distortion is applied exactly once to each signal of its stage, in list order, stage after stage (occupation, sensor potential, sensor response), each receiving the output of its predecessor and the ranges of the gates being swept in this measurement; occupation distortions are not applied to sensor scans. Data that an occupation distortion requests for voltages outside the measured range already contains exactly the frozen effect of the occupation distortions before it, and nothing else.",
 ["histories","configurations","inputs"],"all distortion stacks (any length, any mixture), both measurement kinds, 1D and 2D, one- and three-potential sensors, any number of out-of-range requests",
 "Tests use at most the fixed default stack and cannot see which input a stage received.",
 [SIM,"simcats/distortions/_distortion_interfaces.py"],[("loops over the three distortion lists",SIM),("generate_csd_with_noise replay chain",SIM)],["calls received by recording components","returned data against a reference pipeline"])

add("C08","Activation flags, ratios and frozen replay are truthful",
 "A distortion with an activation ratio is active in that fraction of measurements, independently each time; when its flag says inactive the data is bit-identical to a measurement without it, when it says active its noise was applied (for a sensor with several potentials the flag describes the latest of them), and ratio 0 or 1 means never or always. The sampled values it reports are those that were applied; a blurring width is in volts on the pixel density of the swept gate. Replaying an occupation distortion in frozen mode reuses the noise and sampled values of the latest real application, draws no new randomness, leaves the flags and samples unchanged and is repeatable.",
 ["inputs","histories","configurations"],"all random outcomes of activation and sampling, all histories of active, inactive and frozen applications, re-used objects and changed parameters",
 "The ratio tests count activations of an isolated object; none relates the flag to the data or checks the frozen mode.",
 [DJ,RTN,BL,SIM],[("binomial draw and activated flag",DJ),("freeze parameter",DJ),("latest_sigma",BL)],["activated property","data with/without the distortion","state of the generator before/after a frozen call"])

add("C09","Dot jumps displace the measured system rigidly",
 "In a measurement with active dot jumps every pixel shows, jointly for both occupations and the lead transition, the otherwise distorted system at voltages displaced towards lower voltage along the jump gate by a whole number of pixels; the displacement is the same for all pixels sharing a coordinate along that gate and piecewise constant in blocks where undisplaced and displaced blocks alternate from the low-voltage end. This holds for 1D and 2D, square and non-square sweeps in every direction, including displacements reaching outside the sweep; mean block length and mean displacement follow the configured scale and lam in volts.",
 ["inputs","histories","configurations"],"all jump patterns (block lengths and sizes), sweeps, axes and stacks of several jump distortions",
 "The tests assert only that something changed.",
 [DJ,SIM],[("generate_dot_jumps_blockwise / dot_jumps_blockwise",DJ),("out-of-range data through generate_csd",DJ)],["returned occupations of an ideal CSD that encodes its own voltages"])

add("C10","Noise follows its configured law in acquisition order",
 "White, pink and telegraph noise are purely additive and independent of the signal they are added to: the same generator state gives the same noise on any signal, and the input is left unchanged. Telegraph noise is piecewise constant in acquisition order (first gate fastest) with undisturbed and disturbed blocks alternating, its block length set in volts on the pixel density of the swept gates, heights following the given height and std; white and pink noise have the configured strength and spectrum along the acquisition order.",
 ["inputs","histories","configurations"],"all noise realisations, parameter values and sampled parameters, sweep shapes and directions",
 "Tests assert that the noisy and noiseless data differ.",
 [RTN,PK,WH],[("random_telegraph_noise",RTN),("pink_gaussian_noise",PK),("white_gaussian_noise",WH)],["output minus input of the noise stages in a measurement"])

add("C11","Valid measurements complete for every random outcome",
 "With a valid configuration (default, sampled, or built from documented parameter values) every valid request completes: a sweep inside the limits of one or both gates, in any direction, 1D or 2D with at least two pixels per swept gate, with or without sensor voltages, resolution given in any documented form, whatever the random draws turn out to be. It returns finite values of the requested shape, with labels of matching shape.",
 ["inputs","configurations","histories"],"all outcomes of the random draws (activation, block lengths, sizes, sampled parameters), including rare ones forced by the simulator, over all valid sweeps and resolutions",
 "Failures that need a rare activation (ratios of 1% and below) together with a particular sweep are not met by a few unseeded runs.",
 [SIM,DJ,RTN,BL,PK,SS],[("handling of fixed gates and of scales below one pixel",DJ),("resolution handling",SIM)],["exceptions, shapes and finiteness of results"])

add("C12","Parameter samplers stay in range and report truthfully",
 "Every value drawn from a parameter sampler lies in its total range; with a reduced sampling range all values of one sampler lie in one window of that width inside the total range, chosen at construction. last_sample() always reports the value returned by the latest successful draw (None before the first), also across copies, checkpoints and aborted draws, the sample depends on the given generator only and follows the documented (truncated) distribution, and distortions use a fresh sample in every measurement.",
 ["inputs","histories","crash_points"],"all generator outputs including extreme ones, all four samplers, ascending and (where supported) descending ranges, all histories of draws",
 "The existing sampling tests are unseeded, statistical and excluded as flaky; they never see an extreme draw.",
 [PS],[("rejection loops and sub-range construction",PS)],["sample_parameter(), last_sample()","generator draw log"])

add("C13","Sampled configurations are valid, in range and independent",
 "For every random stream the configuration sampler terminates with a complete configuration that can be measured over its whole voltage range, whose sampled quantities lie in the documented ranges. The quality multiplier given for the whole configuration proportionally restricts the strengths and activation probabilities of the sensor distortions, the sensor lever-arm ranges and the Coulomb peak heights, down to any value in (0, 1]; other multipliers and unknown sensor types are refused with ValueError. Neither sampling nor an aborted sampling changes default_configs or any previously sampled configuration.",
 ["inputs","histories","crash_points"],"all random streams, quality multipliers, sensor types and options; sequences of samplings with aborts",
 "The sampler has no tests at all.",
 [CS,DC],[("range constants and rejection loops",CS),("quality_multiplier parameters",CS)],["returned configuration","measurements made with it","default_configs"],None,
 None)

add("C14","Voltage limits always hold and rejected calls do nothing",
 "A measurement whose swept or fixed voltages leave the configured limits of any gate, or whose request is malformed (ranges without exactly two values, only one of two paired voltages, 2D resolution with a fixed gate or an entry below two, more than two resolutions), is rejected with ValueError before anything is computed or drawn, and everything inside the limits (bounds included, either direction) is accepted. A rejected request or a rejected parameter assignment leaves simulation, generators and later results exactly as if it had not been made; limits can be changed at any time and apply from the next call.",
 ["histories","inputs"],"all sequences of requests, limit changes and rejected requests or assignments, including values one float beyond a bound",
 "The tests try a handful of rejected requests on fresh objects and never look at what happens afterwards.",
 [SIM,SG,SS],[("validation at the start of measure and measure_sensor_scan",SIM),("validation before assignment in setters",SIM)],["exception type","draw log of the generators and calls to the ideal CSD during a rejected request","results afterwards"])

add("C15","Process-wide state is left alone",
 "Whatever is imported, measured, sampled or configured, in any interleaving of threads and with aborts at any point, process-wide state is unchanged afterwards: Python's warning filters and showwarning hook, numpy's error handling and print options, interpreter settings, the global `random` and `numpy.random` generators, the floating point environment and default_configs. Independent threads can therefore use independent simulations freely.",
 ["schedules","crash_points","histories"],"all thread interleavings at source-line granularity and all abort points",
 "Nothing in the tests inspects process state, uses threads or aborts a call.",
 [SS,SIM,DC,CS],[("suppression of floating point warnings during sensor calculations",SS)],["warnings.filters, numpy.geterr(), global generator states, default_configs"])

add("C16","Retuning the sensor offset reaches its target from any state",
 "After reset_offset_mu_sens the undistorted sensor potential at the start of the given sweep equals the requested target, from any previous state of the simulation (earlier retunings, adjustments, measurements or aborted calls) and for any sensor lever arms. It changes nothing but the offset, draws no randomness, repeating it changes nothing further (up to rounding), and an aborted retuning leaves the offset at its old or its new value.",
 ["histories","crash_points"],"all sessions mixing retuning, adjustment, measurement and aborts",
 "Not tested.",
 [RO,SG],[("offset arithmetic",RO)],["offset and measured potential of a sensor without peaks"])

add("C17","Plot export reports faults and never alters data",
 "plot_csd never modifies the arrays or options it is given, and if drawing or writing the file fails (full disk, unwritable path, interrupted write) the error reaches the caller. A later plot of the same data is the same image as if the failed call had not been made (unless it was drawn into a figure the caller had prepared), and a plot that returned normally has completely written its file.",
 ["fault_sequences","histories"],"all fault points of the file writes during export, 1D and 2D data in any sweep direction, sequences of plots",
 "plot_csd has no tests.",
 [PL],[("plt.savefig, plt.show",PL)],["input arrays, exceptions, bytes written"])

add("C18","Measurements have no memory",
 "Apart from the state of the random generators, a measurement depends only on the parameters in effect and the request: after any history of CSD measurements, sensor scans, label queries, rejected or failed calls and parameter changes, it equals the measurement of a freshly built simulation with the same parameters and generator states. A parameter change, by assignment or in place, takes effect from the very next measurement and in both kinds of measurement; in particular the scan signal equals the sensor's response at the requested gate voltages although labels are computed in between.",
 ["histories","configurations"],"all histories of mixed operations on one simulation or one sensor",
 "Each test uses a fresh object for one measurement; hidden state carried from call to call cannot show.",
 [SIM,SS,SG,IC],[("sensor keeps voltage limits and occupations between calls",SS),("no caching across calls",IC)],["results against a freshly built twin","sensor response against a direct calculation on a fresh sensor"],
 [("sensor voltage limits and occupations","overwritten by nested potential calculations",SS)])

# not applicable
add("C30","Ideal CSD is one function of the voltages",
 "The ideal CSD at a pixel depends only on that pixel's voltages: reversing a sweep mirrors the data, a 1D sweep equals the corresponding row or column of a 2D sweep, and refining the resolution keeps the values at common voltages.",
 ["inputs"],"all sweeps and resolutions","Only one mirrored default case is tested.",
 ["simcats/ideal_csd/geometric/_ideal_csd_geometric.py","simcats/ideal_csd/geometric/_get_electron_occupation.py"],[("sorting and flipping of sweeps","simcats/ideal_csd/geometric/_ideal_csd_geometric.py")],["get_csd_data"])
add("C31","Occupations and lead transitions agree with the charge transitions",
 "Occupations are non-negative, change by one electron across each lead transition, keep the total across an interdot transition, and the lead transition mask marks exactly the pixels where the total changes.",
 ["inputs"],"all transition parameters and sweeps","Checked for a few configurations only.",
 ["simcats/ideal_csd/geometric/_get_electron_occupation.py","simcats/ideal_csd/geometric/_generate_lead_transition_mask.py"],[("occupation and mask calculation","simcats/ideal_csd/geometric/")],["get_csd_data"])
add("C32","Sensor functions follow their formulas and inverses",
 "Peak, rise and barrier functions follow their documented formulas, pinch-off and fully-conductive points are where the function reaches the configured percentage, the generalized logistic function and its inverse are inverse to each other, and the sensor response is that of the three conductances in series.",
 ["inputs"],"all parameter values and potentials","A few default values are compared.",
 ["simcats/support_functions/_generalized_logistic_function.py","simcats/sensor/barrier_function/_barrier_function_glf.py","simcats/sensor/barrier_function/_barrier_function_multi_glf.py","simcats/sensor/_sensor_rise_glf.py"],[("closed formulas","simcats/support_functions/_generalized_logistic_function.py")],["sensor_function, get_value, pinch_off, fully_conductive"])
add("C33","Sensor scan labels mark the true regions and peaks",
 "The conductive mask separates pinched-off, single-dot and fully conductive regions at the barrier and final-rise thresholds, and the Coulomb peak mask marks each visible peak at its maximum, including deformed peaks.",
 ["inputs"],"all sensors, deformations and sweeps","Three default scans are compared.",
 [SS],[("get_sensor_scan_labels",SS)],["measure_sensor_scan labels"])
add("C34","Geometry helpers are exact",
 "Rotation, point-line distance, line and circle intersections and pixel-voltage conversion agree with their mathematical definition for all inputs, including degenerate ones.",
 ["inputs"],"all points, lines, circles and ranges","Not tested.",
 ["simcats/support_functions/_linear_algebra.py","simcats/support_functions/_rotate_points.py","simcats/support_functions/_signed_dist_points_line.py","simcats/support_functions/_pixel_volt_transformation.py"],[("closed formulas","simcats/support_functions/")],["return values"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(p)+"\n" for p in P))
