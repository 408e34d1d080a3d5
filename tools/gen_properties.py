"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in (state or [])],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
                    'observe_at': observe, 'hook_needed': hook}})


SIM, DEV, ENV = 'gerabaldi/sim.py', 'gerabaldi/models/devices.py', 'gerabaldi/models/phys_envs.py'
SPEC, REP, RV = 'gerabaldi/models/test_specs.py', 'gerabaldi/models/reports.py', 'gerabaldi/models/random_vars.py'
ST, HLP, MIN = 'gerabaldi/models/states.py', 'gerabaldi/helpers.py', 'gerabaldi/math/minimize.py'

p('C01', 'Every test step runs exactly once, in order, on one monotone clock',
  'For a test specification built by any history of constructions and appends (duration-looped appends add whole '
  'repetitions, the fewest whose stress time reaches the requested duration), a simulation executes every listed step '
  'exactly once in listed order; a listed step it cannot run is refused, never skipped. The report summary has exactly one row per step carrying its number, name, type, '
  'duration, conditions and start/end times, and every measurement row carries the number of the step that took it and '
  'the clock at that step. The simulated clock starts at the initial elapsed time, advances by exactly the duration of '
  'each stress step and nothing else, and never runs backwards (non-positive stress durations are rejected), even while '
  'other simulations iterate the same specification.',
  ['histories', 'schedules', 'inputs'],
  'All append/construct histories, step mixes, repeated step objects, initial elapsed times, and interleavings of several '
  'simulations sharing one specification.',
  'Tests run a handful of 3-6 step specifications once, single-threaded, and assert a few cells.',
  [SPEC, SIM, REP],
  [('step iteration of the specification', SPEC + ' TestSpec.__iter__/append_steps'),
   ('step loop and elapsed bookkeeping', SIM + ' simulate/_sim_stress_step/_sim_meas_step')],
  ['report.test_summary', 'report.measurements'],
  state=[('elapsed', 'simulated clock', ST + ' SimState.elapsed')])

p('C02', 'Concurrent simulations sharing models are isolated from each other',
  'When several simulations (and other read-only uses such as state generation or model export) run in concurrent threads '
  'over the same specification, device model and environment objects, each produces exactly the report it produces when it '
  'runs alone with the same random draws, under every interleaving. When all have finished, process-wide state (warning '
  'filters, floating point error handling, the global random generator, logging configuration, working directory) is what '
  'it was before.',
  ['schedules', 'histories'],
  'All thread interleavings at source-line granularity of 2-4 caller threads over shared and partly shared models.',
  'No test runs two simulations at the same time.',
  [SIM, SPEC, DEV, ENV, MIN],
  [('per-simulation state and report objects', SIM + ' simulate'),
   ('stateless model evaluation', DEV), ('re-entrant specification iteration', SPEC + ' TestSpec.__iter__')],
  ['report.test_summary', 'report.measurements', 'warnings.filters', 'numpy.geterr()'])

p('C03', 'A simulation aborted at any point leaves the caller\'s inputs untouched',
  'Simulating a test or generating an initial state never changes the specification, device model, environment, supplied '
  'initial state or supplied device counts, whether it completes or is aborted at an arbitrary instant by an interrupt, a '
  'memory error, or an exception from a model equation or random source. The abort reaches the caller as the exception '
  'that caused it, and running again afterwards with the same objects and draws gives exactly the report a never-aborted '
  'first run gives.',
  ['crash_points', 'fault_sequences', 'histories'],
  'All crash points (each executed source line and each call into user equations/random sources) and sequences of aborted '
  'runs followed by a clean one.',
  'Tests contain no fault injection at all and never compare inputs before/after.',
  [SIM, DEV, ENV, SPEC, ST],
  [('deep copy of the supplied state', SIM + ' simulate'), ('copies of count dictionaries', SIM + ' gen_init_state')],
  ['public attributes of the inputs', 'report of the re-run'])

p('C04', 'Degradation accumulates by equivalent stress time over any stress history',
  'For every monotone time-dependent wear-out mechanism and any sequence of stress steps, the degradation of each device '
  'after a step equals the mechanism evaluated under that step\'s conditions at (time that would have produced its prior '
  'degradation under those conditions) + (step duration), each device using its own latent values; so splitting a stress '
  'into pieces changes nothing. The measured parameter is the parameter equation applied to initial value, accumulated '
  'mechanism values and the measurement-condition shift, within a relative time error of 1e-4 plus the 1e-3 time-unit '
  'resolution of the search.',
  ['histories', 'inputs', 'configurations'],
  'All stress step sequences, condition changes, mechanism mixes, unit choices, device populations.',
  'Tests check two-step sequences of one mechanism with 1-3 hand-computed values.',
  [SIM, DEV, MIN],
  [('equivalent time back-calculation', DEV + ' DegMechMdl.calc_equiv_strs_time'),
   ('vectorised Brent search', MIN + ' minimize'), ('degradation evaluation', DEV + ' calc_deg_vals')],
  ['report.measurements'],
  state=[('curr_deg_mech_vals', 'accumulated degradation per device', ST)])

p('C05', 'Degradation never heals under milder or non-degrading stress',
  'For mechanisms that move monotonically away from their fresh value with time, the accumulated degradation of every '
  'device never moves back towards fresh by more than 0.2% whatever conditions follow: in particular, when a following '
  'stress could not itself reach the accumulated level (threshold not met, lower saturation level, or an impractically '
  'long equivalent time) the level is held. A later harsher stress continues from the held level, and other devices in the '
  'same population that can degrade still do.',
  ['histories', 'inputs', 'configurations'],
  'All sequences mixing harsh, mild, below-threshold and saturating conditions, rising or falling mechanisms, any time unit.',
  'No test has a second stress milder than the first with a threshold or saturating mechanism.',
  [DEV, SIM, MIN],
  [('hold of samples with no valid equivalent time', DEV + ' MechMdl.calc_deg_vals'),
   ('reachability of the prior level', DEV + ' DegMechMdl.calc_equiv_strs_time')],
  ['report.measurements'])

p('C06', 'A hard failure latches for the rest of the test',
  'A device whose hard-failure mechanism has produced a failed (non-unitary) value keeps exactly that value through every '
  'later step, whatever the later conditions, noise, measurements or sibling failures. A device fails in exactly the first '
  'stress step whose equation value for that device, evaluated with that step\'s own duration and conditions and the '
  'device\'s own latents, is not the unfailed value; no other device is affected.',
  ['histories', 'inputs', 'fault_sequences'],
  'All failure times and orders over device populations, failure values, unfailed values, stress histories and random draws.',
  'One unit test evaluates a single step on three samples; a demo asserts six cells.',
  [DEV, SIM],
  [('latch on previous failure state', DEV + ' FailMechMdl.calc_deg_vals'),
   ('no equivalent time for failures', DEV + ' FailMechMdl.calc_equiv_strs_time')],
  ['report.measurements'])

p('C07', 'Equations that refuse arrays give the same results as vectorised ones',
  'Whenever a mechanism, condition-shift or parameter equation of a degrading parameter rejects array arguments with a '
  'value error, at any subset of its calls, the simulation falls '
  'back to evaluating it device by device and the report equals the report of the same test with a vectorised equation. '
  'Each device\'s evaluation receives exactly that device\'s scalar time, conditions, mechanism values and latents. An '
  'error raised for a single device\'s scalar evaluation is delivered to the caller rather than replaced by a value.',
  ['fault_sequences', 'inputs'],
  'All subsets of equation calls that refuse arrays across mechanism, conditional-shift and parameter equations, any shape.',
  'One helper test covers a 3x2x2 multiplication; no test mixes vectorised and refused calls.',
  [HLP, DEV],
  [('value-error fallback', DEV + ' calc_deg_vals/calc_cond_vals/calc_cond_shifted_vals/residue'),
   ('index-wise evaluation', HLP + ' _loop_compute/_get_single_index')],
  ['report.measurements', 'arguments seen by the equations'])

p('C08', 'Latent variability is layered per lot, chip and device and frozen for a test',
  'Every latent value equals the optional base value combined (by product or sum, as configured) with exactly one lot '
  'draw shared by all devices of that lot, one chip draw shared by all devices of that chip, and one draw private to that '
  'device, with absent layers having no effect; no draw serves two lots, chips or devices. The values are drawn once per '
  'initial state and remain the device\'s values for all steps of the test, at whatever measurement subset.',
  ['histories', 'inputs', 'configurations'],
  'All layer combinations, both combination types, populations, model positions (mechanism, shift, parameter, circuit, initial '
  'value) and step histories, for arbitrary draw sequences.',
  'Tests check up to 2x2x2 arrays of a single variable and never look across a test\'s steps.',
  [DEV, SIM, ST],
  [('layered sampling', DEV + ' LatentVar.gen_latent_vals'), ('latent persistence', ST + ' SimState.latent_var_vals')],
  ['SimState.latent_var_vals', 'report.measurements'])

p('C09', 'Environment variation is drawn afresh each step and shared at the right layer',
  'In every step each condition\'s actual value is the target combined (by sum or product, as configured) with one batch '
  'draw shared by everything in that step, one chip draw shared by all devices and all parameters on the same chip, and one '
  'draw private to each device of each parameter; each condition sensor shares the batch draw but has draws of its own. No '
  'draw is used twice within a step at its layer or reused in a later step, absent layers have no effect, and a condition '
  'without a variation model is exactly its target.',
  ['histories', 'inputs', 'configurations'],
  'All step sequences, populations, layer combinations and draw sequences; stress and measurement steps alike.',
  'One test checks two parameters on 1 lot x 2 chips for a single call.',
  [ENV, SIM],
  [('layered condition generation', ENV + ' PhysTestEnv.gen_env_cond_vals/EnvVrtnMdl.gen_*')],
  ['report.measurements', 'arguments seen by the equations'])

p('C10', 'Measuring is non-destructive and results never depend on the future',
  'Given the same initial devices and draws, adding, removing, repeating or moving measurement steps between the same stress '
  'steps changes no other reported value: a '
  'measurement reports the device state and conditions of its own step and leaves device state, clock and later results as '
  'they would be without it. The rows reported by the first k steps are identical whatever steps follow.',
  ['histories', 'schedules'],
  'All placements and contents of measurement steps and all continuations of a given prefix.',
  'No test compares two schedules.',
  [SIM, DEV, REP],
  [('read-only measurement step', SIM + ' _sim_meas_step'), ('shifted values computed aside', DEV + ' calc_cond_shifted_vals')],
  ['report.measurements'])

p('C11', 'A reported device number denotes the same physical device throughout',
  'Each measurement of a parameter reports every requested device of every chip of every lot exactly once, labelled with '
  'its own lot, chip and device number, and the labelled value is the value of that physical device at every step, also '
  'when different steps or parameters request different device counts, when derived circuit parameters are measured, or '
  'when some modelled parameters are never measured. A measured environmental condition contributes one unlabelled row per '
  'requested sensor.',
  ['inputs', 'histories', 'configurations'],
  'All populations, per-step sample counts, parameter kinds and measurement orders.',
  'Tests check a few rows with equal counts everywhere.',
  [REP, SIM, DEV],
  [('flattening and labelling', REP + ' SimReport.format_measurements'),
   ('device subset selection', DEV + ' _reduce_dev_dim_size/CircPrmMdl.calc_circ_vals'),
   ('device count planning', SIM + ' gen_init_state')],
  ['report.measurements'])

p('C12', 'Seeded models reproduce exactly, in any process and whatever else runs',
  'When every random variable of the models is given a seed (any non-negative integer, zero included), building and simulating them '
  'gives an identical report in every repetition, in every process regardless of hash randomisation, and regardless of '
  'which other random variables or simulations are created or run before, between or beside them. Random variables '
  'created without a seed draw independently of each other and of every seeded one.',
  ['configurations', 'schedules', 'histories'],
  'All models, seed values, hash seeds, and interferences by unrelated simulations.',
  'Tests compare single runs with recorded constants at one fixed hash seed.',
  [RV, DEV, ENV],
  [('private generator per random variable', RV + ' RandomVar.__init__'),
   ('deterministic dependency order', DEV + ' DegPrmMdl.get_dependencies')],
  ['report.measurements'])

p('C13', 'An export that returned successfully reads back as the same report',
  'Once exporting a report to a file has returned, loading that file - in another process, after short or interrupted '
  'low-level writes, whatever the file previously held, in any supported time unit - yields the same test name, '
  'description, measurement rows and summary rows: same order and labels, same text, same times to the microsecond, and '
  'numbers equal to 12 significant digits whatever their magnitude. A missing target directory is created.',
  ['fault_sequences', 'inputs', 'histories'],
  'All reports with finite values, units, file histories and benign I/O fault sequences.',
  'Tests export to memory only and look at the unit string; nothing is ever loaded.',
  [REP, HLP],
  [('JSON export', REP + ' SimReport.export_to_json'), ('JSON load', REP + ' SimReport.__init__')],
  ['file contents', 'loaded report'])

p('C14', 'A failed or torn export is never mistaken for a report',
  'If exporting fails (disk full, I/O error, permission) the failure reaches the caller, and after a crash or failure at '
  'any byte of an export, loading the target either raises or yields exactly one complete report - the previously stored '
  'or the newly exported one - never a partial or mixed one. Neither a failed export nor a failed load changes the '
  'in-memory report, which can still be exported successfully once the fault is gone.',
  ['crash_points', 'fault_sequences', 'histories'],
  'All crash points and I/O error points of an export or load, over any previous file content.',
  'No test writes a file.',
  [REP],
  [('single-document JSON file', REP + ' SimReport.export_to_json'), ('errors propagate', REP)],
  ['file contents', 'loaded report', 'raised errors'])

p('C15', 'Report times survive any sequence of conversions, exports and loads',
  'However a report is converted to raw time values, re-converted, exported with or without a unit and loaded again, '
  'the physical time of every measurement and of every step stays the same, and exported numbers are in the unit the '
  'export names. Exporting never modifies the report, and a rejected unit leaves the report as it was.',
  ['histories', 'inputs', 'fault_sequences'],
  'All operation sequences over reports and units, including rejected units.',
  'Tests call export once per unit on a fresh report and never convert.',
  [REP, HLP],
  [('time conversion', HLP + ' _convert_time'), ('unit tracking', REP + ' export_to_json/convert_report_time')],
  ['report.measurements', 'exported JSON'])

p('C16', 'Missing optional packages never affect what does not use them',
  'For every combination of optional packages that are missing or fail to import, the library imports and simulations give '
  'the same reports as with everything present. A feature that needs a missing package raises an import error naming the '
  'package to install when, and only when, it is used.',
  ['fault_sequences', 'configurations'],
  'All subsets of failing optional imports and failure kinds.',
  'Tests run with everything installed.',
  [HLP, RV, DEV, ENV],
  [('deferred import errors', HLP + ' _on_demand_import')],
  ['import outcome', 'reports', 'raised errors'])

p('C17', 'Exporting models to inference frameworks never alters them',
  'Transpiling any latent variable or model for a supported inference framework leaves the model\'s distributions, base '
  'values and names, and the observed data handed in, as they were, whether the export succeeds, is refused, or fails at any call into the framework or is '
  'interrupted anywhere, and also while a simulation using the same model runs concurrently. Repeated exports hand the '
  'framework identical definitions and later simulations give the results they would have given without any export.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'All failure points inside an export, layer combinations, base values (zero centres included) and interleavings with simulations.',
  'Tests export one plain distribution and never look at the model afterwards.',
  [DEV, RV],
  [('export without lasting re-centring', DEV + ' LatentVar.cbi_export'), ('distribution mapping', RV + ' get_cbi_form')],
  ['calls received by the framework', 'distribution attributes', 'reports'])

p('C18', 'Logging configuration is replace-not-accumulate and never affects results',
  'After any sequence of logger configurations the library\'s log records go to exactly the most recently supplied stream '
  'handler and the most recently supplied file handler (the built-in stream handler until one is supplied), each record '
  'once and filtered by the most recently set level. Failing log streams (write errors, full disk) or any logging level '
  'never change or abort a simulation.',
  ['histories', 'fault_sequences'],
  'All configuration sequences and log-stream fault sequences.',
  'No test touches the logger.',
  [HLP],
  [('handler replacement', HLP + ' configure_logger')],
  ['records received by handlers', 'reports'])

p('C19', 'Each reading passes through its own instrument exactly once',
  'Every reported reading is the true value plus one fresh error draw of the instrument for that parameter, then rounded '
  'to the instrument\'s significant figures, then limited to its range; parameters without an instrument are reported '
  'exactly. Zero, infinite or undefined true values are handled per reading - infinities saturate at the range, undefined '
  'stay undefined - without aborting the step or changing any other reading.',
  ['inputs', 'fault_sequences', 'histories'],
  'All instrument combinations, draw sequences and histories in which individual devices return zero, infinite or undefined values.',
  'One test measures five fixed values and three special ones.',
  [ENV, SIM],
  [('instrument chain', ENV + ' MeasInstrument.measure'), ('instrument lookup', ENV + ' PhysTestEnv.meas_instm')],
  ['report.measurements'])

p('C20', 'Results depend on physical time, not on the unit it is expressed in',
  'Expressing the same physical test in any mix of supported time units (durations as durations or as numbers with a unit; '
  'mechanism, parameter or device model units) gives the same report times and the same degradation, each mechanism '
  'receiving time in its own unit or else its parameter\'s, else its device\'s, else hours. This holds from microsecond to '
  'decade durations in every unit.',
  ['configurations', 'inputs', 'histories'],
  'All assignments of units to durations and model levels, for all step histories and time scales.',
  'Tests try three fixed unit combinations of two steps.',
  [HLP, DEV, SPEC, SIM],
  [('unit conversion', HLP + ' _convert_time'), ('unit propagation', DEV + ' propagate_time_unit/set_time_unit'),
   ('search bounds', DEV + ' calc_equiv_strs_time')],
  ['report.measurements', 'report.test_summary'])

p('C21', 'Editing a variability model is equivalent to building it afresh',
  'After any sequence of edits to a latent or environmental variability model (setting or removing layer distributions, '
  'base value, combination type, including rejected edits) its generated values and exported inference definitions are those of a model built directly with the final '
  'settings and the same draws. A rejected edit changes nothing, and edits made between two simulations affect only the later one.',
  ['histories', 'inputs'],
  'All edit sequences, including invalid edits, interleaved with simulations.',
  'Tests make three edits on one model.',
  [DEV, ENV],
  [('attribute consistency rules', DEV + ' LatentVar.__setattr__'), ('same for environment', ENV + ' EnvVrtnMdl.__setattr__')],
  ['generated values', 'reports'])

p('C22', 'Restarting from a saved initial state reproduces the same devices',
  'A test simulated from a previously generated initial state - reused any number of times, or written out and read back in '
  'another process after a crash - reports the same devices each time: given the same environment draws the reports are '
  'identical and equal to those of a simulation that generated that state itself. The state may hold more parameters or '
  'devices than the test measures, and its elapsed time offsets every reported time.',
  ['crash_points', 'histories', 'inputs'],
  'All states, reuse counts, restart points, and tests measuring subsets of the state.',
  'No test passes an initial state to a simulation.',
  [SIM, ST, DEV],
  [('state adoption', SIM + ' simulate'), ('state container', ST + ' SimState')],
  ['report.measurements', 'report.test_summary'])

p('C23', 'Faulty devices stay contained and every simulation makes bounded progress',
  'When the equations of some devices return undefined, infinite, constant or erratic values from some moment on, the '
  'simulation still completes every step, evaluating each mechanism equation at most a fixed number of times per device '
  'and step, and every other device\'s reported values are those it would have without the faulty ones (to the precision of '
  'the equivalent time search). Building looped tests likewise always terminates.',
  ['fault_sequences', 'inputs', 'histories'],
  'All placements and onset times of faulty devices and kinds of garbage values, any population.',
  'No test feeds non-finite or erratic values to the search.',
  [MIN, DEV, SIM, SPEC],
  [('iteration cap and element-wise search', MIN + ' minimize'), ('element-wise masking', DEV + ' calc_deg_vals')],
  ['report.measurements', 'equation call counts'])

p('C24', 'A parameter\'s results do not depend on unrelated parts of the model',
  'Given the same draws of its own random variables, the readings of a parameter are the same whether it is simulated alone or '
  'amid parameters, circuits, mechanisms, conditions, variation models, instruments, sensor readings and measurement steps it has no '
  'connection with - whatever their names, their order of listing, the lengths of their measurements, or values '
  'their equations produce (undefined and refused evaluations included).',
  ['inputs', 'configurations', 'fault_sequences', 'schedules'],
  'All models, sets of unrelated parts, name choices and listing orders, and all faults of the unrelated parts.',
  'Tests use one or two parameters and compare with constants, never the same parameter in two surroundings.',
  [DEV, ENV, SIM],
  [('per-parameter loops', DEV + ' DeviceMdl'), ('lookup by constructed attribute name', ENV + ' PhysTestEnv'),
   ('report assembly', SIM)],
  ['report.measurements'])

p('C25', 'Cookbook recipes hand out independent, pristine objects',
  'Each call of a prebuilt recipe (HTOL test, environments, mechanism models) returns an object that behaves as if it were the only '
  'one ever made: using, editing, extending or simulating with (completed, aborted or concurrent) objects handed out before or '
  'after changes neither its settings nor its draws, two objects do not share draws, and the arguments handed to a recipe are '
  'left alone.',
  ['histories', 'schedules', 'fault_sequences'],
  'All interleavings of creations, edits, draws and simulations over any number of recipe objects.',
  'Tests make each object once and use it alone.',
  ['gerabaldi/cookbook/mech_mdls.py', 'gerabaldi/cookbook/test_envs.py', 'gerabaldi/cookbook/test_specs.py'],
  [('recipes', 'gerabaldi/cookbook'), ('unseeded generators', RV + ' RandomVar')],
  ['object settings', 'draws', 'reports'])

p('C26', 'A copy of a model is equal to the original and independent of it',
  'A deep copy of a device model, environment, test specification or initial state (or of all of them together), made at any moment '
  'of any history of edits, draws and simulations (completed or aborted), behaves from then on exactly as the original would have: '
  'same settings, same draws, same reports. Environments, specifications, states and latent variables behave so too after being '
  'pickled and read back, in this or another process. Afterwards neither using nor editing the one, nor using them concurrently, '
  'changes the other, and a copy aborted half way leaves the original as it was.',
  ['histories', 'schedules', 'fault_sequences'],
  'All histories of copies, edits, draws, aborted and complete simulations, and all schedules of threads using different copies.',
  'Tests never copy a model.',
  [DEV, ENV, RV, 'gerabaldi/models/states.py'],
  [('edit handling in __setattr__ of slotted models', DEV + ' LatentVar, ' + ENV + ' EnvVrtnMdl'), ('generators', RV + ' RandomVar'),
   ('equations', DEV + ' LatentMdl')],
  ['object settings', 'draws', 'reports'])

# Properties this technique cannot address here (listed as not_applicable in MANIFEST.json)
p('C30', 'Random variables follow their declared distributions',
  'Samples of each random variable type are distributed as its declared parameters say (location, scale, shape, rate, bounds).',
  ['inputs'], 'All parameter values.',
  'Tests compare a few seeded samples with constants.',
  [RV], [('parameter mapping', RV + ' _params_for_numpy')], ['samples'])
p('C31', 'Exported inference models denote the same distributions as the simulator',
  'The transpiled form of a random variable, latent variable or model denotes the same joint distribution as the one sampled '
  'when simulating.',
  ['inputs', 'configurations'], 'All models and frameworks.',
  'Tests check the type of one exported distribution.',
  [RV, DEV], [('transpilation', DEV + ' export_to_cbi')], ['exported model'])
p('C32', 'Cookbook equations match the published models',
  'The prebuilt mechanism equation, environments and HTOL recipe equal the cited published models and standard values.',
  ['inputs'], 'All inputs of the prebuilt models.',
  'Tests check one evaluation.',
  ['gerabaldi/cookbook/mech_mdls.py', 'gerabaldi/cookbook/test_envs.py', 'gerabaldi/cookbook/test_specs.py'],
  [('prebuilt models', 'gerabaldi/cookbook')], ['returned models'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P), [len(x['title']) for x in P if len(x['title']) > 80])
