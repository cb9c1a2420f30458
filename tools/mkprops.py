"""Writes properties.jsonl and MANIFEST.json (single source for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The tests run each call once, in one order, in one thread, on a healthy machine; '


def P(id, title, statement, over, text, why, files, mech, state=(), observe='', level_note='', tech='', na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                observe=observe, note=level_note, tech=tech, na=na)


CORE = ['pyrtlib/tb_spectrum.py', 'pyrtlib/absorption_model.py', 'pyrtlib/rt_equation.py', 'pyrtlib/utils.py']
PROPS = [
    P('C01', 'A calculation depends on its own arguments and selected models only',
      'The brightness temperatures, absorption coefficients and other quantities returned by a calculation depend only on the profile, '
      'frequencies, angles and options given to that calculation object and on the absorption models selected when it runs. Nothing done '
      'earlier in the process - other calculations, other objects, other viewing geometries, emissivities or model selections, weighting '
      'functions, extrapolations, parameter look-ups - changes them: the answer is that of a fresh process that makes only this selection '
      'and this calculation.',
      ['histories', 'inputs', 'configurations'],
      'All finite histories of public operations (construct, set geometry/emissivity/cloud/uncertainty, select models together or one '
      'class at a time, execute, direct absorption calls, weighting functions, climatology, extrapolation, parameter look-ups) before a calculation.',
      TESTS + 'they never compare the same calculation after two different histories, although selection and line lists are process-wide state.',
      CORE + ['pyrtlib/weighting_functions.py'],
      [('process-wide selection of absorption models and line lists', 'pyrtlib/absorption_model.py (class attributes model, h2oll, o2ll, o3ll)'),
       ('instance construction and execute()', 'pyrtlib/tb_spectrum.py:TbCloudRTE'), ('planck(), clearsky/cloudy absorption', 'pyrtlib/rt_equation.py')],
      [('selected model per gas', 'which parametrisation the next calculation uses'), ('line list in force', 'spectroscopic lines read by the absorption routines')],
      'returned data frames and arrays', tech='seeded search over simulated histories against a fresh-process reference model'),
    P('C02', 'After a failed or interrupted call, later results are those of a fresh process',
      'When an operation fails - a line-data file cannot be opened or read, the process is out of file descriptors or memory, the user '
      'interrupts it - the failure reaches the caller as an exception. Once the user selects the models again, every later calculation and '
      'look-up returns exactly what a fresh process returns: no half-loaded line list, stale selection, held lock or poisoned cache survives.',
      ['fault_sequences', 'histories'],
      'All histories with faults injected at any file open/read/close, any function entry, return from C code or backward jump (interrupt) and any call '
      '(allocation failure), in any operation.',
      TESTS + 'they inject no failure; every partially completed state is out of their reach.',
      CORE + ['pyrtlib/weighting_functions.py', 'pyrtlib/uncertainty/absmod_uncertainty.py', 'pyrtlib/climatology/atmospheric_profiles.py'],
      [('loading of line lists', 'pyrtlib/utils.py:import_lineshape, pyrtlib/_lineshape/*'), ('temporary selection while generating weighting functions', 'pyrtlib/weighting_functions.py:WeightingFunctions.generate_wf')],
      [('line list in force', 'must never be partial')], 'returned values and raised exceptions after the fault',
      tech='deterministic simulation: fault injection at every I/O call and code site, fresh-process reference model'),
    P('C03', 'Threads that share one model selection get the results of sequential execution',
      'When several threads run calculations, direct absorption calls, line-list look-ups, parameter look-ups and perturbations at the same time under one '
      'common model selection, each on its own objects, every call returns what it returns when run alone, under every interleaving. No '
      'interleaving deadlocks, makes a call fail, or lets two threads enter the netCDF library at once (which is not thread-safe).',
      ['schedules', 'programs'],
      'All interleavings, at the granularity of executed lines and library calls, of 2-4 client threads with 1-4 operations each, '
      'after arbitrary set-up.',
      TESTS + 'no test starts a thread.',
      CORE + ['pyrtlib/_lineshape/h2oll.py', 'pyrtlib/_lineshape/o2ll.py', 'pyrtlib/_lineshape/o3ll.py', 'pyrtlib/uncertainty/absmod_uncertainty.py'],
      [('loading a line list while another thread uses it', 'pyrtlib/absorption_model.py:set_ll, pyrtlib/utils.py:import_lineshape'), ('lock around netCDF access', 'pyrtlib/utils.py')],
      [('line list in force', 'shared by all threads')], 'results per thread, order of netCDF calls, progress',
      tech='deterministic thread scheduler: seeded random, targeted and priority-based preemption, linearised reference'),
    P('C04', 'Arrays, lists, tables and dictionaries passed in are never modified',
      'No public function or object modifies an array, list, dictionary or other mutable argument the caller passes - neither during the '
      'call, nor in any later call on the same or another object, nor when the call fails half-way. Callers may reuse their profiles for the next calculation, '
      'and may pass arrays that are read-only.',
      ['inputs', 'histories', 'fault_sequences'],
      'All histories of calls sharing the same input arrays, with and without faults.',
      TESTS + 'they build fresh inputs and never look at them again.',
      CORE + ['pyrtlib/weighting_functions.py', 'pyrtlib/climatology/extrapolation.py', 'pyrtlib/uncertainty/absmod_uncertainty.py'],
      [('instance construction keeps or copies the arrays', 'pyrtlib/tb_spectrum.py:TbCloudRTE.__init__, init_cloudy'), ('unit conversions', 'pyrtlib/utils.py')],
      [], 'bitwise digest of every caller-owned value after every operation', tech='simulated histories with an ownership invariant checked after every step'),
    P('C05', "The line list in force is the selected model's, exactly, or the selection fails",
      "After a model is selected for water vapour, oxygen or ozone and its line list loaded, every line parameter equals the value stored for that model "
      "in the package's data file, whatever was selected or loaded before, with no entry left over from another model. A model name without data for that gas "
      "is rejected with the package's model error - never replaced silently - and the list of available models is exactly that of the data files.",
      ['histories', 'configurations', 'fault_sequences'],
      'All sequences of selections (available and unavailable names, per gas), loads, calculations and faults in between.',
      TESTS + 'they load few models, each once, and compare end results of some, never the lists after a different model was loaded.',
      ['pyrtlib/absorption_model.py', 'pyrtlib/_lineshape/h2oll.py', 'pyrtlib/_lineshape/o2ll.py', 'pyrtlib/_lineshape/o3ll.py', 'pyrtlib/utils.py'],
      [('set_ll', 'pyrtlib/absorption_model.py'), ('line list modules', 'pyrtlib/_lineshape/*.py')],
      [('line list in force', 'module object holding the parameters')], 'contents of the list in force, exceptions, implemented_models()',
      tech='simulated histories; oracle: direct reading of the data files plus fresh-process reference'),
    P('C06', 'Returned results never change, and a reused object computes like a new one',
      'A result handed to the caller is never altered by any later operation of the library. Executing a calculation object again - after '
      'changing viewing direction, emissivity, models or uncertainty set, or without any change - gives exactly what a newly built object with '
      'the same settings gives. A copy of a calculation object (copied deeply, or pickled and loaded) computes the same as the original, and changing or '
      'executing one of them does not affect the other.',
      ['histories'],
      'All histories of executions, setting changes and copies of several reused objects, interleaved with other operations.',
      TESTS + 'objects are executed once or twice and earlier results are not looked at again.',
      CORE, [('per-object work arrays', 'pyrtlib/tb_spectrum.py:TbCloudRTE.execute')], [('work arrays of an object', 'filled level by level and frequency by frequency')],
      'digests of all results handed out, results of re-execution', tech='simulated histories with result-immutability invariant and fresh-object reference'),
    P('C07', 'Perturbed spectroscopic parameters affect only calculations they are given to',
      'A calculation given a set of (perturbed) spectroscopic parameters uses exactly that set; calculations not given one use the unperturbed '
      'data of the selected model, whatever perturbed calculations ran before. Looking up, editing, perturbing or using parameter sets never '
      'changes another set, nor the data in use.',
      ['histories', 'inputs'],
      'All histories mixing look-up, edit, perturbation and use of parameter sets with unperturbed calculations, including failing ones.',
      TESTS + 'each test perturbs once and does not repeat the unperturbed calculation afterwards.',
      ['pyrtlib/uncertainty/absmod_uncertainty.py', 'pyrtlib/absorption_model.py', 'pyrtlib/tb_spectrum.py'],
      [('parameter sets', 'pyrtlib/uncertainty/absmod_uncertainty.py:SpectroscopicParameter, AbsModUncertainty'), ('use of a parameter set', 'pyrtlib/absorption_model.py (amu)')],
      [('parameter sets', 'dictionaries of value and uncertainty')], 'results of perturbed and unperturbed calculations, parameter dictionaries',
      tech='simulated histories against a fresh-process reference model'),
    P('C08', 'Retrieved soundings and station data are exact, or the retrieval fails',
      'A sounding, header or station list retrieved from the Wyoming or IGRA archives contains exactly the values the archive published for that request '
      '- every level in order, every column, missing values as missing. If the network damages, truncates, replaces or refuses the answer in a '
      'detectable way, the call raises an exception; it never returns partial, shifted or foreign data.',
      ['fault_sequences', 'inputs'],
      'All archive contents the generator makes, all segmentations, encodings, redirects and delays of the answer and the injected network faults '
      '(refusal, reset or end at any byte, error status, busy page, empty or shortened object, bad framing, corrupted archive file, TLS failure).',
      TESTS + 'the only web test needs the real network and is skipped or fails here.',
      ['pyrtlib/apiwebservices/wyomingupperair.py', 'pyrtlib/apiwebservices/igra2.py', 'pyrtlib/apiwebservices/webservices.py'],
      [('parsing of the Wyoming page', 'pyrtlib/apiwebservices/wyomingupperair.py'), ('parsing of IGRA files', 'pyrtlib/apiwebservices/igra2.py')],
      [], 'returned tables and exceptions', tech='deterministic network simulation below the real HTTP client; generated archives as ground truth'),
    P('C09', 'Each retrieval asks for what the caller named, and missing data are reported',
      'A retrieval asks the archive for exactly the station, time (or time range), region and product the caller named, independent of earlier, '
      'failed or concurrent retrievals, and its answer belongs to its own request. Data the archive does not have, and station identifiers it does not know, '
      'are reported as an error of the documented kind (value error, or HTTP error for an error status), and a failed retrieval does not affect the next.',
      ['histories', 'schedules', 'fault_sequences'],
      'All sequences and interleavings (2-4 threads) of retrievals over stations, times, ranges, products and regions, with faults in some.',
      TESTS + 'no test sends two requests, and none runs offline.',
      ['pyrtlib/apiwebservices/wyomingupperair.py', 'pyrtlib/apiwebservices/igra2.py', 'pyrtlib/apiwebservices/webservices.py'],
      [('request construction', 'pyrtlib/apiwebservices/*.py:_get_data_raw and request_data'), ('HTTP session handling', 'pyrtlib/apiwebservices/webservices.py:HTTPWebService')],
      [], 'returned tables, exceptions, requests seen by the simulated archive', tech='deterministic network and thread simulation; generated archives as ground truth'),
    P('C10', 'A retrieval always ends: silence of the peer is bounded',
      'No retrieval waits forever: if the web server does not accept the connection, does not answer, or falls silent in the middle of the answer, '
      'the call ends with an exception within five minutes of silence and after a bounded number of connections. Once the server answers '
      'again, the next retrieval succeeds.',
      ['fault_sequences', 'histories'],
      'All stall points (connect, request, any byte of the answer) over sequences of retrievals, on a simulated clock.',
      TESTS + 'no test has a silent peer or can wait five minutes.',
      ['pyrtlib/apiwebservices/webservices.py', 'pyrtlib/apiwebservices/igra2.py', 'pyrtlib/apiwebservices/wyomingupperair.py'],
      [('time-outs of HTTP requests', 'pyrtlib/apiwebservices/webservices.py, igra2.py')], [], 'simulated time and connections used per call',
      tech='deterministic network simulation with a simulated clock; bounded-liveness check'),
    P('C11', 'ERA5 files are complete and right, or absent; reading one is exact or fails',
      'After a download call returns, the named file holds exactly the requested time and area; if the download fails, is interrupted, or the process dies at '
      'any instant, the final path never holds an incomplete file, and a previous complete file there stays intact until replaced. Concurrent downloads of the same file do not '
      'mix. Reading a file returns the published values at the grid point asked for or raises an exception.',
      ['crash_points', 'fault_sequences', 'schedules', 'inputs'],
      'All steps of a download as crash, error or preemption points, several requests, directories, grid resolutions and file formats, truncated files.',
      TESTS + 'downloads need credentials and network; no test writes or reads an ERA5 file of another shape.',
      ['pyrtlib/apiwebservices/erafive.py'],
      [('download', 'pyrtlib/apiwebservices/erafive.py:ERA5Reanalysis.request_data'), ('read', 'pyrtlib/apiwebservices/erafive.py:ERA5Reanalysis.read_data')],
      [('files on disk', 'final path and partial files')], 'directory after every step, returned table',
      tech='deterministic simulation of the download service, crash/restart with only the directory surviving, thread scheduler'),
    P('C12', 'Weighting-function, extrapolation and climatology objects keep no hidden history',
      'Generating or plotting weighting functions, extrapolating profiles and reading climatologies give results that depend only on the current '
      'settings of the object and the arguments, not on how often or in which order they were used, including after a failed use. They leave the settings the user made, '
      'and the absorption models selected by the user, as they were.',
      ['histories', 'fault_sequences'],
      'All histories of setting, generating, plotting, extrapolating over latitudes, seasons and profiles, and look-ups, on reused objects.',
      TESTS + 'each object is used once.',
      ['pyrtlib/weighting_functions.py', 'pyrtlib/climatology/extrapolation.py', 'pyrtlib/climatology/atmospheric_profiles.py'],
      [('generate_wf, plot_wf, plot_wf_grouped', 'pyrtlib/weighting_functions.py'), ('profile_extrapolation and level functions', 'pyrtlib/climatology/extrapolation.py')],
      [('settings of helper objects', 'frequencies, bandpass, height grids')], 'results, drawn curves, object settings, selected models',
      tech='simulated histories against a fresh-process reference model'),
    P('C13', 'No file, data set or connection is left open, whatever fails',
      'When a call has ended - normally, with an error, by an interrupt or after a network or disk fault - and its results are no longer referenced, '
      'every file, data set and network connection it opened is closed. Repeating calls, failing ones included, therefore never exhausts the resources of the process.',
      ['fault_sequences', 'histories'],
      'All histories of file-reading and retrieval operations with faults at any I/O call or code site.',
      TESTS + 'they do not count descriptors and inject no failures.',
      ['pyrtlib/utils.py', 'pyrtlib/_lineshape/h2oll.py', 'pyrtlib/_lineshape/o2ll.py', 'pyrtlib/_lineshape/o3ll.py', 'pyrtlib/absorption_model.py',
       'pyrtlib/apiwebservices/erafive.py', 'pyrtlib/apiwebservices/igra2.py', 'pyrtlib/apiwebservices/webservices.py', 'pyrtlib/climatology/atmospheric_profiles.py'],
      [('netCDF data sets', 'pyrtlib/_lineshape/*.py, pyrtlib/absorption_model.py:implemented_models, erafive.py'), ('HTTP sessions', 'pyrtlib/apiwebservices/webservices.py')],
      [('open descriptors', 'files, data sets, sockets')], 'open descriptors, data sets and simulated sockets at the end of a history',
      tech='fault injection over simulated histories with a resource-conservation invariant'),
    P('C14', "Returned objects are the caller's own: changing them affects nothing else",
      'Everything a public call returns - arrays, tables, dictionaries, parameter sets - belongs to the caller: overwriting it in place changes neither the '
      'result of any later call, nor any other result, nor any input of the caller.',
      ['histories', 'inputs'],
      'All histories in which the caller overwrites earlier results before further calls.',
      TESTS + 'they only read results.',
      CORE + ['pyrtlib/climatology/atmospheric_profiles.py', 'pyrtlib/uncertainty/absmod_uncertainty.py', 'pyrtlib/weighting_functions.py'],
      [('results shared with internal tables', 'pyrtlib/climatology/atmospheric_profiles.py, pyrtlib/utils.py, pyrtlib/tb_spectrum.py')],
      [], 'later results after in-place overwriting', tech='simulated histories with caller-side overwriting, fresh-process reference'),
    P('C15', 'Batched inputs are computed independently of each other',
      'A call given several frequencies, viewing angles, levels or heights computes each of them as if it had been given alone: the brightness temperature, '
      'optical depth, weighting function, absorption coefficient, unit conversion or extrapolated value of one element does not depend on which other elements are in '
      'the batch, on their number, on their order or on how close to each other they are - except for the coupling between the levels of one column that radiative transfer itself makes.',
      ['inputs', 'histories', 'fault_sequences'],
      'All batches of frequencies (sorted or not, repeated, nearly equal), angles, levels and heights, for every model selection, after any history, and after a failed call.',
      TESTS + 'they compare one fixed batch with one stored answer, and never a batch with its parts.',
      CORE + ['pyrtlib/weighting_functions.py', 'pyrtlib/climatology/extrapolation.py'],
      [('loops over angles and frequencies', 'pyrtlib/tb_spectrum.py:TbCloudRTE.execute'), ('loops over levels', 'pyrtlib/rt_equation.py:clearsky_absorption, cloudy_absorption'),
       ('loop over frequencies', 'pyrtlib/weighting_functions.py:WeightingFunctions.generate_wf'), ('profile functions', 'pyrtlib/climatology/extrapolation.py:ProfileExtrapolation')],
      [('work arrays of an execution', 'filled frequency by frequency and level by level, reused from one to the next')], 'rows of the returned tables and arrays',
      tech='simulated histories; every batched call is repeated in fresh processes for its elements alone (metamorphic reference model)'),
    P('C16', 'The library and the rest of the process leave each other alone',
      'Using pyrtlib - importing it again, calculating, plotting, reading, downloading, successfully or not - leaves the settings of the process that other code relies on as they '
      'were: floating-point error handling, print options, random state, warning filters, working directory, environment, locale, umask, signal handlers and timers, plotting defaults, '
      'standard streams, logging, socket defaults, pandas options. Conversely its answers do not depend on such settings, on the '
      'wall clock, the hash seed, the optimisation level of the interpreter, the order of imports, the thread or the event loop it is called from.',
      ['configurations', 'histories', 'fault_sequences'],
      'All histories of public operations under the settings, clocks, hash seeds, time zones, locales, optimisation levels, threads and import orders the generator makes, with network and download faults in some.',
      TESTS + 'they run in one interpreter with one environment and look at results only.',
      CORE + ['pyrtlib/weighting_functions.py', 'pyrtlib/apiwebservices/erafive.py', 'pyrtlib/apiwebservices/igra2.py', 'pyrtlib/apiwebservices/wyomingupperair.py', 'pyrtlib/apiwebservices/webservices.py',
              'pyrtlib/climatology/extrapolation.py', 'pyrtlib/uncertainty/absmod_uncertainty.py'],
      [('plotting', 'pyrtlib/weighting_functions.py:plot_wf, plot_wf_grouped'), ('choice of archive file by current year', 'pyrtlib/apiwebservices/igra2.py'), ('file names and paths', 'pyrtlib/apiwebservices/erafive.py')],
      [('process-wide settings', 'numpy, matplotlib, pandas, warnings, locale, signals, streams, sockets, random state')], 'snapshot of the settings after every operation; returned values',
      tech='deterministic simulation of the surrounding process: seeded settings, clock, interpreter variants, threads and event loops, with a settings-unchanged invariant and a neutral-process reference'),
]
PURE = 'a pure numerical function of its arguments: no schedule, time, I/O, fault or history decides it, so simulation has nothing to vary'
NA = [
    ('C20', 'Brightness temperatures are physically bounded', 'For every physical profile, frequency and angle the simulated brightness temperature lies between the cosmic background and the hottest temperature on the path.',
     ['pyrtlib/tb_spectrum.py', 'pyrtlib/rt_equation.py'], 'TbCloudRTE.execute'),
    ('C21', 'Absorption coefficients are finite and non-negative', 'For every physical state and frequency up to 1 THz the gas and liquid absorption coefficients are finite and not negative.',
     ['pyrtlib/absorption_model.py'], 'h2o_absorption, o2_absorption, o3_absorption, n2_absorption, liquid_water_absorption'),
    ('C22', 'Refracted path lengths are at least the layer thickness', 'Ray tracing returns, for every layer and elevation angle, a path length not smaller than the vertical thickness of the layer.',
     ['pyrtlib/rt_equation.py'], 'RTEquation.ray_tracing'),
    ('C23', 'Layer integration conserves the integral', 'Exponential integration of a constant or exponential profile equals the analytical integral for every layering.',
     ['pyrtlib/rt_equation.py'], 'RTEquation.exponential_integration'),
    ('C24', 'Unit conversions are mutual inverses', 'Each pair of humidity, mixing ratio, temperature and pressure-height conversions composes to the identity on physical inputs.',
     ['pyrtlib/utils.py'], 'mr2rh, rho2mr, e2mr, to_kelvin, to_celsius, ...'),
    ('C25', 'Standard-atmosphere extrapolation is continuous and monotone in pressure', 'The reference atmospheres are continuous across their layer boundaries and pressure decreases with height, for every latitude and season.',
     ['pyrtlib/climatology/extrapolation.py'], 'ProfileExtrapolation.temperature/pressure/water_vapour_density'),
    ('C26', 'Uncertainty propagation follows the standard formulas', 'The propagated uncertainty of a sum, product or quotient equals the first-order formula for all values and covariances.',
     ['pyrtlib/uncertainty/absmod_uncertainty.py'], 'AbsModUncertainty.uncertainty_propagation'),
    ('C27', 'Weighting functions are the derivative of transmittance', 'Generated weighting functions equal the derivative of transmittance with height and integrate to one minus the total transmittance.',
     ['pyrtlib/weighting_functions.py'], 'WeightingFunctions.generate_wf'),
]


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            fh.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'state': [{'name': a, 'meaning': b} for a, b in p['state']], 'observe_at': [p['observe']], 'hook_needed': None}}) + '\n')
        for i, t, s, f, w in NA:
            fh.write(json.dumps({
                'id': i, 'title': t, 'statement': s, 'quantifier': {'over': ['inputs'], 'text': 'All physical inputs.'},
                'why_tests_cant': 'The tests sample a handful of inputs.',
                'anchors': {'files': f, 'mechanism': [{'name': w, 'where': f[-1]}]}}) + '\n')
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': [
        {'property': i, 'reason': 'Deterministic simulation does not apply: it is ' + PURE + '.'} for i, *_ in NA],
        'notes': 'No hooks in /repo: all seams are installed from /verif before pyrtlib is imported. All commits in /repo are repairs (fix:), '
                 'listed in known-findings.json.'}
    for p in PROPS:
        m['checks'].append({
            'property': p['id'], 'quick_cmd': './check.sh %s --tier quick' % p['id'], 'thorough_cmd': './check.sh %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'exploration',
            'level_note': 'Seeded search over simulated runs of the real code: no violation found in the runs explored (counts in the evidence file); '
                          'not a proof. Trusts the seams and the reference described in DESIGN.md.'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


main()
