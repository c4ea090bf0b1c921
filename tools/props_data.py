WM = 'dedop/ui/workspace_manager.py'
STORE_NOTE = ('TLC checks the store specification exhaustively within small constants (names, depth); the binding to the '
              'code is by traces: behaviours TLC generated and random histories are replayed on the real workspace manager '
              'and the complete directory tree after every call is validated against the specification. Assumes one '
              'process at a time and a POSIX file system.')
STORE_TECH = 'TLA+ specification of the workspace store, TLC model checking, trace validation of recorded histories'

prop('C01', 'Workspace operations change exactly the named workspace',
     'Creating, copying, renaming, deleting and selecting workspaces has exactly the documented effect on the named '
     'workspaces and leaves every other file in the workspaces directory untouched, for any history of operations. An '
     'operation that fails changes nothing, and a copy or a renamed workspace holds exactly the files of the original. No operation '
     'ever overwrites or merges into an existing workspace, reaches outside the workspaces directory, or makes '
     'something current that does not exist; workspace names and the current workspace are always reported as they are on disk.',
     ['histories', 'inputs'], 'all sequences of workspace operations with any names, on any directory contents',
     'the tests run a handful of fixed call sequences on fresh directories and look at a few paths; they never compare '
     'the whole tree nor try colliding or path-like names', [WM],
     [('workspace operations', WM + ': create_workspace, copy_workspace, rename_workspace, delete_workspace, '
       'delete_all_workspaces, set_current_workspace_name, get_current_workspace'),
      ('name checks', WM + ': _assert_valid_name, _assert_workspace_exists')],
     ['directory tree under the workspaces directory', 'return values and errors of WorkspaceManager'],
     STORE_TECH, STORE_NOTE,
     state=[('tree', 'all files and directories with content', 'workspaces_dir'),
            ('current workspace', 'name stored on disk', 'workspaces_dir/.current')])

prop('C02', 'Configurations are complete, isolated and never overwritten',
     'A new configuration holds one loadable file each for characterisation, processing options and constants, taken '
     'from the chosen template; copying and renaming a configuration moves all its files and results and nothing else. '
     'Operations on one configuration never touch another configuration or workspace, and a failing operation changes '
     'nothing. The list of configurations and the current configuration always reflect what is on disk, and creating, '
     'copying or renaming onto an existing configuration is refused.',
     ['histories', 'inputs', 'configurations'], 'all sequences of configuration operations in any workspaces with any names',
     'the tests create one or two configurations in fixed order and check single paths', [WM, 'dedop/ui/data'],
     [('configuration operations', WM + ': create_config, copy_config, rename_config, delete_config, '
       'set_current_config_name, get_config_names, get_current_config_name, config_exists')],
     ['directory tree', 'return values and errors'], STORE_TECH, STORE_NOTE)

prop('C03', 'Inputs and outputs: exactly the named files are added, listed, removed',
     'Adding inputs copies each source file unchanged into the inputs of the named workspace; removing inputs removes '
     'exactly the named ones; removing outputs empties exactly the outputs of the named configuration. Listing '
     'reports every product file once, restricted to the given name patterns, and never changes anything. '
     'Nothing outside the named inputs or outputs is altered, even if a file is missing or cannot be copied.',
     ['histories', 'inputs', 'fault_sequences'], 'all sequences of input/output operations, file names, patterns and failing sources',
     'the tests add and remove two fixed files', [WM],
     [('input and output operations', WM + ': add_inputs, remove_inputs, get_input_names, get_input_paths, '
       'remove_outputs, get_output_names, get_nc_filename_list')],
     ['directory tree', 'returned names'], STORE_TECH, STORE_NOTE)

PR = 'dedop/proc/sar/processor.py'
SL = 'dedop/proc/sar/algorithms/surface_locations.py'
SD = 'dedop/model/surface_data.py'
L1A = 'dedop/data/input/l1a/l1a_dataset.py'
CHAIN_NOTE = ('TLC checks exhaustively, for all small record sequences, that the step-by-step model of the processing loop '
              'yields the declarative Expected products, the prefix property under cancellation and the independence of segments. '
              'The code is bound by traces: the real processor runs on synthetic L1A products whose bursts carry identifying '
              'amplitudes, and ChainTrace/ChainRel decide each product record. Assumes a spherical-like one dimensional '
              'geometry (track on the equator or a meridian, constant height), records in time order.')
CHAIN_TECH = 'TLA+ specification of the processing chain, TLC model checking, trace validation of real product files against it'

prop('C12', 'Exactly the valid records inside the region of interest are processed',
     'Processing uses exactly those input records that are valid and inside the configured latitude/longitude region: '
     'the announced amount of work, the records read one by one, iterated or by index, and the first and last time all '
     'agree on the window from the first to the last record of the region. Records that cannot be used are skipped '
     'wherever they occur, the result is that of a file without them, and the last record of the region is read.',
     ['inputs', 'configurations'], 'all L1A files, positions of invalid records and bounds of the region',
     'the tests read one fixed file with one region', [L1A, 'dedop/data/input/input_dataset.py', PR],
     [('region of interest and validity', L1A + ': __init__, __next__, __iter__, __getitem__, in_range, _get_closest'),
      ('skipping of unusable records', PR + ': _process')],
     ['L1ADataset interface', 'L1B/L1BS product records'], CHAIN_TECH, CHAIN_NOTE)

prop('C13', 'Surfaces lie at every spacing along the track and their stacks are complete',
     'For every uninterrupted stretch of bursts the product has surfaces at equal distance along the ground track, '
     'beginning at the first burst and ending before the last, and the stack of each consists of all the bursts that see it, '
     'in order, each exactly once, limited to the configured number of looks closest to nadir. A surface is left out if '
     'and only if it has less than half of these looks; a file too short to fill the queue is refused.',
     ['inputs', 'configurations'], 'all burst spacings, file lengths and numbers of looks',
     'the tests run single algorithms on one recorded surface; none runs the loop that fills and empties the queues',
     [PR, SL, 'dedop/proc/sar/algorithms/beam_angles.py', 'dedop/proc/sar/algorithms/stack_gathering.py'],
     [('processing loop and queues', PR + ': _process, surface_locations, beam_angles, clear_old_records'),
      ('surface placing', SL + ': find_new_location'),
      ('visible surfaces', 'dedop/proc/sar/algorithms/beam_angles.py: __call__'),
      ('stack selection', 'dedop/proc/sar/algorithms/stack_gathering.py: __call__')],
     ['number, position, looks and echoes of L1B/L1BS records'], CHAIN_TECH, CHAIN_NOTE,
     state=[('queues', 'bursts and surfaces waiting', PR + ': source_isps, surf_locs')])

prop('C14', 'Data gaps separate independent segments',
     'A pause between two bursts of more than one and a half burst repetition intervals splits the file: no surface gets '
     'bursts of both sides, all surfaces before the gap are completed, and the first burst after the gap starts a new line '
     'of surfaces and is calibrated and used exactly once. What is on one side of a gap does not change the records of the other '
     'side, and a segment of any length after or before a gap is processed.',
     ['inputs', 'histories'], 'all numbers, lengths and positions of gaps',
     'no test has a data gap', [PR],
     [('gap detection and resume', PR + ': _process'), ('forced first surface', SL + ': __call__')],
     ['product records of files with gaps, compared with files that share a segment'], CHAIN_TECH, CHAIN_NOTE)

prop('C15', 'Cancellation keeps a correct beginning and progress adds up',
     'A run that is cancelled at any record stops there without error, reports that it is not complete, and leaves products '
     'with exactly the first records of the complete run. The amount of work announced is the number of records, progress '
     'never exceeds it nor goes back, and reaches it in a complete run; the processor can be used again afterwards.',
     ['schedules', 'inputs', 'histories'], 'all points of cancellation in all input files',
     'the tests never cancel a processing run', [PR, 'dedop/util/monitor.py'],
     [('cancellation and progress', PR + ': process, _process')],
     ['product files after cancellation', 'calls on the monitor'], CHAIN_TECH, CHAIN_NOTE)

prop('C16', 'A processing run depends on its input and configuration only',
     'Running the same input with the same configuration gives identical product records, whatever the processor did '
     'before: other files, cancelled runs, refused or failing files, focused surfaces or the same file again.',
     ['histories'], 'all sequences of runs on one processor object',
     'the tests use every processor once', [PR, SL],
     [('state kept between runs', PR + ': process, _process, source_isps, surf_locs, surfaces_count, beam_angles_*_prev'),
      ('state of the algorithms', SL + ': focus_found')],
     ['digests of all variables of all records'], CHAIN_TECH, CHAIN_NOTE)

prop('C17', 'Products are named after input and configuration; L1B and L1BS correspond',
     'A run writes exactly one L1B product, and one L1BS product unless that is switched off, into the output directory, '
     'named after input file and configuration, and changes neither the input nor other files. L1B and L1BS have one record for each other '
     'with the same time, place, counter and number of looks, and first and last burst of the stack; the headers repeat those of '
     'the input and give the first and last measurement time.',
     ['inputs', 'configurations'], 'all input file names, configuration names, formats and headers',
     'the tests write single records with mock data', [PR, 'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py',
                                                       'dedop/data/output/netcdf_writer.py'],
     [('names and headers', PR + ': _process'), ('writers', 'dedop/data/output/*.py: write_record, write_globals')],
     ['files in the output directory', 'global attributes'], CHAIN_TECH, CHAIN_NOTE)

prop('C18', 'Record fields are those of the overflight or of the closest burst',
     'Time, GPS time, satellite position, velocity, height and height rate, and attitude of a record are the values of the moment the satellite passes over '
     'the surface, interpolated between the two bursts around it, for the first surface those of the first burst. '
     'Flags, counters and instrument parameters handed through are those of the burst of the '
     'stack closest to the surface, in L1B and in L1BS.',
     ['inputs'], 'all burst positions, times and field values, also after gaps and invalid records',
     'the tests compare the fields of a single fixed surface', [SL, SD, 'dedop/data/output/l1b_writer.py', 'dedop/data/output/l1bs_writer.py'],
     [('interpolation', SL + ': find_new_location, store_first_location, store_location'), ('closest burst', SD + ': closest_burst, properties'),
      ('writing', 'dedop/data/output/l1b_writer.py: write_record')],
     ['variables of L1B/L1BS records'], CHAIN_TECH, CHAIN_NOTE)

prop('C19', 'UTC day and second of a record are right, also at midnight and leap seconds',
     'UTC day and second of the day of each record are those of the overflight, counted on from the burst before the '
     'surface: the second never reaches the length of the day, and at midnight the day changes and the second starts from zero, also '
     'on a day that is longer or shorter by a leap second, and for records at either side of a gap.',
     ['inputs'], 'all times of day, including bursts on both sides of midnight and leap seconds',
     'no test crosses midnight', [SL],
     [('UTC of surfaces', SL + ': find_new_location, store_first_location')],
     ['UTC_day_*, UTC_sec_* variables'], CHAIN_TECH, CHAIN_NOTE)

prop('C20', 'Surface focusing moves exactly one surface onto the target',
     'With surface focusing switched on, the surface closest to the target is moved onto the target, for the first stretch '
     'of the track that passes it, and its stack consists of the bursts that see the target. All other surfaces '
     'stay where they are, and a target that is not passed changes nothing.',
     ['inputs', 'configurations'], 'all tracks and targets', 'one test focuses one fixed surface', [SL],
     [('focusing', SL + ': __call__, focus_target_distance, focus handling')],
     ['positions and stacks of product records'], CHAIN_TECH, CHAIN_NOTE)

prop('C28', 'Each look of a stack is the beam that points at the surface',
     'The look that a burst contributes to the stack of a surface is formed towards that surface: an echo '
     'coming from the direction of one surface appears in the stack of that surface and not in the stacks of the others, '
     'for both azimuth processing methods and however many surfaces the burst sees.',
     ['inputs', 'configurations'], 'all burst positions relative to the surfaces and both methods',
     'the tests compare one burst with a reference', ['dedop/proc/sar/algorithms/azimuth_processing.py',
      'dedop/proc/sar/algorithms/stack_gathering.py', 'dedop/model/l1a_processing_data.py'],
     [('beam forming', 'dedop/proc/sar/algorithms/azimuth_processing.py: __call__'),
      ('order of beams and surfaces', PR + ': beam_angles; dedop/model/l1a_processing_data.py: calculate_beam_angles_trend')],
     ['complex looks of L1BS records'], CHAIN_TECH, CHAIN_NOTE)

LOOK = 'dedop/proc/sar/algorithms/'
LOOK_TECH = ('TLA+ specification (Looks.tla on top of Chain.tla) model-checked with TLC against the stepwise algorithm (MCLooks); '
             'the real chain is run on generated L1A files with chosen window delays, echoes and options, and every bin and look of its '
             'products is validated against the specification by TLC (ChainTrace)')
LOOK_NOTE = ('Model checking covers all small stacks; the implementation is bound by trace validation of generated runs (bounded, seeded). '
             'One-dimensional tracks on a circle, 8 pulses per burst, 8 to 64 range samples; shifts closer than about 0.02 samples to '
             'a rounding boundary are not judged.')

prop('C21', 'Wrapped samples and looks outside the angle limits are masked',
     'With stack masking on, a look contributes to exactly those range bins that it really measured: bins into which '
     'aligning the look (rounded to whole samples) wraps samples from the other end of the window are masked, a look moved by the whole window '
     'or with a look angle outside the configured limits is masked completely, and nothing else is. The product states this: number of looks from '
     'the first to the last one used, the end of the mask of each of them, and their start and stop look angles. With masking '
     'off nothing is masked.',
     ['inputs', 'configurations'], 'all window delays, burst positions, angle limits, zero padding factors and options',
     'the tests mask one recorded stack', [LOOK + 'stack_masking.py', LOOK + 'multilooking.py', PR],
     [('masks', LOOK + 'stack_masking.py: compute_geometry_mask, compute_angle_mask, combine_masks, apply_mask'),
      ('use of the masks', LOOK + 'multilooking.py: compute_multilooking')],
     ['waveform bins, nb_stack, stack_mask_vector, start/stop look angles of L1B and L1BS'], LOOK_TECH, LOOK_NOTE)

prop('C22', 'Each waveform bin is the average power of the looks that contribute to it',
     'Each bin of the L1B waveform is the sum of the powers of the looks not masked in it, divided by the number of these looks, or, with '
     'the option to avoid zeros switched off, by the number of looks that are not completely masked. A bin without any contribution is zero; '
     'it does not spoil the others. The value read from the product (with its scale factor) is that in both formats, '
     'for all stack sizes, numbers of looks, and calibrations.',
     ['inputs', 'configurations'], 'all stacks, masks, options and output formats',
     'the tests multilook one recorded stack', [LOOK + 'multilooking.py', LOOK + 'range_compression.py', 'dedop/data/output/l1b_writer.py'],
     [('average', LOOK + 'multilooking.py: compute_multilooking'), ('power', LOOK + 'range_compression.py: __call__'),
      ('scaling', 'dedop/data/output/l1b_writer.py: write_record')],
     ['waveforms of L1B products'], LOOK_TECH, LOOK_NOTE)

prop('C24', 'Antenna weighting uses the weight at the pointing angle of each look',
     'With antenna weighting on, the power of each look is multiplied by the weight at its pointing angle (look angle minus pitch), '
     'linearly interpolated between the two neighbouring entries of the table, and by the first or last weight outside of '
     'it. With antenna weighting off the weights do not matter.',
     ['inputs', 'configurations'], 'all weight tables, pitch and look angles',
     'the tests use one table and one stack', [LOOK + 'multilooking.py', LOOK + 'stack_gathering.py', 'dedop/conf/characterization.py'],
     [('weights', LOOK + 'multilooking.py: apply_antenna_weighting, _select_weight_from_angle'),
      ('pointing angles', LOOK + 'stack_gathering.py: __call__')],
     ['waveforms of L1B products'], LOOK_TECH, LOOK_NOTE)

prop('C29', 'Looks are aligned: the echo of the surface is at the same range in all looks',
     'Each look is moved in range by the difference of the window delays of burst and surface and, if switched on, by the slant '
     'range and the Doppler effect of its direction, so that an echo of the surface appears at the same range bin in all looks of '
     'the stack, wherever the burst and however its window was set. The range in the product is the window delay at the overflight, '
     'including the correction for the centre of gravity.',
     ['inputs', 'configurations'], 'all window delays, burst positions and echoes',
     'the tests correct one recorded stack', [LOOK + 'geometry_corrections.py', LOOK + 'range_compression.py', SL, L1A],
     [('corrections', LOOK + 'geometry_corrections.py'), ('range axis', LOOK + 'range_compression.py: __call__'),
      ('window delay of the surface', SL + ': store_location'), ('window delay of a burst', L1A + ': __getitem__')],
     ['looks of L1BS products, range_ku of L1B and L1BS'], LOOK_TECH, LOOK_NOTE)

CLI = 'dedop/cli/main.py'
SHELL_TECH = ('TLA+ specification of the shell on top of the store (Shell.tla), model-checked with TLC (MCShell); histories generated by TLC and '
              'random ones are run through the real command-line entry point and every step (status, output, complete tree) is validated '
              'against the specification by TLC (ShellTrace)')
SHELL_NOTE = ('Model checking covers all histories up to a depth of 4 to 7 with two names each. The package cate (argument parser plumbing) is not '
              'installed here and replaced by a small stand-in under /verif; processors, editors and notebook servers are recording stand-ins.')

prop('C04', 'Shell commands act exactly on the named or current workspace and configuration',
     'Every "workspace" and "config" command of the shell acts on the workspace and configuration given, else on the current '
     'ones, else on "default", exactly as documented, and on nothing else; a command that cannot be carried out reports it '
     'with a non-zero status and changes nothing. Deletions happen only with the consent of the user. The current workspace and '
     'configuration always exist: renaming follows them, and after a removal "default" or another one becomes current.',
     ['histories', 'inputs'], 'all sequences of workspace and config commands with all options and answers',
     'the tests run single commands and compare the message', [CLI, WM],
     [('commands', CLI + ': WorkspaceCommand, ManageConfigsCommand, StatusCommand'), ('store', WM)],
     ['status and output of the commands', 'directory tree'], SHELL_TECH, SHELL_NOTE)

WEB = 'dedop/webapi/websocket.py'
prop('C05', 'The web service has exactly the documented effect on the workspaces',
     'Each method of the JSON-RPC service (workspaces, configurations, inputs, outputs, notebooks, processing) has exactly the '
     'effect on the workspaces directory that it names and returns what is there; a failing call is an error to the client and '
     'changes nothing. Saved configurations are read back with the same content, a renamed current workspace or configuration stays current, and '
     'processing uses the files of the named configuration and the named input.',
     ['histories', 'inputs'], 'all sequences of service calls',
     'there are no tests that compare the effect of service calls on the tree', [WEB, WM],
     [('service', WEB + ': WebSocketService'), ('store', WM)],
     ['returned JSON and errors', 'directory tree'],
     'TLA+ specification of the service on top of the store (Web.tla), TLC model checking (MCWeb), trace validation of recorded call histories (WebTrace)',
     'The handler methods are called directly (tornado/cate transport replaced by a stand-in). Bounded, seeded histories bind the code.')

prop('C06', 'A run processes every input with every configuration exactly once',
     '"dedop run" processes each of the given inputs (default: all inputs of the workspace) with each of the given '
     'configurations (default: the current one, or all) exactly once, with the characterisation, constants and options of that configuration, writing '
     'into the output directory of that configuration, and skipping L1BS only if asked. Missing '
     'workspace, configuration or inputs are reported and nothing is processed. The status is non-zero if a job failed.',
     ['histories', 'configurations'], 'all workspaces, configurations, inputs and options of "run"',
     'the tests run one configuration with a mocked processor', [CLI, WM],
     [('run command', CLI + ': RunProcessorCommand'), ('paths', WM + ': get_config_file, get_outputs_path, get_input_paths')],
     ['processor jobs (arguments)', 'status', 'directory tree'], SHELL_TECH, SHELL_NOTE)

prop('C07', 'Notebooks are made for exactly the named products, never overwriting another',
     'Inspecting or comparing products creates one new notebook in the named workspace that is valid and names exactly the chosen product '
     'files (each resolved with its own workspace and configuration); existing notebooks stay as they are, whatever notebooks were '
     'made, removed or copied before. If the notebook cannot be written this is reported.',
     ['histories', 'inputs'], 'all histories of inspect and compare, product names and existing notebooks',
     'the tests create a single notebook', [CLI, WM],
     [('notebook commands', CLI + ': ManageOutputsCommand inspect, compare'), ('notebooks', WM + ': inspect_l1b_product, compare_l1b_products')],
     ['notebook files', 'launched notebooks', 'status'], SHELL_TECH, SHELL_NOTE)

prop('C30', 'Input and output commands touch exactly the matching files, with consent',
     'The "input" and "output" commands of the shell add, remove, list, open and clean exactly the files that match the given names and '
     'patterns in the given or current workspace and configuration; removing and cleaning happens only if the user agrees or '
     'asked not to be asked, and any other answer leaves everything as it is.',
     ['histories', 'inputs'], 'all sequences of input and output commands, patterns and answers',
     'the tests run single commands on one file', [CLI, WM],
     [('commands', CLI + ': ManageInputsCommand, ManageOutputsCommand'), ('store', WM + ': add_inputs, remove_inputs, remove_outputs')],
     ['status and output of the commands', 'directory tree'], SHELL_TECH, SHELL_NOTE)

prop('C25', 'Progress and cancellation pass through any tree of monitors',
     'Work and messages reported to any monitor of a tree of child monitors reach the root scaled by its shares '
     'and prefixed with the labels on the way: never more than the announced total, and exactly the share of a child whose task reported all its '
     'work. Cancelling any monitor, or pressing Ctrl-C, is seen by all of them. A task always ends its monitor, even if it fails; then the '
     'former Ctrl-C handler is back. The console shows the percentage done and the message whenever one of them changed.',
     ['histories', 'inputs'], 'all trees of monitors and sequences of start, progress, child, cancel and done',
     'the tests use one child with one fixed sequence', ['dedop/util/monitor.py'],
     [('monitors', 'dedop/util/monitor.py: Monitor.starting, ChildMonitor, ConsoleMonitor, _NullMonitor')],
     ['calls reaching the root monitor', 'console output', 'signal handler'],
     'TLA+ specification of monitor trees (Monitors.tla), TLC model checking (MCMonitors), trace validation of real monitor trees (MonitorTrace)',
     'Monitors used as documented: start before progress, no more work than announced.')

prop('C08', 'Upgrading a configuration keeps all settings except what the version changed',
     'Upgrading an older configuration file gives every parameter that the change log lists as added or changed since '
     'its version the new default, drops those listed as removed, and keeps all other settings of the user as they are; the '
     'file then carries the current version. Upgrading again, or going by way of intermediate versions, makes no difference. A file that is '
     'up to date or newer is left as it is, no other configuration is touched, an upgraded configuration is accepted by '
     'the processor, and reported versions are those in the files.',
     ['histories', 'inputs', 'configurations'], 'all change logs, file versions and settings, and all sequences of upgrades',
     'the tests upgrade two fixed dictionaries', [WM, CLI, 'dedop/ui/data/config'],
     [('upgrade', WM + ': upgrade_config, upgrade_all_config, _do_upgrade_config'), ('versions', WM + ': get_config_version, get_default_config_version'),
      ('commands', CLI + ': execute_upgrade, execute_version')],
     ['configuration files', 'returned and printed versions'],
     'TLA+ specification of upgrades (Upgrade.tla), TLC model checking of the change-by-change algorithm against it (MCUpgrade), trace validation '
     'of real upgrades with generated change logs (UpgradeTrace)',
     'An overlay copy of the package with generated default files stands for other DeDop versions. Change logs in ascending order.')

prop('C10', 'A crash or i/o error never damages a configuration or a bystander',
     'If the process is killed or the file system reports an error at any point of an operation on the workspaces, then nothing '
     'that was there before and is not being deleted is lost or damaged: a configuration file being saved or upgraded is '
     'completely the old or completely the new one, a rename has happened or not, a copy or creation can only be incomplete in its new '
     'target, a deletion only removes what it was to remove, and the store still answers. A failed save leaves no work file, '
     'and no operation reports success if it was not carried out completely.',
     ['crash_points', 'fault_sequences', 'histories'], 'all operations, and all points at which they can be interrupted or a file system call can fail',
     'the tests never interrupt an operation', [WM, WEB],
     [('saving', WM + ': write_config_file, upgrade_config'), ('tree operations', WM + ': create_*, copy_*, rename_*, delete_*, add_inputs, remove_*'),
      ('current pointers', WM + ': _writeline')],
     ['directory tree after the interruption', 'reported errors'],
     'TLA+ specification of interrupted operations (Crash.tla), TLC model checking of the operations as sequences of file system calls (MCCrash), '
     'fault injection at every file system call of the real operations (LD_PRELOAD), resulting trees validated by TLC (CrashTrace)',
     'A killed process, not a power failure: what reached the kernel stays. Single faults, or a disk full from some call on.')

prop('C09', 'Parameters come from their own file, converted as declared; versions checked',
     'Every parameter of the characterisation, configuration and constants files that the algorithms see is the value in the file '
     'it was loaded from, under its declared name and converted as declared (degrees to radians, selections to their method): never the value '
     'of another file loaded before or after, nor of another parameter. Missing optional parameters have their default, missing mandatory ones '
     'and values that cannot be converted are errors; unknown entries change nothing. A file of another version, or without one, is refused.',
     ['inputs', 'histories'], 'all file contents and versions, and all sequences of loading and reading several files',
     'the tests load one fixed file per kind', ['dedop/conf'],
     [('files', 'dedop/conf/auxiliary_file_reader.py: AuxiliaryFileReader, AuxiliaryParameter'),
      ('parameters', 'dedop/conf: ConfigurationFile, CharacterisationFile, ConstantsFile')],
     ['values of the attributes', 'errors'],
     'TLA+ specification of the auxiliary files and their parameters (Aux.tla), TLC model checking (MCAux), trace validation of real '
     'loads and reads of generated files (AuxTrace)',
     'Values generated within +-2e6 in steps of 1/1000.')

prop('C26', 'Every L1A record is read with its own values, in any order of access',
     'Whatever records of whatever opened products are read in whatever order, by index or by iterating, each field the chain sees is that '
     'of the variable and record it belongs to, in the unit it uses (angles, window delay including the centre of gravity, waveforms scaled by '
     'the gain, the configured CAL2 table, positions): also across the blocks in which the file is read, with several products open. '
     'Lengths, first and last time and product attributes are those of the file or region; a record that does not exist is an error, never another record.',
     ['inputs', 'histories'], 'all products (lengths, values, packing), regions and orders of access',
     'the tests read one fixed file from start to end', ['dedop/data/input', 'dedop/model/l1a_processing_data.py'],
     [('blocks', 'dedop/data/input/netcdf_reader.py: NetCDFReader.get_value, _load_chunk'),
      ('records', 'dedop/data/input/l1a/l1a_dataset.py: L1ADataset.__getitem__, __iter__, first_time, last_time, read_globals'),
      ('positions', 'dedop/model/l1a_processing_data.py: L1AProcessingData.compute_location_sar_surf')],
     ['fields of the records', 'errors'],
     'TLA+ specification of products and their records (Reader.tla), TLC model checking of the block cache (MCReader), trace validation of '
     'real random access to generated products (ReaderTrace)',
     'Values in steps of 1/1000; gains of 0, 20, 40 dB and special pointing angles, so that conversions are exact in the model.')

prop('C11', 'The tool goes by its settings: the local file over the user\'s',
     'A session goes by the settings in dedop-config.py in its working directory over those in ~/.dedop/config.py: values, paths (with ~ for the home '
     'directory), the place of the workspaces, the processor, and the commands that open files and notebooks, which are called exactly as configured with the '
     'placeholders filled in. A file that cannot be executed is ignored as a whole with a warning; a missing user file is created and '
     'sets nothing; existing files are never changed. Unusable commands and failures to launch a notebook are reported.',
     ['inputs', 'histories', 'configurations'], 'all contents and states of the two files, and sequences of sessions',
     'the tests read one setting that is not defined', ['dedop/util/config.py', WM, CLI],
     [('settings', 'dedop/util/config.py: get_config, get_config_value, get_config_path, write_default_config_file'),
      ('commands', WM + ': launch_notebook, open_file'), ('use', CLI + ': main')],
     ['values', 'programs called', 'directories', 'warnings'],
     'TLA+ specification of the settings (Settings.tla), TLC model checking of the loading procedure (MCSettings), trace validation of real '
     'sessions in processes of their own with recording programs (SettingsTrace)',
     'Settings files do not change while a session runs. Terminals of Linux desktops without KDE.')

prop('C23', 'Product variables read back as the quantities they stand for',
     'Every variable of a product, read by its own scale factor, offset and unit, gives for each record the quantity it stands for, within its '
     'resolution: of the surface, of its stack, or of the burst closest to it. A quantity its packed type cannot represent (too large, not a '
     'number) reads as missing, never as another value; so does what is not written and what lies behind the end of a shorter list. All records given are in '
     'the product, once and in order, and a record that does not fit is refused. Flags have one meaning per value.',
     ['inputs', 'configurations'], 'all values of all quantities, numbers of records, list lengths, kinds of product',
     'the tests write a few records of ordinary values and compare some variables', ['dedop/data/output', 'dedop/model/surface_data.py'],
     [('writing', 'dedop/data/output/netcdf_writer.py: NetCDFWriter.write_record, _mask_unrepresentable, create_variable'),
      ('L1B', 'dedop/data/output/l1b_writer.py: L1BWriter.write_record, L1BWriterExtended.write_record'),
      ('L1BS', 'dedop/data/output/l1bs_writer.py: L1BSWriter.write_record')],
     ['product files'],
     'TLA+ specification of the products (Product.tla: variables, quantities, types, packing), TLC model checking of packing and records (MCProduct), trace '
     'validation of real products written from generated records (ProductTrace)',
     'Quantities in tenths of the resolution of their variable; lists up to 6 looks, 8 samples.')

prop('C31', 'The configured azimuth window weights the pulses of a burst',
     'Before beams are formed each pulse of a burst is weighted by the azimuth window as configured: none, or a boxcar, Hamming or Hann (hanning) window of the '
     'configured width in the middle of the burst; pulses outside of it contribute nothing to any look, and the exact and the approximate method weight alike.',
     ['inputs', 'configurations'], 'all shapes, widths, pulses, both methods of azimuth processing',
     'the tests process with one window', [LOOK + 'azimuth_processing.py'],
     [('window', LOOK + 'azimuth_processing.py: AzimuthProcessingAlgorithm.construct_azimuth_window'), ('use', LOOK + 'azimuth_processing.py: AzimuthProcessingAlgorithm.__call__')],
     ['looks of L1BS records'],
     'TLA+ specification of the window (Looks.tla: Taper), TLC model checking of its shape (MCWindow), trace validation of looks formed from bursts with a single pulse (ChainTrace)',
     'Bursts of 8 pulses, widths 2 to 8 whose cosines are exact in the model.')

prop('C27', 'The sigma0 scaling factor is that of the radar equation',
     'The scaling factor of a look is the power in dB that the radar equation gives for a surface of 0 dB: from the transmitted power, antenna gain, losses, wave length and pulses of '
     'the characterisation, the distance of that look, the area seen at its velocity and pulse repetition interval, and the gain control of the burst closest to the surface. '
     'The factor of the surface is the mean over its looks. Both are in the products.',
     ['inputs', 'configurations'], 'all characterisations, distances, velocities, numbers of looks',
     'the tests compare one surface', [LOOK + 'sigma_zero_scaling.py', PR],
     [('factor', LOOK + 'sigma_zero_scaling.py: Sigma0ScalingFactorAlgorithm.__call__'), ('use', PR + ': sigma_zero_scaling')],
     ['scaling factors of surfaces', 'product variables'],
     'TLA+ specification of the radar equation in logarithms (Sigma.tla), TLC model checking of its laws (MCSigma), validation of factors of generated surfaces '
     '(SigmaTrace) and of products of generated files (ChainTrace)',
     'Distances of 360 to 1600 km, 1 to 12 looks.')

prop('C32', 'What a record says about its stack describes that stack',
     'Top, half width, skewness and kurtosis of a stack whose power is a Gaussian over the angle are those of that Gaussian, whatever its width, place, power and direction of '
     'flight; only the 124 looks on either side of zero Doppler count; the half width is never negative. Angles, bursts and mask ends are those of the '
     'first to the last look that is not masked; zero if all are.',
     ['inputs'], 'all widths, places and sizes of stacks, all masks',
     'the tests compare one stack', [LOOK + 'multilooking.py', PR],
     [('fit', LOOK + 'multilooking.py: gauss_fit, gauss_estimate, MultilookingAlgorithm.compute_stack_characterization_params'),
      ('looks', LOOK + 'multilooking.py: MultilookingAlgorithm.compute_multilooking'), ('use', PR + ': multilooking')],
     ['attributes of surfaces'],
     'TLA+ specification of the stack statistics in integers (Stats.tla), TLC model checking of the moments (MCStats), validation of what the processor says about generated '
     'stacks (StatsTrace)',
     'Stacks of 1 to 400 looks; curves at least 1.3 looks wide with their top in the middle half of the stack. Stacks that are not Gaussian: only that the half width is not negative.')

UI = 'dedop/ui/'
prop('C33', 'Looking at products shows what is in them',
     'A figure of an inspected product shows the values of the variable, waveform, row, column or record that was asked for, and figures of two products theirs or the difference first minus '
     'second; missing values are missing; limits given are used, zero included, and those not given cover the values drawn. A request that cannot be '
     'fulfilled is refused or reported and draws nothing. Each figure is shown in a notebook, is a page of the one PDF document, or a file in the directory '
     'named after what it shows; closing closes products and document.',
     ['inputs', 'histories'], 'all products, sequences of requests, limits and outputs',
     'the tests draw nothing', [UI + 'inspect.py', UI + 'compare.py', UI + 'figurewriter.py'],
     [('inspect', UI + 'inspect.py: L1bProductInspector, L1bProductInspectorPlots'), ('compare', UI + 'compare.py: L1bProductComparator, L1bProductComparatorPlots'),
      ('write', UI + 'figurewriter.py: FigureWriter')],
     ['figures'],
     'TLA+ specification of what figures show (Inspect.tla), TLC model checking of sessions (MCInspect), validation of sessions of the real inspector and comparator with '
     'drawing libraries that record (InspectTrace)',
     'Products of up to 5 records and 6 samples, up to 6 figures per session. Looks (labels, colours, maps) are not judged.')

GEO = 'dedop/proc/geo/'
prop('C34', 'Positions, angles and distances are those on the ellipsoid',
     'Conversions between geodetic and cartesian coordinates are those of the ellipsoid, everywhere on earth. The cartesian positions of bursts, of the ground under them, '
     'of surfaces and of records of the products belong to their latitude, longitude and height, on any orbit, across poles and the date line; a surface lies on the '
     'ground under its satellite position, which lies on the track at its time, and one azimuth resolution further, seen from there, lies the next. Beam, look and '
     'doppler angles (positive: ahead, climbing) and ranges of the looks are those between burst, its velocity and the surface. The web service tells '
     'positions and attributes of a file as they are, in JSON.',
     ['inputs', 'configurations'], 'all positions, orbits and ellipsoids like the earth',
     'the tests convert a handful of positions, and none near a pole', [GEO + 'ecef2lla.py', GEO + 'lla2ecef.py', 'dedop/model/l1a_processing_data.py', LOOK + 'surface_locations.py'],
     [('conversion', GEO + 'lla2ecef.py: lla2ecef'), ('inverse', GEO + 'ecef2lla.py: ecef2lla'),
      ('bursts', 'dedop/model/l1a_processing_data.py: compute_location_sar_surf, compute_doppler_angle'),
      ('surfaces', LOOK + 'surface_locations.py: store_first_location, find_new_location'),
      ('angles', LOOK + 'beam_angles.py: compute_beam_angle'), ('looks', LOOK + 'stack_gathering.py'),
      ('service', 'dedop/webapi/websocket.py: get_lat_lon, get_max_min_coordinates, get_global_attributes')],
     ['positions of products'],
     'TLA+ specification of positions and directions on an ellipsoid in exact integers of any size (Geo.tla, Big.tla), TLC model checking of its laws on right-angled '
     'triangles (MCGeo), validation of conversions and generated passes (GeoTrace)',
     'Ellipsoids of 6200 to 6600 km and flattening up to 1/250 at heights up to 1400 km (flatter ones at height 0); agreement within 25 mm for conversions, 150 mm in height and 700 mm on the ground for '
     'positions interpolated within passes of 50 to 68 bursts; angles to 1e-8 (beam), 1e-7 (doppler), 1e-6 (look).')
