PROPS=[
dict(id='U01', title='A simulation reports every step of what was asked for, whole',
 statement='For every list of requested outputs, controller, time step and weather file (EPW or JSON), the report has one column per requested output that exists, in order (all the state when none does), and one row per time step from the first record of the weather up to its last, whose values are those of the state at that step. Writing in pieces, or interrupted, changes nothing, and a failure to write, a bad option, weather or script ends in an error.',
 over=['inputs','fault_sequences'], quant='all sequences of outputs up to a length, controllers, starts, lengths and steps; all short writes and failures at every byte',
 why='Columns, last rows and partial writes go wrong only in combinations of outputs, periods and sinks.',
 files=['src/run_simulation.rs','calendar/src/period.rs'], mech=[('driver','run, run_rhai, pre_process'),('periods','Period')], observe='the text written by simple::run_simulation',
 technique='exhaustive enumeration of outputs, periods, steps, weather files and write faults on the real driver, against an own simulation with the modules one by one', note='optical data is kept in a file, so that runs can be compared; the last tenth of an hour before the last record is left out by the library'),
dict(id='U02', title='Thermostats heat below, cool above, and mind their own HVAC and space',
 statement='For every set of HVACs, with or without each power and setpoint, and every indoor temperature, the rational occupant sets each HVAC to its heating power below its heating setpoint, to minus its cooling power above its cooling setpoint, and to zero otherwise, by the temperature of its own target space. What cannot be controlled, and the rest of the state, is left as it was.',
 over=['inputs'], quant='all single HVACs and pairs, combinations of missing data, temperatures around the setpoints and previous states',
 why='Missing data and overlapping setpoints of two HVACs make more combinations than tests list.',
 files=['src/occupant_behaviour.rs'], mech=[('control','OccupantBehaviour::control')], observe='the state',
 technique='exhaustive enumeration of HVACs, pairs, temperatures and previous states on the real controller against a decision table', note=''),
dict(id='U03', title='Control scripts see and change exactly the object and property they name',
 statement='For every kind of object, property and way to refer to it (by name, or number), a control script reads and writes the element of the state of that object and nothing else, with any number and any sequence of statements, and what it sets stays for the next steps. Objects that do not exist, properties without a value and wrong scripts are errors, never panics, that change nothing beyond the statements before them.',
 over=['programs','inputs'], quant='all pairs of properties of up to three objects of each kind, references by name or number, scripts of up to four statements',
 why='Each property has its own generated accessors, and swapped ones show only with several objects.',
 files=['model/src/rhai_api.rs','derive/src/field.rs','derive/src/object_struct.rs','derive/src/object_enum.rs','src/rhai_script_controller.rs'], mech=[('lookup','register_api by name and index'),('properties','api_getter, api_setter'),('scripts','RhaiControlScript')], observe='the state shared with the script',
 technique='exhaustive enumeration of scripts over all pairs of properties, references and statement sequences, run by the real engine, against the expected state', note=''),
dict(id='U04', title='The whole simulation is its modules, in order, sharing one state',
 statement='For every model, with or without each kind of object, and every number of steps per hour, each step of the whole simulation changes the state as solar, air flow and heat do one after the other. It allocates the same elements of the state, with the time step that was asked for.',
 over=['configurations','histories'], quant='all subsets of the kinds of objects of a house, numbers of steps per hour and steps of a day',
 why='An order or memory mixed up drifts slowly away and looks like a slightly different building.',
 files=['src/multiphysics_model.rs'], mech=[('modules','MultiphysicsModel::new, march, allocate_memory')], observe='the state after every step',
 technique='exhaustive enumeration of model parts, steps per hour and steps, comparing the real MultiphysicsModel with the modules marched one by one', note=''),
dict(id='U05', title='The simple program reports, translates or checks, or fails and says so',
 statement='For every combination of its options, the command line program writes to the chosen place exactly the report that the library gives with the chosen weather, controller and steps per hour, or translates the model into one that reads as the same model, or only checks it. In every other case it ends with an error and a failure code, without panics, and no run touches any file other than the one that it was told to write.',
 over=['configurations','inputs'], quant='all combinations of input files, weather files, controls, outputs, steps per hour, translations and checks',
 why='Options interact, and each combination is another path through the program.',
 files=['bin/simple.rs','src/run_simulation.rs'], mech=[('program','main, choose_controller, run_sim')], observe='exit code, standard output and files of the program, in a scratch directory',
 technique='exhaustive enumeration of option combinations running the real program in scratch directories, against the reports of the library', note='the harness builds bin/simple.rs itself'),
dict(id='U06', title='The picture tools render, colour and compare what they are given, or say so',
 statement='For every view, size and count of rays given on its command line, spict stores the picture of the scene in its input file, of the chosen size; sfalsecolor gives every pixel the colour of its luminance on the chosen map and scale, whose limits are those given or those of the picture; and scompare stores, or colours, the difference of each pixel; all these programs refuse, with a message, a failure code and no panic, inputs that are missing, unfinished or of different sizes and options that are not numbers. sfluxmtx gives a row for each sensor that it receives.',
 over=['configurations','inputs'], quant='all combinations of options, views (negative coordinates included), sizes, limits, maps and pictures of a grid',
 why='Each combination of options and picture is another output, and no test runs these programs.',
 files=['bin/spict.rs','bin/sfalsecolor.rs','bin/scompare.rs','bin/sfluxmtx.rs','rendering/src/image.rs','rendering/src/camera/pinhole.rs'], mech=[('programs','main of each'),('rendering','save_falsecolour, save_log_falsecolour, diff')], observe='exit code, messages and pictures of the programs, in a scratch directory',
 technique='exhaustive enumeration of command lines running the real programs, against an independent ray caster, colour scale and JPEG decoder', note='the harness builds the programs of bin/ itself, with the self-checks of the command line parser on'),
]
