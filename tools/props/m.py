PROPS=[
dict(id='M01', title='The state header holds what was pushed, in order, in its three parts',
 statement='For every history of pushes and takings of values, the header contains exactly the accepted elements in order with their values, counts personal and operational elements right, and is unchanged by a refused push. Copying one part of a state touches nothing else, and outputs are written and read back as the same element whatever the names.',
 over=['histories','inputs'], quant='all sequences of pushes of every kind of element; all names',
 why='A refused push in the middle of a history only shows in what comes after it.',
 files=['model/src/simulation_state.rs','model/src/simulation_state_element.rs','derive/src/simulation_state_behaviour.rs'], mech=[('push','SimulationStateHeader::push'),('parts','copy_physical_state, copy_operational_state, copy_individual_state'),('names','SimulationStateElement::stringify, Output')], observe='public API of the model crate',
 technique='exhaustive enumeration of all operation sequences up to depth 7 (10) on the real header against a list, and of all kinds of elements and special names', note=''),
dict(id='M02', title='Models survive being written and read, in JSON and in SIMPLE files',
 statement='For every kind of object with any combination of its optional fields, reading a model that contains it, from JSON or from a SIMPLE file, gives the same objects as were written, and writing and reading again changes nothing. The order in which collections or objects of different kinds appear in a file does not change the model that is read.',
 over=['inputs'], quant='all kinds of objects, optional fields, values of each field, pairs of kinds, orders of collections',
 why='Each field has its own reader and writer, and mistakes hide in the combinations and orders that no sample file contains.',
 files=['model/src/model.rs','model/src/scanner.rs','derive/src/object_struct.rs','derive/src/object_enum.rs','derive/src/field.rs'], mech=[('scanner','SimpleScanner'),('reading','Model::from_json, from_bytes'),('writing','Display for Model, print_to_json_file')], observe='public API of the model crate',
 technique='exhaustive enumeration of objects (all subsets of optional fields, all values of every field), pairs of kinds and orders of collections through the real readers and writers, compared as values', note='the limits of the json5 parser (raw line separators, integers above 1e16 in tagged enums) are not judged'),
dict(id='M03', title='Malformed model files are refused, never hung on, crashed by or half read',
 statement='Every sequence of tokens, truncation and mistyped version of a model file is either read completely or refused with an error: the reader ends, does not panic, and objects with unknown or wrong fields, broken references or malformed values are refused alike from JSON and SIMPLE files. Brackets, quotes and comment marks inside texts are text, and the line named by an error moves with the lines and comments before it.',
 over=['inputs'], quant='all token sequences up to a length, all cuts and single mistakes of files, all wrong values of all fields',
 why='There are endless ways to write a wrong file and a hang or half-read model shows with few of them.',
 files=['model/src/scanner.rs','model/src/model.rs','geometry/src/loop3d.rs','geometry/src/polygon3d.rs'], mech=[('scanner','SimpleScanner'),('validation','Model::from_json, from_bytes'),('vertices','Deserialize for Loop3D and Polygon3D')], observe='public API of the model crate',
 technique='exhaustive enumeration of token sequences, cuts, single-character mistakes and wrong values through the real readers under a watchdog, against an independent tokenizer', note='identifiers that are not a kind of object are skipped by the library (its own tests rely on it), and are not judged'),
dict(id='M04', title='A model is built by whole steps, each object linked to its own state',
 statement='For every sequence of additions to a model, an object that is refused leaves the objects, walls and state as they were, and one that is accepted is linked to its own element of the state and to no other. A window cuts its hole in its parent and inherits the boundaries of the side that it looks at.',
 over=['histories','inputs'], quant='all sequences of valid and invalid additions up to a depth; all wall and window orientations and boundaries',
 why='What a failed addition leaves behind only shows in later additions.',
 files=['model/src/model.rs','derive/src/object_struct.rs'], mech=[('additions','Model::add_surface, add_fenestration, add_hvac, add_luminaire, add_object'),('state','push_to_state, set_*_index, take_state')], observe='public API of the model crate',
 technique='exhaustive enumeration of all sequences of 24 operations up to depth 4 (5), from an empty model and from one with a wall, on the real Model against a list model', note=''),
dict(id='M05', title='A model answers what was put in it',
 statement='For every model, the floor area of a space is that of the floors below it without their holes, setpoints and location are those that were given, and the orientation of a surface is that of its normal, or of the side that is outside. Each state attached to a surface or window is its own element, is read and written there only, and attaching it again changes nothing.',
 over=['inputs','histories'], quant='all categories, boundaries and orientations of floors; all directions on a grid; all sequences of attachments',
 why='Sides and signs that are swapped cancel in models with one floor or one wall.',
 files=['model/src/model.rs','model/src/surface.rs','model/src/fenestration.rs','model/src/surface_trait.rs'], mech=[('sizes','Model::get_space_sizes'),('setpoints','Model::get_hvac_setpoints, geolocation'),('orientation','get_orientation, outside_orientation, inside_orientation'),('states','SurfaceTrait add_*_state and accessors')], observe='public API of the model crate',
 technique='exhaustive enumeration of one- and two-floor models, pairs of HVACs, directions and attachment sequences on the real code against independent answers', note=''),
]
