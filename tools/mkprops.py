#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

CB = ["vital/config/config_block.h", "vital/config/config_block.cxx"]
p("C01", "Configuration block is a faithful key/value store",
  "After any sequence of operations, a configuration block holds exactly the keys that were set and not since unset, and each lookup returns the text last assigned to the key with surrounding blanks removed, together with the last non-empty description given since the key was created. Looking up, describing or unsetting a key that is not present raises the documented no-such-value error and changes nothing, and the key listing, the presence query, the lookups and the recorded source location always agree with each other.",
  ["histories", "inputs"], "every finite sequence of set/unset/query operations over any keys, values and descriptions",
  "The tests walk a handful of fixed sequences of two or three operations; description retention, re-creation after unset and failure atomicity depend on the history.",
  CB, [("flat store keyed by full key, descriptions kept in parallel", "vital/config/config_block.cxx i_set_value/unset_value/get_description")],
  ["get_value", "has_value", "available_values", "get_description", "get_location"],
  [("m_store/m_descr_store/m_def_store", "values, descriptions and locations by key", "config_block.h")])
p("C02", "Read-only configuration values never change",
  "Once a key has been marked read-only, no later operation - setting it, unsetting it, merging another block over it, or doing any of these through any view that reaches the same entry, and marking it through such a view - changes its value, description or presence; every such attempt raises the documented read-only error. The read-only query answers true for exactly the marked keys, whichever view of the same block it is asked through, and keys that were not marked stay writable.",
  ["histories"], "every history of set/unset/mark/merge operations on a block and on any nesting of views of it",
  "Tests mark one key on a plain block and try one set and one unset; marks combined with views and merges are not exercised.",
  CB, [("read-only list consulted by every mutator", "vital/config/config_block.cxx i_set_value/unset_value/mark_read_only/is_read_only")],
  ["set_value", "unset_value", "merge_config", "is_read_only", "mark_read_only"],
  [("m_ro_list", "keys marked read-only", "config_block.h")])
p("C03", "Sub-block copies are independent, sub-block views are live",
  "A sub-block view shows exactly the entries of its parent below the given prefix (plus the block-global entries, under their unchanged names), and every change made through the view is immediately visible in the parent under the full key and vice versa, for any nesting of views. A sub-block copy holds those same entries at the moment it is taken, and afterwards neither the copy nor the original is affected by changes to the other; every key that a block, copy or view lists can be looked up through it.",
  ["histories", "inputs"], "every history of operations interleaved over a block, copies of its sub-blocks and nested views, with keys whose block names are prefixes of each other",
  "Tests check one level with one or two keys; aliasing of prefixes (a:, ab:, a:b:), nested views and block-global keys are not covered.",
  CB, [("views delegate to their parent with a prefixed key", "vital/config/config_block.cxx subblock_view/subblock/available_values/strip_block_name")],
  ["subblock", "subblock_view", "available_values", "get_value"])
p("C04", "Merging configurations overwrites, adds and preserves correctly",
  "Merging block B into block A leaves A with the union of their keys: keys in B get B's value and, where B's is non-empty, B's description; keys only in A and all of B are untouched, and read-only marks and recorded locations are not transferred. If a key present in both is read-only in A the merge raises the read-only error, and every key is then left with either its old value or B's value, the read-only one with its old value.",
  ["histories", "inputs"], "every pair of blocks (or views of blocks, including views of the same block) reachable by any history",
  "Tests merge two small disjoint/overlapping blocks once.",
  CB, [("merge iterates the source keys in order through the ordinary setter", "vital/config/config_block.cxx merge_config")],
  ["merge_config", "get_value", "get_description", "is_read_only"])
p("C05", "Typed configuration access converts exactly or reports failure",
  "Reading a value as a boolean yields true exactly for true/yes/1 and false exactly for false/no/0 in any letter case, reading it as an integer yields the decimal integer the text begins with when that fits the type, and reading as text yields the stored text; anything else raises the documented bad-conversion error. Reading with a default never raises: it yields the converted value when the key exists and converts, else the default; and an integer, boolean or text value that was stored by typed assignment reads back equal.",
  ["inputs"], "every stored text and every requested type among bool, int, unsigned, 64-bit integers and string, with and without default",
  "Tests try a few literals per type.",
  CB, [("conversion templates and the boolean specialisation", "vital/config/config_block.h config_block_get_value_cast; config_block.cxx")],
  ["get_value<T>", "get_value<T>(default)", "set_value<T>"])
PF = ["vital/config/config_parser.cxx", "vital/config/config_parser.h", "vital/config/config_block_io.cxx", "doc/config_file_format.md.dox"]
p("C06", "A well-formed configuration file yields exactly the entries it describes",
  "Reading a well-formed configuration file produces exactly the entries given by its assignments: each key is prefixed by the names of the enclosing blocks (which may nest, and be opened and closed across included files), comments, blank lines and surrounding blanks are ignored, an included file is found on the search path or relative to the including files and acts as if its lines stood in place of the include directive, and when a key is assigned more than once the last assignment wins. Entries flagged read-only are read-only in the result, relative-path entries are prefixed by the directory of the file they stand in, and each entry's recorded location is the file and line of its last assignment.",
  ["inputs", "programs"], "every tree of well-formed configuration files up to the explored size, with any mix of blocks, includes, comments, flags, relative paths and reassignments",
  "Tests read about ten fixed files.",
  PF, [("line tokenizer and block/include stacks", "vital/config/config_parser.cxx process_file/get_token/resolve_file_name")],
  ["read_config_file result", "get_location", "is_read_only"])
p("C07", "Macro references in configuration values expand to the defined text",
  "While reading a configuration file every reference of the form $TYPE{name} in an assigned value, a local definition or an include file name is replaced, left to right and once (substituted text is not expanded again), by the value the name has at that point of the file: the latest earlier local definition, the environment variable, the configuration entry of that full key assigned earlier, or the documented system property. An undefined name expands to nothing, a reference with an unknown type and any text that is not a reference are kept unchanged.",
  ["inputs", "programs"], "every value text, every placement of references and every history of definitions in the file",
  "Tests expand one reference of each kind.",
  ["vital/config/token_expander.cxx", "vital/config/token_type_symtab.cxx", "vital/config/token_type_config.cxx", "vital/config/token_type_env.cxx", "vital/config/token_type_sysenv.cxx", "vital/config/config_parser.cxx"],
  [("reference pattern scan with per-type providers", "vital/config/token_expander.cxx expand_token")], ["values in read_config_file result"])
p("C08", "Malformed configuration files are rejected as a whole",
  "Reading a configuration file that contains a syntax error anywhere - an unparsable line, a missing or misplaced operator, an unknown flag, a block directive without a name, an end-of-block without a block, or a block still open at the end of the main file - raises the parse error and yields no configuration, no matter what valid content surrounds it. A file or included file that does not exist, cannot be found, or is a directory raises the file-not-found error, an assignment to an entry already flagged read-only raises the read-only error, and a well-formed file raises nothing.",
  ["inputs", "programs"], "every file obtained from a well-formed file tree by inserting one or more malformed lines at any position or removing/duplicating structural lines",
  "Tests have one file per error kind, with the error in one place.",
  PF, [("latched parse error raised at end of main file; immediate errors for files and endblock", "vital/config/config_parser.cxx process_file")],
  ["exception type of read_config_file"])
p("C09", "A written configuration reads back identical",
  "Writing a configuration block to a file and reading that file back yields a block with exactly the same keys and values, for every block whose keys are representable as configuration keys and whose values contain no comment character, line break or macro reference, whatever the descriptions and block nesting are. Writing either completes, creating missing parent directories, or raises the documented error; in particular writing an empty configuration raises an error and a target that is a directory is refused.",
  ["inputs"], "every block over the file format's key alphabet and representable values, with arbitrary (also long, blank or multi-line) descriptions",
  "Tests write one block and read it back.",
  ["vital/config/config_block_io.cxx", "vital/config/config_parser.cxx"],
  [("writer emits keys in nested or flat form with descriptions as wrapped comments", "vital/config/config_block_io.cxx write_config_file/write_cb_descr")],
  ["write_config_file then read_config_file"])
p("C10", "Application configuration lookup honours the documented search order",
  "Looking up an application configuration file by name tries the documented directories in order - the directories listed in the KWIVER_CONFIG_PATH variable, then the version-specific before the unversioned per-user and system locations, then the prefix-relative location and finally the current directory - ignoring files that do not exist. Without merging, the result is exactly the first file found; with merging, it is the combination of all files found in which an entry from an earlier directory overrides the same entry from a later one; and when none is found the not-found error is raised.",
  ["configurations", "inputs"], "every subset of the candidate directories containing the file, with any overlap of entries, any setting of the variables that define the directories, merge on and off",
  "The merge behaviour is checked on one layout of fixed directories.",
  ["vital/config/config_block_io.cxx", "vital/config/config_block_io.h"],
  [("application_paths builds the list, read_config_file iterates it", "vital/config/config_block_io.cxx")],
  ["read_config_file(name, application, version, prefix, merge)"])
p("C11", "A track is always a strictly frame-ordered history",
  "However a track is built up, its states are in strictly increasing frame order; appending a state or another track succeeds exactly when its first frame is later than the current last frame, and otherwise returns failure and leaves the track unchanged. Size, emptiness, first and last frame, the set of all frames and the search for a given frame all answer according to exactly the states held: searching returns the state of that frame when there is one and the end position otherwise.",
  ["histories", "inputs"], "every sequence of state and track appends with any frame numbers, and every frame searched",
  "The tests only set and get a track id.",
  ["vital/types/track.h", "vital/types/track.cxx"],
  [("append checks against the last frame; binary search by frame", "vital/types/track.cxx append/find")],
  ["append", "find", "all_frame_ids", "first_frame", "last_frame", "size", "begin/end"])
p("C12", "Track-set queries answer according to the member tracks",
  "For every set of tracks and every frame number (a negative number counts back from one past the last frame, and denotes one past the last frame, where no track has a state, when it would lead below frame 0), the queries for active, inactive, new and terminated tracks, the per-frame features and descriptors, tracking percentage between two frames, first and last frame, all frame ids and lookup by track id return exactly the tracks (in set order), states or numbers that follow from the member tracks' states. Every member is active or inactive for a frame but never both, and queries never modify the set.",
  ["inputs", "histories"], "every track set with up to the explored number of tracks and frames, including empty tracks and sets, and every frame argument",
  "One test with four tracks and six queries.",
  ["vital/types/track_set.h", "vital/types/track_set.cxx"],
  [("linear scans over member tracks with offset_to_frame", "vital/types/track_set.cxx")],
  ["active_tracks", "inactive_tracks", "new_tracks", "terminated_tracks", "percentage_tracked", "first_frame", "last_frame", "all_frame_ids", "get_track", "frame_features", "frame_descriptors", "last_frame_features", "last_frame_descriptors"])
p("C13", "Track files round-trip and bad files are rejected",
  "Writing a track set to a track file and reading it back yields the same tracks that have states: the same ids and, for each, the same frame numbers with the same feature location, magnitude, scale, angle and colour, whatever the order in which the tracks were stored. Reading a missing path or a directory, or writing an empty track set or to a path that is a directory, raises the documented error, and content with a truncated line, an unparsable number or a colour out of range raises an error instead of producing made-up tracks.",
  ["inputs"], "every track set whose states carry features, including many tracks, negative or large ids and exactly representable coordinates; every malformed line kind",
  "No test covers track files.",
  ["vital/io/track_set_io.cxx", "vital/io/track_set_io.h"],
  [("one text line per state, grouped by track id on reading", "vital/io/track_set_io.cxx read_track_file/write_track_file")],
  ["write_track_file then read_track_file"])
p("C14", "Landmark and camera files round-trip and bad files are rejected",
  "Writing a landmark map to a PLY file and reading it back yields the same landmark ids with the same positions and colours, also for PLY files with properties in other orders or extra properties, and reading never takes more or fewer vertices than the header declares. Reading camera files for a list of image names yields exactly one camera, keyed by the image's position in the list, for each image that has a camera file, raising the documented error when none has; missing, unreadable or truncated files raise the documented errors. A camera written to a file reads back with the same intrinsics, rotation, translation and distortion.",
  ["inputs", "configurations"], "every landmark map and PLY header variation up to the explored size; every subset of images having camera files",
  "Tests read one camera file; PLY files and directories of camera files are untested.",
  ["vital/io/landmark_map_io.cxx", "vital/io/camera_map_io.cxx", "vital/io/camera_io.cxx"],
  [("header-driven vertex parser", "vital/io/landmark_map_io.cxx read_ply_file"), ("per-image camera file lookup", "vital/io/camera_map_io.cxx read_krtd_files")],
  ["read_ply_file", "write_ply_file", "read_krtd_files", "read_krtd_file", "write_krtd_file"])
p("C15", "Images alias or copy pixel memory exactly as documented",
  "Copying or assigning an image, or constructing a view over an existing image's memory, shares pixels: a write through one is seen at the corresponding pixel of every other view of the same memory and nowhere else, and the memory stays valid as long as any view of it exists. A deep copy stores the pixel values of the source in the target; where the dimensions of the target change, by copying or resizing, it gets its own memory, and later writes to either side never reach the other; accessors reject out-of-range coordinates with an error.",
  ["histories", "inputs"], "every history of create/assign/view/deep-copy/resize/write over several images with any small dimensions and strides (row/column/plane orders, negative strides)",
  "Tests check single constructions and copies, not histories over aliased views.",
  ["vital/types/image.h", "vital/types/image.cxx", "vital/types/image_container.h"],
  [("shared memory object plus first-pixel pointer and strides", "vital/types/image.cxx")],
  ["operator()", "at", "copy_from", "set_size", "copy construction"])
p("C16", "Whole-image operations visit every pixel exactly once",
  "Transforming an image applies the function exactly once to every pixel and stores each result in place of its argument, and copying pixels or comparing images for equality considers every pixel of every plane exactly once - for every dimension order, stride sign and gap in the memory layout and for empty and single-row images. Pixels outside the image in the same memory are never touched.",
  ["inputs"], "every image geometry (width, height, depth and distinct-pixel strides of any order and sign) up to the explored size",
  "Tests use a few fixed layouts.",
  ["vital/types/image.h", "vital/types/image.cxx"],
  [("dimension-order aware traversal", "vital/types/image.cxx transform_image, equal_content, copy_from")],
  ["transform_image", "equal_content", "copy_from"])
p("C17", "Timestamp comparison is a consistent order within a time domain",
  "Two timestamps are comparable exactly when they are in the same time domain and both have a valid time, or both have a valid frame; comparable timestamps are ordered by time when both times are valid and by frame otherwise, and exactly one of less, equal and greater holds for them with the derived comparisons agreeing, while incomparable timestamps compare false under every ordering. Validity, time, frame and domain read back exactly as last set or invalidated.",
  ["inputs", "histories"], "every pair of timestamps over all validity combinations, domains and value relations; every history of setters and invalidation",
  "Tests compare a few pairs.",
  ["vital/types/timestamp.h", "vital/types/timestamp.cxx"],
  [("comparison operators over validity flags and domains", "vital/types/timestamp.cxx")],
  ["operator==, !=, <, <=, >, >=", "is_valid", "has_valid_time", "has_valid_frame", "get_time_usec", "get_frame"])
AL = ["vital/algo/algorithm.h", "vital/algo/algorithm.cxx", "vital/algo/algorithm.txx", "vital/registrar.h", "vital/registrar.cxx"]
p("C18", "Algorithm registry creates exactly what was registered",
  "After any sequence of registrations, the registered names (all, or those of one algorithm type) are exactly the implementations registered so far, and asking for a registered implementation by name returns a fresh, independent instance of the implementation most recently registered under that type and name. Asking for any other name or type yields no instance and is reported as absent by the query functions, and registering nothing is refused.",
  ["histories", "inputs"], "every history of registrations over several algorithm types and names, and every create/query",
  "Tests register one or two algorithms once.",
  AL, [("map from type:name to prototype, cloned on creation", "vital/registrar.h, vital/algo/algorithm.txx create/registered_names")],
  ["register_instance", "registered_names", "has_impl_name", "create", "has_algorithm_type_name"])
p("C19", "Nested algorithm configuration selects, configures and reports faithfully",
  "Configuring a nested algorithm from a configuration block replaces the current algorithm exactly when the block names a registered implementation for it, passes that implementation exactly the entries of its own sub-block, and otherwise leaves the current algorithm and its settings untouched. Reporting a nested algorithm's configuration yields its selected implementation name and its full settings such that applying the report reproduces the same configuration; and the validity check answers true exactly when an implementation is named, registered and accepts its sub-block, at every nesting depth.",
  ["configurations", "inputs"], "every configuration block over nested algorithm slots up to the explored depth, with missing, unknown and valid implementation names and accepted or refused settings",
  "One test checks a few direct cases with a dummy algorithm.",
  AL, [("<name>:type selects; <name>:<impl> sub-block configures", "vital/algo/algorithm.cxx get/set/check_nested_algo_configuration")],
  ["set_nested_algo_configuration", "get_nested_algo_configuration", "check_nested_algo_configuration"])
p("C20", "Plugin loading registers exactly the valid modules, and only once",
  "Registering plugins makes available exactly the algorithms of those files on the search path that are loadable modules with the registration entry point; a file that cannot be loaded, lacks the entry point or whose registration reports failure is not counted as registered and affects neither the others nor the program, and a name filter restricts loading to the module of that name. Implicit loading happens at most once per process however many threads request it at once, and no requester proceeds before it has completed.",
  ["configurations", "schedules", "fault_sequences"], "every mix of good, failing, symbol-less and non-library files over several search directories, every filter, and concurrent first use by several threads",
  "No test loads a plugin.",
  ["vital/algorithm_plugin_manager.h", "vital/algorithm_plugin_manager.cxx"],
  [("directory scan with dynamic loading; guarded once-only flag", "vital/algorithm_plugin_manager.cxx")],
  ["register_plugins", "load_plugins_once", "registered_module_names", "algorithm::registered_names"])
LG = ["vital/logger/kwiver_logger_manager.cxx", "vital/logger/default_logger.cxx", "vital/logger/kwiver_logger.cxx", "vital/logger/kwiver_logger.h", "vital/logger/logger.h"]
p("C21", "A named logger is one object with a level threshold",
  "Every request for a logger with the same name, from any thread at any time, yields the same logger, and different names yield different loggers whose levels are independent. A message is emitted exactly when its severity is at or above the logger's current level, the level query and the per-severity enabled queries agree with the level last set, and the level names map one-to-one onto the severities.",
  ["histories", "schedules"], "every history of logger requests, level changes and messages over several names, and concurrent first requests from several threads",
  "Tests print some messages without checking them.",
  LG, [("name to logger map in the factory; per-logger level", "vital/logger/default_logger.cxx")],
  ["get_logger", "set_level", "get_level", "is_*_enabled", "log_*"])
p("C22", "Log output is complete, correctly labelled and never interleaved",
  "Every emitted message appears in the log exactly once, complete, with every line of a multi-line message carrying the same prefix of time of the call and severity name in front of its text, and with the source file name and line of the call when the message was logged through the location-aware interface; a location reports the file, path, line, method and class it was made from. When several threads log at the same time to the same or different loggers, the lines of one message are never split or interleaved with another's, and messages of one thread appear in the order issued.",
  ["schedules", "inputs"], "every message text (empty, multi-line, long) and every interleaving of several logging threads",
  "No test inspects the output.",
  LG + ["vital/logger/location_info.cxx"], [("formatting under one global lock", "vital/logger/default_logger.cxx log_message_i")],
  ["default logger's output stream"])
CBI = ["vital/bindings/c/helpers/c_utils.h", "vital/bindings/c/config_block.cxx", "vital/bindings/c/track.cxx", "vital/bindings/c/track_set.cxx", "vital/bindings/c/image.cxx", "vital/bindings/c/image_container.cxx", "vital/bindings/c/camera.cxx", "vital/bindings/c/camera_map.cxx", "vital/bindings/c/algorithm.cxx"]
p("C23", "C handles keep objects alive exactly until their last release",
  "An object obtained through the C interface stays usable through its handle until it has been destroyed as many times as it was handed out, also when it is meanwhile contained in another object, and a contained object stays valid for its container after its own handle is destroyed. Using a handle that is null, was never handed out or was already fully released is reported as an error; destroying such a handle has no effect on any object, and is reported as an error when it is null. No call sequence reads or writes memory outside live objects.",
  ["histories"], "every history of create/share/use/destroy calls over configuration, image, image container, track, track set, camera, camera map and algorithm handles, including double and stale destroys (plain image handles, which are raw pointers, only while they are live)",
  "There are no tests of the C interface here.",
  CBI, [("per-type cache of shared pointers with reference counts", "vital/bindings/c/helpers/c_utils.h SharedPointerCache")],
  ["C API return values and error handles"])
p("C24", "C calls report every failure through the error handle",
  "A C-interface call that takes an error handle leaves its code at zero exactly when it succeeded; when the underlying operation fails the call returns its documented failure value, the handle carries a non-zero code (the documented specific one where there is one) and the complete failure message, and no exception crosses the interface, also when no error handle is given. Strings and string lists handed out or in keep their exact content and length and can be freed by the provided functions.",
  ["inputs", "fault_sequences"], "every C entry point taking an error handle under success and each of its failure conditions, with messages and strings of any length, with and without a handle",
  "There are no tests of the C interface here.",
  CBI + ["vital/bindings/c/common.cxx", "vital/bindings/c/error_handle.cxx"], [("standard catch wrapper filling the error handle", "vital/bindings/c/helpers/c_utils.h STANDARD_CATCH/POPULATE_EH")],
  ["vital_error_handle_t", "vital_string_t", "string lists"])
p("C25", "The C configuration interface has the semantics of the native one",
  "Any sequence of configuration operations performed through the C interface - creating, setting, unsetting, typed and defaulted reading, descriptions, read-only marks, sub-blocks, views, merging, listing keys, reading and writing files - yields the same values, key lists and failures as the same sequence performed on a native configuration block. Objects reached through the C interface also have the native track, track set and image behaviour.",
  ["histories", "inputs"], "every history of C configuration calls over several blocks and views, compared step by step",
  "There are no tests of the C interface here.",
  ["vital/bindings/c/config_block.cxx", "vital/bindings/c/config_block.h", "vital/bindings/c/track.cxx", "vital/bindings/c/track_set.cxx", "vital/bindings/c/image.cxx"],
  [("thin forwarding functions", "vital/bindings/c/config_block.cxx")], ["C API return values"])
p("C26", "Frame-to-frame homographies compose and invert with matching frames",
  "Composing two frame-to-frame homographies succeeds exactly when the right operand's destination frame is the left operand's source frame, yields the matrix product mapping from the right's source to the left's destination, and otherwise raises the documented error; inverting swaps the frames and yields the inverse matrix, and copies are independent of the original. Chains of compositions over the same frames agree regardless of grouping.",
  ["inputs", "histories"], "every sequence of compositions and inversions over any frames with exactly representable matrices",
  "Tests invert one homography.",
  ["vital/types/homography_f2f.h", "vital/types/homography_f2f.cxx", "vital/types/homography_f2w.cxx", "vital/types/homography.cxx"],
  [("frame id check before multiplication", "vital/types/homography_f2f.cxx operator*")], ["operator*", "inverse", "from_id", "to_id", "homography()->matrix()"])
p("C27", "Sparse-matrix enumeration visits every stored cell exactly once",
  "Enumerating a sparse matrix visits exactly the stored cells, each once and in storage order, with the row, column and value of each cell, for every pattern of stored cells including empty, leading-, trailing- and all-empty rows or columns, for row- and column-major and for compressed and uncompressed matrices. Iterators compare equal exactly when they are at the same cell of the same matrix or both at the end.",
  ["inputs"], "every sparsity pattern up to the explored dimensions, both storage orders, compressed or not",
  "Tests enumerate six 5x5 patterns.",
  ["vital/util/enumerate_matrix.h"], [("outer/inner iterator pair that skips empty inner vectors", "vital/util/enumerate_matrix.h operator++")],
  ["enumerate(m)"])
p("C28", "String tokenizing loses and invents nothing",
  "Splitting a string on a set of delimiter characters yields, in order, exactly the maximal runs of non-delimiter characters (and, when empty elements are asked for, one element per gap between consecutive delimiters as documented), appended after whatever the output already held. It terminates for every string and delimiter set.",
  ["inputs"], "every string, delimiter set and trim option up to the explored lengths",
  "There is no test of it.",
  ["vital/util/tokenize.h"], [("find-first-of scan", "vital/util/tokenize.h")], ["tokenize"])
p("C29", "Interval timers follow the start/stop state machine",
  "A timer is active exactly from a start until the next stop, its elapsed time is zero before the first start, never decreases while it is active, is frozen while it is stopped, and restarting measures from the new start. What stopping a timer that is not running does to its elapsed time is left open. A scoped timer measures exactly its own lifetime and reports it once with its title.",
  ["histories"], "every sequence of start, stop, query and passage of time",
  "Tests walk one sequence per timer.",
  ["vital/util/timer.h", "vital/util/wall_timer.h.in", "vital/util/cpu_timer.h.in"], [("start/end stamps and active flag", "vital/util/wall_timer.h.in, cpu_timer.h.in")],
  ["is_active", "elapsed"])
p("C30", "Algorithm front-ends pass the right correspondences to implementations",
  "The convenience overloads of the estimation, filtering, optimisation and image input/output algorithms hand the implementation exactly the data they stand for: matched features in match order, landmark/camera pairs that share an id, per-camera feature/landmark pairs that share track and frame, and kept descriptors aligned with kept features. Inputs that do not exist or are missing raise the documented error before the implementation is called, and results are returned for exactly the given cameras.",
  ["inputs", "configurations"], "every combination of feature sets, matches, maps and tracks up to the explored size; every file-system situation for image input/output",
  "Only the similarity transform overloads are tested, on one scene.",
  ["vital/algo/optimize_cameras.cxx", "vital/algo/filter_features.cxx", "vital/algo/estimate_similarity_transform.cxx", "vital/algo/estimate_homography.cxx", "vital/algo/estimate_fundamental_matrix.cxx", "vital/algo/estimate_essential_matrix.cxx", "vital/algo/image_io.cxx"],
  [("front-end overloads call the pure virtual with extracted data", "vital/algo/*.cxx")], ["arguments received by a recording implementation"])
KW = "vital/kwiversys/"
p("C31", "Child-process control reports what the processes did",
  "Running a pipeline of commands delivers every byte the commands write to the captured outputs exactly once and in order and then reports the end of data, and the final state and exit value tell how the last process ended: normal exit with its code, abnormal termination, failure to start, expired timeout or killed on request. A timeout or kill ends all processes of the pipeline, waiting never returns before a final state is reached (or the given waiting time is over), and the object can be reused for further runs with the settings it was given.",
  ["histories", "schedules", "fault_sequences"], "every sequence of configure/execute/wait/kill calls over pipelines of commands that print, exit with any code, crash, hang or do not exist",
  "Nine scripted scenarios.",
  [KW + "ProcessUNIX.c", KW + "Process.h.in"], [("process state machine with pipes and signal pipe", KW + "ProcessUNIX.c")],
  ["kwsysProcess_GetState", "GetExitValue", "WaitForData", "WaitForExit"])
p("C32", "Path normalisation preserves meaning and is idempotent",
  "Collapsing a path against a base directory yields an absolute path without empty, current-directory or parent-directory components that denotes the same location by the lexical rules, and collapsing again changes nothing; splitting a path into components and joining them gives an equivalent path. The file-name helpers (directory part, name, extension, name without extension) partition every path consistently. The relative path from one absolute path to another leads from the one to the other, a path is reported to be below a directory exactly when it is by its components, and converting slashes keeps the location.",
  ["inputs"], "every path text over separators, dots and names up to the explored length, with any base directory",
  "Tests check a few fixed paths.",
  [KW + "SystemTools.cxx", KW + "SystemTools.hxx.in"], [("component splitting and dot-dot folding", KW + "SystemTools.cxx CollapseFullPath/SplitPath/JoinPath")],
  ["CollapseFullPath", "SplitPath", "JoinPath", "GetFilenamePath", "GetFilenameName", "GetFilenameExtension", "GetFilenameLastExtension", "GetFilenameWithoutExtension", "GetFilenameWithoutLastExtension"])
p("C33", "Command-line parsing assigns each argument to its option",
  "Parsing a command line gives every registered option exactly the values that its declared form (no value, attached, space- or equal-separated, or multiple values) takes from the line, leaves unmentioned options untouched, invokes callbacks in order of appearance with the right value, and keeps the arguments it did not understand and those after the last argument it consumed available in order. A missing value makes parsing report failure, and nothing outside the given arguments is read. The help text lists every option with the form it takes and all words of its help, within the line length set.",
  ["inputs", "configurations"], "every argument vector up to the explored length over a set of registered options of every form and type, including option names that are prefixes of each other",
  "Two fixed command lines.",
  [KW + "CommandLineArguments.cxx", KW + "CommandLineArguments.hxx.in"], [("longest-match option lookup and per-form value extraction", KW + "CommandLineArguments.cxx")],
  ["Parse", "variables and callbacks", "GetUnusedArguments", "GetRemainingArguments"])
p("C34", "Hash containers behave as the abstract set or map",
  "After any sequence of insertions, erasures (by key, position or range), lookups, copies, assignments, swaps, resizes and clears, the bundled hash sets and maps hold exactly the elements of the abstract (multi)set or (multi)map, iteration visits each element exactly once, and size, count, find and equal-range agree with it. Copies are independent.",
  ["histories"], "every operation sequence up to the explored length over keys that collide and keys that do not",
  "One scripted sequence.",
  [KW + "hashtable.hxx.in", KW + "hash_map.hxx.in", KW + "hash_set.hxx.in"], [("bucket lists with rehash on growth", KW + "hashtable.hxx.in")],
  ["hash_set", "hash_map", "hash_multiset", "hash_multimap"])
p("C35", "File-system helpers have exactly the stated effect",
  "Within a directory tree, the helpers that test, create, copy, compare and remove files and directories, list a directory, search for files and expand wildcard patterns return results that agree with the actual tree, change exactly the named targets, and report failure when they did not have the stated effect. A copy has the same content and permissions as its source, a source is never damaged by copying it, a removed directory is gone with everything below it and nothing else (what links lead to stays), and comparisons report a difference exactly when contents differ.",
  ["histories", "inputs"], "every sequence of helper calls on small trees of files, directories and links, with any of the names present or absent",
  "Only a few calls on fixed names; that test is not among the reliable ones.",
  [KW + "SystemTools.cxx", KW + "Directory.cxx", KW + "Glob.cxx"], [("thin wrappers over the operating system", KW + "SystemTools.cxx")],
  ["FileExists", "FileIsDirectory", "MakeDirectory", "CopyFileAlways", "CopyFileIfDifferent", "FilesDiffer", "RemoveFile", "RemoveADirectory", "FindFile", "Directory::Load", "Glob::FindFiles"])
p("C36", "Covariance storage is a faithful symmetric matrix",
  "A covariance object built from a matrix, a scalar or another covariance (also of another number type) holds the symmetric matrix obtained by averaging opposite elements: reading element (i,j) equals reading (j,i), writing one changes both and nothing else, and converting back to a full matrix yields exactly the stored elements. Copies and conversions preserve every element.",
  ["inputs", "histories"], "every matrix with exactly representable elements, every sequence of element writes, copies and conversions for 2x2, 3x3 (and larger) covariances",
  "There is no test of it.",
  ["vital/types/covariance.h"], [("packed triangular storage", "vital/types/covariance.h vector_index")], ["operator()", "matrix conversion", "converting constructors"])
p("C37", "Configuration files can be read concurrently",
  "When several threads read configuration files at the same time, each obtains exactly the result it would obtain alone, and no call affects another's result or the program's integrity.",
  ["schedules"], "every interleaving of several concurrent reads of different files with macros, flags and includes",
  "Tests are single-threaded.",
  ["vital/config/config_parser.cxx", "vital/config/token_expander.cxx"], [("per-parser state", "vital/config/config_parser.cxx")], ["read_config_file"])
p("C38", "Value types survive their text form and copies are independent",
  "Colours, features, landmarks, timestamps in configuration values, geographic points and descriptors keep all their attributes through copying and through conversion between precisions, and writing one to text and reading it back restores the attributes the text form carries, leaving the object unchanged otherwise. Changing a copy never changes the original.",
  ["inputs", "histories"], "every combination of exactly representable attribute values and every sequence of setters, copies and text round trips",
  "Feature, landmark, colour, descriptor and geographic types have no tests.",
  ["vital/types/color.h", "vital/types/feature.cxx", "vital/types/landmark.cxx", "vital/types/geo_lat_lon.cxx", "vital/types/descriptor.h", "vital/types/timestamp_config.h"],
  [("stream operators and member-wise copies", "vital/types/*.cxx")], ["operator<<, operator>>, getters"])
p("C39", "Geometric transforms satisfy their algebra up to rounding",
  "Rotations, similarities, cameras, intrinsics, homographies, essential and fundamental matrices satisfy their defining algebraic laws - inverse undoes, composition associates, conversions between representations agree, projection followed by back-projection returns the ray, distortion followed by undistortion is the identity - within floating-point tolerance, for all valid parameters.",
  ["inputs", "histories"], "every history of constructions, compositions, inversions, conversions, projections and round trips over exactly representable (rational) parameter values up to the explored size, including angles near zero and near half a turn and scales far from one",
  "Tests sample a few parameter values and compare with a tolerance of their own; wrong orders of composition, signs, conventions at special angles and lost members show only for some combinations.",
  ["vital/types/rotation.cxx", "vital/types/similarity.cxx", "vital/types/camera.cxx", "vital/types/camera_intrinsics.cxx", "vital/types/homography.cxx", "vital/types/essential_matrix.cxx", "vital/types/fundamental_matrix.cxx"],
  [("closed-form numeric code", "vital/types")], ["numeric results"])
p("C40", "Encodings invert and match their published definitions",
  "Base64 encoding of any byte string is the standard encoding, and decoding it gives back exactly the original bytes, with decoding of any other text ending at the first invalid position without reading or writing outside the given buffers.",
  ["inputs"], "every byte string up to the explored length, every text over the base64 alphabet, padding and invalid characters",
  "The base64 test encodes and decodes a few strings and is of the bundled library's smoke type.",
  [KW + "Base64.c"], [("three-byte groups", KW + "Base64.c")], ["kwsysBase64_Encode", "kwsysBase64_Decode"])
p("C41", "Regular-expression matching finds the pattern exactly when it occurs",
  "Compiling a well-formed pattern succeeds, searching a text reports a match exactly when some part of the text is in the language of the pattern, the reported match is the leftmost one in which repetitions take as much as they can and alternatives are tried in order, and captured groups are the parts of it that the groups matched last; patterns that are not well-formed are rejected without harm. Repeated searches and copies of the compiled expression give the same answers.",
  ["inputs"], "every pattern over characters, classes, anchors, groups, alternation and repetition up to the explored size, every text up to the explored length",
  "A few patterns are used indirectly.",
  [KW + "RegularExpression.cxx", KW + "RegularExpression.hxx.in"], [("compiled program with backtracking matcher", KW + "RegularExpression.cxx")], ["compile", "find", "start", "end", "match"])

p("C42", "Text helpers and parsing of command lines, lines, dates do what they say",
  "Replacing works from left to right without overlap; changes of case, removal, replacement and escaping of characters, prefix, suffix and last-occurrence search, case-insensitive comparison, joining and cropping give exactly the text their descriptions give; splitting keeps every component, also empty ones. A command line is parsed into the arguments a Unix shell's quoting would give, whatever its length. Reading a stream line by line gives every line once, complete, without its line ending, and no more than the limit asked for. The estimated length of formatted output is never below the real one. Texts that are dates or time stamps are converted to that time and others are rejected. The process environment reads back what was put into it. A program is separated from its arguments at the longest existing prefix.",
  ["inputs", "histories"], "every short command line, stream, replacement and cut over the special characters; sampled texts with lengths around the internal buffers, formats with up to four arguments, dates, environments",
  "Almost no test covers these helpers.",
  [KW + "SystemTools.cxx", KW + "System.c", KW + "String.hxx.in"], [("command lines, lines, formats", KW + "SystemTools.cxx"), ("quoting", KW + "System.c")], ["ReplaceString", "SplitString", "ParseCommandForUnix", "GetLineFromStream", "EstimateFormatLength", "PutEnv"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
