#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/properties.py writes it)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


p("C01", "A property tree is an ordered labelled tree under every sequence of edits",
  "After any sequence of edits (set, add, insert, append, merge, erase, queries that create nodes), a property tree equals "
  "the ordered labelled tree those edits describe: keys may repeat, lookups by key find the first match, lookups by path "
  "follow delimited components where '#n' names the n-th child when no child has that literal key, and merging keeps or "
  "overwrites values as requested. Lookups that fail report it and change nothing; counts, equality, parent search and recursive search agree with that tree.",
  ["histories", "inputs"], "every sequence of edit and lookup calls on a tree, every key, path and value",
  "the tests run a handful of fixed edits on one small tree; repeated keys, empty keys, '#n' paths, merges of overlapping trees and erase-by-path in combination are not sampled",
  ["xo/container/prop_node.h", "xo/container/prop_node.cpp", "xo/container/prop_node_tools.cpp"],
  [("ordered child vector and first-match lookup", "xo/container/prop_node.cpp"), ("query path walk", "xo/container/prop_node.cpp try_get_query / get_or_add_query"), ("merge", "xo/container/prop_node.cpp merge")],
  [("value, children", "value and ordered (key, node) list of each node", "xo/container/prop_node.h")])

p("C02", "Unread settings are reported exactly: access tracking",
  "A node that has a value counts as unaccessed until its value is read through a reading call, its children are iterated or its flag is set explicitly; "
  "structural lookups, peeking and edits do not mark it, and reading one node never marks another. The number and the listing of unaccessed entries of a tree name exactly the nodes with a value that were never read.",
  ["histories"], "every interleaving of reads, peeks, iterations, copies and edits on a tree",
  "no test counts unaccessed entries after mixed sequences of reads; a flag set too eagerly silently hides ignored user settings",
  ["xo/container/prop_node.h", "xo/container/prop_node.cpp", "xo/container/prop_node_tools.cpp"],
  [("accessed flag", "xo/container/prop_node.h access / get_str / begin"), ("count and report", "xo/container/prop_node.cpp count_unaccessed, prop_node_tools.cpp to_str_unaccessed")])

p("C03", "ZML text written by the library reads back as the same tree",
  "For every property tree that ZML can denote, writing it in any layout (pretty, concise, to a file) and reading the text back gives an equal tree in which nothing counts as accessed, whatever other characters the keys and values contain. "
  "ZML denotes: a root group without a value of its own; groups, whose children all have a non-empty key not starting with '$'; arrays, whose children are all unkeyed and are values, groups or arrays; values that are not references or macros ('@..', '$..', text containing '${').",
  ["inputs", "configurations"], "every tree within that domain (any key and value bytes, nested groups, arrays, empty nodes), pretty, concise and file layouts",
  "the test writes and reads one benign tree; quoting of special characters and the layouts' branches multiply beyond samples",
  ["xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/char_stream.cpp", "xo/string/string_tools.cpp"],
  [("write_element", "xo/serialization/prop_node_serializer_zml.cpp"), ("quoting", "xo/string/string_tools.cpp try_quoted"), ("tokenizer", "xo/serialization/char_stream.cpp get_token")])

p("C04", "Every ZML text parses to the tree its grammar defines, or fails cleanly",
  "Parsing any text either yields exactly the tree that the ZML grammar assigns to it (groups, arrays, quoted and bare tokens, comments, macro definitions with innermost-scope lookup, references) or reports an error; it never hangs, crashes, or returns a different tree. "
  "Nesting is bounded only by the stack. With an error object the failure is reported in that object and no exception escapes, without one an exception is thrown.",
  ["inputs"], "every text over the grammar's token alphabet, well-formed or not",
  "the test parses one file that happens to be well formed; malformed nesting, macro shadowing and comment placement are unsampled",
  ["xo/serialization/prop_node_serializer_zml.cpp", "xo/serialization/char_stream.cpp"],
  [("recursive descent reader", "xo/serialization/prop_node_serializer_zml.cpp"), ("macro scopes", "xo/serialization/prop_node_serializer_zml.cpp"), ("tokenizer", "xo/serialization/char_stream.cpp")])

p("C05", "INI and XML text read and write the tree they denote",
  "Reading INI text gives the groups and key = value entries it lists, in order (entries before the first group stand on their own, ; starts a comment line, and a key that occurs again in a group replaces its value), and writing a tree of entries and groups as INI and reading it back gives that tree, entries that stand on their own first. Reading XML gives one node per element and per attribute with its text, in order, and a tree written as XML, in which nodes have either a text or children, reads back equal, whatever the characters of its texts. Malformed text is reported as an error, through the error code when there is one and an exception otherwise, and never returned as a partial success.",
  ["inputs", "configurations"], "every INI or XML text over a small alphabet, every tree within each format's domain, every INI comment and section setting",
  "the tests round-trip one tree per format",
  ["xo/serialization/prop_node_serializer_ini.cpp", "xo/serialization/prop_node_serializer_xml.cpp"],
  [("INI line reader/writer", "xo/serialization/prop_node_serializer_ini.cpp"), ("XML via rapidxml", "xo/serialization/prop_node_serializer_xml.cpp")])

p("C06", "Include directives splice files in place, and cycles are an error",
  "Loading a file with includes gives the tree in which every include directive is replaced, in place and recursively, by the content of the file it names, resolved relative to the including file, with merge directives applied as written; the files that were included are listed. A missing file, a folder, malformed text in an included file, a directive without a file name, an included file with other than one top level node where one is required, an include cycle and a chain of 100 or more includes are reported as errors; loading always terminates.",
  ["inputs", "configurations", "fault_sequences"], "every small graph of files that include each other, missing files and cycles included",
  "no test loads a file that includes another",
  ["xo/serialization/serialize.cpp", "xo/container/prop_node_tools.cpp", "xo/serialization/prop_node_serializer_zml.cpp"],
  [("include expansion", "xo/serialization/serialize.cpp load_file_with_include"), ("ZML include", "xo/serialization/prop_node_serializer_zml.cpp")])

p("C07", "Settings keep only valid values and survive save and load",
  "A settings store returns, for every key its schema declares, the last value that was successfully set or loaded, or else its default, and never a value outside the declared type, choice list or range: a value that is not of the type or not among the choices, or not a number where a range is declared, is refused and changes nothing, a number outside the range is limited to the nearer bound, and an empty value or the default itself gives back the default. Reading an undeclared key is an error, setting one is refused. Saving and then loading reproduces every value and the version; entries in a file that are undeclared or invalid are skipped, a missing file gives the defaults and is created, a file that cannot be parsed and one that cannot be written are reported as errors, the first leaving the values as they were.",
  ["histories", "configurations", "fault_sequences"], "every schema of a few declared keys, every sequence of set, get, load and save, every stored file",
  "settings are not exercised by any test",
  ["xo/system/settings.cpp", "xo/system/settings.h"],
  [("schema validation", "xo/system/settings.cpp"), ("load/save", "xo/system/settings.cpp")])

p("C08", "Sorted and insertion-ordered containers are the maps and sets they denote",
  "After any sequence of insertions, erasures and lookups, a flat map or flat set holds each key once in ascending order with the value last stored, a sorted vector holds all inserted elements in order, an indexed map keeps insertion order with one entry per inserted key, and an indexed set gives every value a stable, dense index. Lookup, bounds, counts and insertion results agree with that content for mutable and const access alike.",
  ["histories", "inputs"], "every sequence of operations over a small key set, every initial list",
  "tests insert a few keys in one order",
  ["xo/container/flat_map.h", "xo/container/flat_set.h", "xo/container/sorted_vector.h", "xo/container/indexed_map.h", "xo/container/indexed_set.h"],
  [("binary-search insertion", "xo/container/flat_map.h insert"), ("sorted insertion", "xo/container/sorted_vector.h"), ("index assignment", "xo/container/indexed_set.h get_or_add")])

p("C09", "Ring containers never lose or reorder elements",
  "A circular deque behaves as a double-ended queue under every sequence of pushes and pops at both ends, also when it grows while wrapped around, and gives the same elements by index, iteration, front and back, mutable or const. A circular buffer returns written frames unchanged and oldest first, keeping the most recent frames up to its capacity.",
  ["histories"], "every sequence of operations, initial capacity and wrap position",
  "the test pushes and pops from one side at one capacity; the wrap and growth positions multiply",
  ["xo/container/circular_deque.h", "xo/container/circular_buffer.h"],
  [("ring arithmetic and growth", "xo/container/circular_deque.h push_back/push_front/reserve"), ("frame offsets", "xo/container/circular_buffer.h advance")])

p("C10", "Tables keep every labelled cell through growth, and text output reads back",
  "In tables and multichannel storage every cell keeps its value when rows, frames, columns or channels are added or the grid is resized, all new cells get the given default, and every label (also those given to a constructor or replaced later) finds exactly the row or column it belongs to; shrinking, unknown labels and duplicate labels are refused without changing anything. A storage or table written as text reads back with the same labels and values; a file storage writes that text when it is destroyed, and debug output starts a new frame exactly when a channel is written again. Frame interpolation, nearest-frame search in a sorted channel, channel means and covariances are those of the stored values.",
  ["histories", "inputs"], "every sequence of growth, labelling and cell writes on small tables; every small storage written and read",
  "one table test adds a few labels; growth in combination and re-labelling are unsampled",
  ["xo/container/table.h", "xo/container/storage.h", "xo/container/label_vector.h", "xo/container/storage_tools.h"],
  [("label index", "xo/container/label_vector.h"), ("re-layout on growth", "xo/container/table.h resize, storage.h add_channel")])

p("C11", "Factories create exactly the registered type, and refuse everything else",
  "A name can be registered once: registering it again is refused and keeps the first type until the name is unregistered. Creating a registered name makes a new object of its type with the given arguments; an unknown name throws on create and unregister and gives null on try_create. A factory reports exactly its registered names, in name order; a registrant's type is registered for exactly its lifetime; lookups and creations never change it.",
  ["histories"], "every sequence of registrations and creations over a small name set",
  "the test registers a few types once",
  ["xo/utility/factory.h"],
  [("name to creator map", "xo/utility/factory.h")])

p("C12", "Every log message reaches each interested sink exactly once, whole, and no other",
  "A message logged at a level is delivered once, complete and in logging order per thread, to every sink that is registered, whose level admits it and whose thread rule admits the caller while it is logged, and to no sink that is never so while it is logged; whatever other threads log, and whatever they change about other sinks, meanwhile. A sink is not called any more once its removal has returned. Adding, removing or re-levelling a sink takes effect for every later message and level test, and changes nothing else. Error and critical messages flush the sinks. Stream, file and console sinks write each message as whole lines of its own.",
  ["schedules", "histories"], "every sequence of sink registration, level changes and messages, every interleaving of logging threads",
  "the log test prints; it checks neither delivery nor concurrency",
  ["xo/system/log.cpp", "xo/system/log.h", "xo/system/log_sink.cpp", "xo/system/log_sink.h"],
  [("global sink list and lowest level", "xo/system/log.cpp"), ("sink level and thread filter", "xo/system/log_sink.cpp")])

p("C13", "A file resource cache never serves a stale or half-made resource",
  "A file resource cache answers a request with a whole private copy of the resource made from the file as it is at that request, except that changes may go unnoticed for up to 3 seconds after the file was last checked and while the modification time (in seconds) stays the same; a resource is made once per such version of its file, also when several threads ask at once, and never while it is not needed. A missing file or failed creation is reported to the caller, is never served, and is tried again at the next request. Every request returns, whatever other requests and file changes happen meanwhile.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of requests, file changes and creation failures over a few files and threads",
  "no test touches the cache",
  ["xo/utility/file_resource_cache.h"],
  [("time stamp comparison under a lock", "xo/utility/file_resource_cache.h")])

p("C14", "Memoized functions compute each argument once and return that result",
  "A memoized function returns for every argument the result of the wrapped function, which completes at most once per argument: later and concurrent calls with the same argument return that same result, by a reference that stays valid and unchanged, and size() counts the remembered results. A call that throws reports it to its caller only and is not remembered. The thread-safe variant guarantees this, and that every call returns, for every interleaving of callers; its wrapped function may not call it recursively, that of the plain variant may.",
  ["schedules", "histories"], "every interleaving of callers over a few arguments, including recursive and throwing functions",
  "the timing test memoizes one function in one thread",
  ["xo/utility/memoize.h"],
  [("result map (and lock)", "xo/utility/memoize.h")])

p("C15", "Profiler call trees attribute every interval to the right section",
  "For sections entered and left in nested order by one thread, the profiler keeps one section per distinct call path (section labels on a path), counts how often it was left and adds up exactly the time spent in it, so that the time of a section covers that of its subsections and its exclusive time is the difference; a report shows total time, percentage, exclusive percentage, count and average of each section, subsections only where the section reaches the given minimum percentage, longest first, with level tags by exclusive share when asked. Starting again forgets everything from before; starting while running, and stopping or reporting while inside a section, are refused and change nothing; a report before the first start is empty.",
  ["histories"], "every properly nested sequence of section enters and exits with arbitrary durations, including recursion and repeated sections under different parents",
  "no test checks the profiler's numbers",
  ["xo/system/profiler.cpp", "xo/system/profiler.h"],
  [("section tree and current section", "xo/system/profiler.cpp")])

p("C16", "Timers and stopwatches add up exactly the running intervals",
  "A timer reports exactly the total time it was running, for every order of start, pause, resume, restart, reset to a given time, copying and scoped use, including repeating any of them; a stopwatch attributes to each named split the time since the previous one; an interval checker fires exactly when its interval has passed since it last fired; times convert between seconds, milliseconds and nanoseconds without losing anything the target can represent, negative ones included, and print as the time they are.",
  ["histories"], "every sequence of control calls with arbitrary elapsed times between them",
  "the timer test sleeps once; repeated pause or resume is not exercised",
  ["xo/time/timer.cpp", "xo/time/timer.h", "xo/time/stopwatch.cpp", "xo/time/interval_checker.h"],
  [("epoch and accumulated ticks", "xo/time/timer.cpp"), ("split times", "xo/time/stopwatch.cpp")])

p("C17", "Handles and indices reach the element they denote",
  "A handle or index denotes a position in its container: it reaches exactly the element at that position for as long as nothing before it is erased, is reported as contained exactly while that element exists, and equals the handle any lookup of that element returns. Erasing elements removes those only, keeps the others in order, and update_moved_handle makes every handle of a later element follow it to its new position. An index outside the range of its index type is invalid, never another index.",
  ["histories"], "every sequence of insert, erase and lookup on collections of a few elements",
  "tests insert and erase once",
  ["xo/utility/handle.h", "xo/container/handle_vector.h", "xo/container/collection.h", "xo/container/collection_ic.h", "xo/utility/index.h"],
  [("slot allocation", "xo/container/handle_vector.h"), ("id counters", "xo/container/collection.h")])

p("C18", "Quoting is lossless and tokens are split exactly at their delimiters",
  "For every string, quoting it and unquoting the result returns the string; the tokenizer splits any text into exactly the tokens, quoted strings and numbers its delimiters and comment markers define, reports the end of the text precisely, and always terminates.",
  ["inputs"], "every byte string over a small alphabet of special characters, every split into tokens",
  "the tests quote a few plain words",
  ["xo/serialization/char_stream.cpp", "xo/serialization/char_stream.h", "xo/string/string_tools.cpp"],
  [("escape tables", "xo/string/string_tools.cpp encode_char/decode_char"), ("get_token", "xo/serialization/char_stream.cpp")])

p("C19", "Path operations obey path algebra",
  "For every path text, its parent and file name join to a path with the same components and the same root, its stem followed by its extension is its file name, and the extension never comes from a folder name; replacing or adding an extension, stem or file name changes only that part; joining appends the components of the second path to those of the first; and the preferred form, emptiness, root and absolute/relative tests agree with the characters of the path.",
  ["inputs"], "every path string over a small alphabet of names, dots and both separators",
  "tests check a few literal paths",
  ["xo/filesystem/path.h", "xo/filesystem/path.cpp"],
  [("separator and dot search", "xo/filesystem/path.cpp")])

p("C20", "File-system helpers act on exactly the files they name",
  "Finding or creating a unique folder never yields a name that exists (also when several threads create at the same time) and takes the first free one; file search returns the first candidate, in search order, that is an existing file, relative names being looked up in the calling thread's find-file folder or in the given folders; listing returns exactly the entries that match the include patterns and no exclude pattern, down to the given depth; creating folders, copying, removing, saving, appending and loading change or return exactly the named path and report truthfully whether they succeeded, including when the target exists, is of another kind, or writing fails.",
  ["histories", "fault_sequences"], "every sequence of helper calls on a small directory tree, including missing and pre-existing targets",
  "no test runs the helpers against a directory tree with collisions",
  ["xo/filesystem/filesystem.cpp", "xo/filesystem/filesystem.h"],
  [("existence checks and retries", "xo/filesystem/filesystem.cpp")])

p("C21", "The test framework reports a pass only if every check passed",
  "A test case succeeds exactly when every check that ran in it held and nothing was thrown from it, whatever was thrown; it is reported as passed when it also ran at least one check. Running it again starts from zero. A whole run, one case after another or all at once, runs every registered case exactly once except those that are skipped, goes on after a case fails or throws, and its result is the number of cases that failed; the exit code of a test program is zero exactly when no case failed.",
  ["histories"], "every combination of passing, failing, throwing and empty cases, run in every way",
  "a test framework cannot judge itself: its own tests only show the passing path",
  ["xo/system/test_case.h", "xo/system/test_case.cpp", "xo/system/test_main.h"],
  [("per-case counters", "xo/system/test_case.cpp")])

p("C22", "Stop requests reach every holder and interrupt exactly their target",
  "Once a stop is requested from a source, every token and every copy of that source reports it from then on, in every thread, and no token of another source does; a token keeps doing so after its source is gone, copied or moved, and a token without a source never reports a stop. An interruptible object that is interrupted, from any thread, reports it from then on, and no other object does.",
  ["schedules", "histories"], "every interleaving of requests, token copies and checks over a few sources and threads",
  "no test exercises stop tokens or interruption",
  ["xo/thread/stop_token.h", "xo/thread/interruptible.h", "xo/thread/interruptible.cpp"],
  [("shared stop state", "xo/thread/stop_token.h"), ("per-thread interrupt flag", "xo/thread/interruptible.cpp")])

p("C23", "Version numbers are totally ordered and survive conversion to text",
  "Comparing versions orders them by major, minor, patch and then build, where a version without a build number matches every build: of any two versions exactly one of <, == and > holds, swapping them swaps < and >, versions with build numbers are totally ordered, and all comparison operators and the at-least and below tests agree. Converting any version, with or without build number and postfix, to text and back gives the same version, and text that does not start with three dotted numbers is refused.",
  ["inputs"], "every pair and triple of versions with small components, with and without build and postfix",
  "no test compares versions",
  ["xo/system/version.h"],
  [("lexicographic compare", "xo/system/version.h"), ("to_str / from_str", "xo/system/version.h")])

p("C24", "Command lines parse to the options and arguments they spell",
  "Every command line is split into exactly the words it has: a word that starts with a dash is an option named by what follows its dashes, the first option with a name is the one found, its value is the next word unless that is an option, and the words before the first option are the positional arguments; lookups of absent options and arguments return the given default. Converted to a property tree a command line gives one entry per option (its name after the first dash), in order and repeated when repeated, with its value, and its other words set the unnamed entry, the last one staying.",
  ["inputs"], "every short command line over a small alphabet of dashes, equals signs and words",
  "no test parses a command line",
  ["xo/utility/arg_parser.h", "xo/container/prop_node_tools.cpp"],
  [("argument classification", "xo/utility/arg_parser.h")])

p("C25", "String tools agree with their definitions on every string",
  "Splitting, trimming, searching, replacing, case changes, prefix/suffix tests and wildcard matching return for every input exactly what their definitions say: split parts are the maximal runs of non-separators in order; a split at the first or last separator returns the two sides; trimming removes exactly the leading and trailing trim characters; "
  "replacing substitutes the leftmost non-overlapping occurrences; the n-th occurrence is the n-th position at which the text occurs; left and right parts are limited to the string; joining skips empty parts; formatted text is complete; integers and booleans written as text read back equal; "
  "and a pattern matches exactly the strings it denotes (*, ?, [set], [!set]; a ';'-separated list matches if one of its patterns does).",
  ["inputs"], "every string and pattern up to a small length over a small alphabet",
  "tests check one example per function; empty parts, repeated delimiters and first-position matches are unsampled",
  ["xo/string/string_tools.cpp", "xo/string/string_tools.h", "xo/string/pattern_matcher.h"],
  [("tokenizing and trimming", "xo/string/string_tools.cpp"), ("wildcard matcher", "xo/string/string_tools.cpp pattern_match")])

p("C26", "Incremental helpers report exactly what their update history implies",
  "Cached values are recomputed exactly when they have been invalidated, change detectors, running averages and delay lines reflect exactly the samples they were given, integer and floating point ranges and filtered or zipped views visit exactly the elements they denote in order and report that size, optional values, results and typed indices are present exactly when set and keep what was set, bounded values and intervals never leave or misjudge their bounds, and functions given by points go through the points they were last given, whatever the order.",
  ["histories"], "every sequence of updates and reads, every small range and predicate",
  "each helper has at most one straight-line test",
  ["xo/utility/cached_var.h", "xo/numerical/delta.h", "xo/numerical/average.h", "xo/utility/irange.h", "xo/utility/frange.h", "xo/container/view_if.h", "xo/container/zip.h", "xo/utility/optional.h", "xo/utility/result.h", "xo/utility/index.h", "xo/numerical/delayer.h", "xo/numerical/bounds.h", "xo/numerical/bounded.h", "xo/numerical/piecewise_constant_function.h", "xo/numerical/piecewise_linear_function.h", "xo/numerical/regular_piecewise_linear_function.h"],
  [("dirty flags", "xo/utility/cached_var.h"), ("iterators", "xo/utility/irange.h, xo/container/view_if.h, xo/container/zip.h")])

p("C27", "Geometry computes the exact rotations, transforms and vectors",
  "Vector, quaternion, matrix, Euler angle, transform, mirroring and angle functions compute the mathematically exact result within floating-point tolerance: rotations keep lengths and angles, pitch, yaw and roll are those of the rotation, products apply one rotation after the other, an inverse undoes its rotation, transform or scale, conversions between quaternions, matrices, Euler angles, axes and text describe the same rotation, and units of angle convert exactly.",
  ["inputs"], "every rotation, vector, order of Euler angles and composition, in particular opposite directions, right angles and lengths other than one",
  "tests sample a few random rotations of one kind",
  ["xo/geometry/quat.h", "xo/geometry/vec3.h", "xo/geometry/vec4.h", "xo/geometry/dynvec.h", "xo/geometry/dynmat.h", "xo/geometry/mat33.h", "xo/geometry/transform.h", "xo/geometry/mirror_tools.h", "xo/geometry/angle_type.h", "xo/geometry/scale3.h"],
  [("rotations", "xo/geometry/quat.h"), ("transforms", "xo/geometry/transform.h, mirror_tools.h")])

p("C28", "Numerical functions give the mathematically defined result",
  "Scalar helpers, wrapping, waves, clamping, rounding, comparison with tolerance, digit counts, polynomials, interpolation and splines, statistics and medians, regression and covariance, distances of points, lines and segments, lengths and positions of paths, filters, the fast arc cosine, tables of a function and seeded random numbers give for every input, in float and double, exactly the result their mathematical definition gives, within rounding: wrapped values lie in the range and differ from the input by whole periods, clamped values lie within the bounds (a bound that is not given does not limit), splines go through their points, a filter's output is the solution of its difference equation for the samples it was given, and generators with the same seed give the same numbers, all within the limits asked for.",
  ["inputs"], "every small fraction, sequence of samples, set of points and order of them, in particular negative values, multiples of the period and limits of ranges",
  "tests sample a few filters and interpolations",
  ["xo/numerical/math.h", "xo/numerical/interpolation.h", "xo/numerical/polynomial.h", "xo/numerical/regression.h", "xo/numerical/filter.h", "xo/numerical/filter_1st_order.h", "xo/numerical/compare.h", "xo/numerical/functions.h", "xo/numerical/function_tools.h", "xo/numerical/random.h", "xo/numerical/bounds.h", "xo/container/container_algorithms.h", "xo/utility/data_algorithms.h", "xo/geometry/catmull_rom.h", "xo/geometry/path_alg.h", "xo/geometry/segment.h", "xo/geometry/line.h"],
  [("scalar functions", "xo/numerical/math.h"), ("statistics", "xo/container/container_algorithms.h"), ("filters", "xo/numerical/filter.h")])

p("C29", "Shapes and colours have the measures and channels that geometry gives",
  "For every sphere, box, cylinder, capsule, cone and plane: volume, dimensions (the capsule with its caps), moments of inertia, scaling (uniform and per axis), distance from the centre to the surface in a direction, reading from and writing to a tree, and text are what geometry gives, and the same through the shape variant; the bounding box of points, of boxes and of a placed box or sphere is the smallest one, and a line meets a placed plane in the point on both. Colours: sums, products, order, clamping, conversion to and from hexadecimal numbers, hue-saturation-value for every hue (also negative and over 360), the named colours, perceived brightness, unique colours (all different, within range, as bright as asked for or as bright as possible), gradients, and every textual and tree form of a colour give the channels those forms define; text that is not a colour is refused, whole or in part.",
  ["inputs"], "every small shape, direction, rotation, colour and form of writing it",
  "tests do not cover shapes, and sample a few colours",
  ["xo/shape/shape.h", "xo/shape/shape.cpp", "xo/shape/shape_tools.h", "xo/shape/box.cpp", "xo/shape/sphere.h", "xo/shape/cylinder.h", "xo/shape/capsule.h", "xo/shape/cone.h", "xo/shape/plane.h", "xo/shape/aabb.h", "xo/utility/color.h", "xo/utility/color.cpp", "xo/utility/color_gradient.h"],
  [("shapes", "xo/shape/shape.h"), ("surface distance", "xo/shape/shape_tools.h"), ("colours", "xo/utility/color.cpp")])

p("C30", "Flags, arrays, element algorithms, and small value types keep their contracts",
  "For every sequence of calls: a set of flags (given as values, lists or template arguments, in 8 to 64 bits) contains exactly the flags that were set and not cleared since, and no call changes a flag it does not name; a dynarray has the size and values of its last construction, resize, assignment, copy or move, also when the new value is one of its own elements or it is assigned to itself, compares equal exactly when size and elements are, and at() refuses indices outside of it; a statement done periodically is done at the first and then every n-th time. For every container: find, find_index, count, any_of, none_of, contains, for_each, find_ref_if, index_of, copy, copy_cast, copy_to_range and append give the first match, the number of matches and exactly the elements in order (a missing element is none, or throws for a reference); what is written to an output stream iterator comes back from an input one; a text of numbers or words is read into a vector completely, with or without whitespace around it, and a file with anything else is refused. A plot shows in every column the value of every function at its height, scaled to the rows, and the axes. hash() is FNV-1a, equal for texts, literals and constants; the side of a name is what _l or _r at its end say, and setting, mirroring and removing it change nothing else; tidy_identifier leaves what follows the last point or colon without underscores around it; enums and dates are the text they are written as, and other text is refused; moments in time are written in the asked format; pairs add and subtract per element, clones are deep, and variants convert with their value. The clean name of a type is its own, without the scopes around it and around its template arguments; a dictionary gives the first entry of a key or value, or refuses; a cast of an owned object leaves it with exactly one owner.",
  ["histories", "inputs"], "every sequence of calls on flags and arrays, and every small container, text, plot and name",
  "tests sample a few of these calls with ordinary arguments",
  ["xo/container/flag_set.h", "xo/container/dynarray.h", "xo/container/container_tools.h", "xo/container/stream_wrapper.h", "xo/serialization/container_io.h", "xo/numerical/console_plot.h", "xo/utility/hash.h", "xo/utility/side.h", "xo/utility/smart_enum.h", "xo/utility/memory_tools.h", "xo/utility/pair_math.h", "xo/utility/variant_cast.h", "xo/utility/overload.h", "xo/time/date.h", "xo/system/debug_tools.h", "xo/system/system_tools.cpp", "xo/string/string_tools.cpp"],
  [("flags", "xo/container/flag_set.h"), ("arrays", "xo/container/dynarray.h"), ("element algorithms", "xo/container/container_tools.h")])

p("C31", "Values put into a tree as a type are read back as that type, or refused",
  "For every supported type (whole numbers of 32 and 64 bits, float, double, bool, text, path, proxy, time, enum, vector of these, array, flat_map, vec3, scale3, prop_node and types made from a node) and every value: the node it becomes is the same through every call that stores it (set, assignment, add_key_value, add_value, add_values, set_value, set_query, make_prop_node), replaces what was there, and is read back as the value that was stored, entirely where its text has room for it (six digits for floating point numbers, milliseconds below ten seconds and seconds above for times). For every node: reading it as a type gives the same through every call (get, get by key, index, with a default, any of several keys, all of a key, the try_ variants, from_prop_node); text that is not of that type, that is out of its range, that misses elements, or has a wrong element is refused, never silently another value; a key that is missing gives the default, nothing or an exception as asked for; a default never replaces a value that is there; the INIT_, TRY_ and SET_ macros and types made from a node do the same. The text and the log of a tree show every node, key and value once, in order, at its depth and level.",
  ["inputs", "histories"], "every value and text of every type in every kind of node, and every sequence of changes and queries",
  "tests read a handful of ordinary values of a few types",
  ["xo/container/prop_node.h", "xo/container/prop_node.cpp", "xo/container/prop_node_tools.h", "xo/container/prop_node_tools.cpp", "xo/string/string_cast.h", "xo/string/string_cast.cpp", "xo/container/flat_map.h", "xo/geometry/vec3.h", "xo/geometry/scale3.h", "xo/utility/proxy.h", "xo/utility/smart_enum.h", "xo/utility/optional.h"],
  [("conversion", "xo/container/prop_node.h"), ("text of numbers", "xo/string/string_cast.cpp"), ("macros and printing", "xo/container/prop_node_tools.h")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            fh.write(json.dumps(x) + "\n")
    print(len(P), "properties")
