"""The properties, and how each is decided.

gen.py writes properties.jsonl and MANIFEST.json from here.
"""

ALL = []
BY_ID = {}


def P(id, title, statement, over, text, why, files, mechanism, technique, level, note, rule,
      state=(), observe=(), assumptions=()):
    d = dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
             why=" ".join(why.split()), files=files, mechanism=mechanism, technique=technique, level=level,
             note=" ".join(note.split()), rule=" ".join(rule.split()), state=state, observe=observe,
             assumptions=list(assumptions))
    ALL.append(d)
    BY_ID[id] = d


FMT = ("Data is in synthetic messages of the shape of each format, scanned by a small scanner registered by the "
       "harness, because decoding GRIB and BUFR needs definition files that are not part of what is checked")
DSFILES = ["arki/dataset/segmented.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/simple/writer.cc",
           "arki/segment/iseg.cc", "arki/segment/metadata.cc"]
BFS = ("Breadth first enumeration of all sequences of operations from the alphabet up to the depth, on each "
       "configuration, run on real datasets on disk; states are told apart by the contents of all files (databases "
       "by their rows, timestamps by their order) and the reference model, and a state is expanded once. "
       "Each distinct state counts once.")

P("C01", "What is imported is found by queries, with the same bytes and metadata",
  """Every message whose import is reported as successful is returned by later queries exactly once, with exactly
  the bytes and the metadata it had, in the dataset that accepted it, until it is deleted, replaced or expires;
  nothing else is ever returned.""",
  ["histories", "configurations", "inputs"],
  """all sequences of imports (single and batches, in and out of chronological order, across segments, mixed formats)
  up to the depth, for all dataset types, formats, steps and storage layouts enumerated""",
  """tests import fixed sets of three or so messages, in few layouts; order of arrival, batches across segments, and
  reopening between batches are combinations that they sample""",
  DSFILES + ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/iseg/index.cc"],
  [{"name": "append then index then commit", "where": "arki/segment/iseg.cc Writer::acquire_batch_*"},
   {"name": "metadata rewritten on import", "where": "arki/segment/metadata.cc Writer::write_metadata"},
   {"name": "grouping of a batch by segment", "where": "arki/dataset/segmented.cc Writer::batch_by_segment"}],
  "explicit-state search of operation sequences on the real code against a reference model", "model_checking",
  """Exhaustive within the alphabet and depth stated in the evidence: the real library runs every sequence, and
  all queries are compared with a reference model written independently.""",
  BFS, observe=["dataset::Reader::query_data", "dataset::Reader::query_bytes"], assumptions=[FMT])

P("C02", "Imports report the right outcome for duplicates, replacements and expired data",
  """A message is stored unless the dataset already holds one with the same unique key; then it is reported as a
  duplicate and the old one stays, or, if so configured or asked, replaces it: always, or only if its update sequence
  number is not lower. Messages of the wrong format or too old are rejected or discarded as configured, and each
  message of a batch gets the outcome that it would get if imported on its own in order of reference time.""",
  ["histories", "configurations"],
  """all sequences of import batches up to the depth, for all unique keys, replacement strategies and ages enumerated""",
  """tests import a message twice with each strategy; they do not explore sequences of replacements, keys that make
  different messages collide, or batches where only some messages are duplicates""",
  DSFILES + ["arki/segment/iseg/index.cc", "arki/dataset/local.cc"],
  [{"name": "unique constraint in the index", "where": "arki/segment/iseg/index.cc"},
   {"name": "replacement strategies", "where": "arki/segment/iseg.cc Writer::acquire_batch_replace_*"},
   {"name": "age checks", "where": "arki/dataset/local.cc check_acquire_age"}],
  "explicit-state search of operation sequences on the real code against a reference model", "model_checking",
  """Exhaustive within the alphabet and depth stated in the evidence. Unlike what the documentation says, an update
  with the same sequence number is taken to replace the old one, as the existing tests require.""",
  BFS, observe=["metadata::Inbound result and destination", "dataset::Reader::query_data"], assumptions=[FMT])

P("C03", "Deleting removes exactly the messages asked for",
  """Deleting data from a dataset makes exactly the given messages disappear from queries and summaries, and from no
  other; it is the same before and after the space is recovered, after data is imported again, and after
  all data of a segment has been deleted.""",
  ["histories", "configurations"],
  """all sequences of imports, deletions and repacks up to the depth, for the configurations enumerated""",
  """tests delete one message from a fixed dataset; histories of deletions, imports and repacks that change
  offsets are not explored""",
  ["arki/dataset/segmented.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc", "arki/metadata/collection.cc",
   "arki/dataset/simple/manifest.cc", "arki/dataset/iseg/checker.cc"],
  [{"name": "removal by offset", "where": "arki/dataset/segmented.cc Checker::remove"},
   {"name": "mark removed", "where": "arki/segment/metadata.cc, arki/segment/iseg.cc Fixer::mark_removed"}],
  "explicit-state search of operation sequences on the real code against a reference model", "model_checking",
  "Exhaustive within the alphabet and depth stated in the evidence.",
  BFS, observe=["dataset::Reader", "dataset::Checker::remove"], assumptions=[FMT])

P("C04", "Maintenance never changes what a dataset contains",
  """Checking, fixing, repacking, compressing, converting to tar or zip, rescanning and fixing terminators, in any order and
  number, leave queries, summaries and the stored time interval as they were, and leave every segment in a state that
  needs no repair; converted segments still support queries, deletions and repacks.""",
  ["histories", "configurations"],
  """all sequences of imports, deletions and maintenance operations up to the depth, for the configurations enumerated""",
  """tests run one maintenance operation from each of a few prepared states; sequences such as delete, compress,
  repack are not explored""",
  ["arki/dataset/segmented.cc", "arki/dataset/maintenance.cc", "arki/segment/metadata.cc", "arki/segment/iseg.cc",
   "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/data/fd.cc",
   "arki/segment/data/dir.cc"],
  [{"name": "repack", "where": "arki/segment/data/*.cc Checker::repack"},
   {"name": "conversions", "where": "arki/segment/*.cc Fixer::tar, zip, compress"}],
  "explicit-state search of operation sequences on the real code against a reference model", "model_checking",
  """Exhaustive within the alphabet and depth stated in the evidence. Rescanning is not applied to segments where
  deleted data was not yet recovered (it is found again, by design) nor to tar and zip segments (not implemented).""",
  BFS, observe=["dataset::Reader", "dataset::Checker::state"], assumptions=[FMT])

P("C07", "Summaries always describe exactly the data they are asked for",
  """The summary of any query gives the same groups, counts, sizes and time spans that come from summarising the
  messages that the query returns, whatever was summarised before: summaries kept on disk never outlive the data they
  describe, across imports, deletions, repacks, archival, restoration and removal of segments.""",
  ["histories", "configurations"],
  """all sequences of imports, deletions, summary queries, archivals and removals up to the depth, for the
  configurations enumerated, and a fixed set of queries in each state""",
  """tests query summaries of fixed datasets once; whether a cached summary is stale depends on what was queried before
  each change""",
  ["arki/dataset/index/summarycache.cc", "arki/dataset/iseg/reader.cc", "arki/dataset/iseg/checker.cc",
   "arki/dataset/iseg/writer.cc", "arki/dataset/simple/reader.cc", "arki/dataset/simple/checker.cc",
   "arki/segment/metadata.cc", "arki/segment/iseg/index.cc", "arki/dataset/archive.cc"],
  [{"name": "cache of summaries by month", "where": "arki/dataset/index/summarycache.cc"},
   {"name": "summary of a whole dataset", "where": "arki/dataset/simple/reader.cc impl_query_summary"}],
  "explicit-state search of operation sequences on the real code against a reference model", "model_checking",
  """Exhaustive within the alphabet and depth stated in the evidence. Time spans of partial months and of segments
  only partially selected by a query on time are only bounded, because summaries are by design not exact there.""",
  BFS, observe=["dataset::Reader::query_summary"], assumptions=[FMT])

P("C08", "A query returns exactly the messages that match, sorted as asked",
  """For every query expression, a dataset returns all the messages that match it, online and archived, once and
  nothing else, and streams the same bytes; within a segment they come in the order asked for, and the result
  does not depend on how segments are stored.""",
  ["histories", "configurations", "inputs"],
  """all sequences of imports, deletions, archivals and conversions up to the depth, and in each state
  all the queries, with and without data, in three orders, with new and reused readers""",
  """tests compare a few queries on fixed datasets; that the indices agree with the matcher on every
  layout and history is not explored""",
  ["arki/dataset/iseg/reader.cc", "arki/dataset/simple/reader.cc", "arki/segment/iseg/index.cc",
   "arki/segment/metadata.cc", "arki/dataset/archive.cc", "arki/dataset/step.cc", "arki/metadata/sort.cc"],
  [{"name": "conversion of queries to SQL", "where": "arki/segment/iseg/index.cc"},
   {"name": "selection of segments by time", "where": "arki/dataset/step.cc, arki/dataset/simple/manifest.cc"}],
  "explicit-state search of operation sequences on the real code against a reference model", "model_checking",
  """Exhaustive within the alphabet and depth stated in the evidence. Sorting is by segment: results from different
  segments are not merged, as stated in the code.""",
  BFS, observe=["dataset::Reader::query_data", "dataset::Reader::query_bytes"], assumptions=[FMT])

CRASH = ("For each operation, all its changes to the file system are enumerated by running it, and it is run again once "
         "for each, ended just before it (and, for writes, after one, two and three quarters of it), in a "
         "child process; each distinct state left on disk is examined: queried, then recovered in all the ways listed. "
         "Each distinct state counts once.")

SCHED = ("Each schedule is run on the real code, with one process per participant: a controller lets one run at a "
         "time, up to its next system call of interest. The schedules are enumerated depth first: from each run, by "
         "switching at each of its points as long as the bound on preemptions allows. Waiting for a lock is seen by the "
         "controller, so that deadlocks are found. Each distinct final state and outcome counts once.")

THREADS = ("Each schedule is run on the real code, with its real threads run one at a time: a scheduler chooses who goes next at "
           "each operation on mutexes and conditions, creation and end of threads. Schedules are enumerated depth first up to a "
           "bound on preemptions; a prefix that orders dependent steps like one already explored is not expanded again. Each "
           "distinct outcome counts once.")

PIPES = ("Each run is one execution of the real event loop, where the filter, the reader of the output and each system "
         "call choose what to do. Choices are enumerated depth first up to the bound on those that are not the usual one. "
         "Each distinct output and outcome counts once.")

P("C09", "An import interrupted at any point loses nothing and can be done again",
  """If an import is killed at any point, data stored before is intact and is found by queries (except, in a simple
  dataset, that of the segments being written, until checked); no query returns anything that is not
  a whole message. Importing again, checking or repacking, in any of the orders enumerated, then gives a dataset
  with all the data stored before, once the import is repeated also all of its data, nothing else,
  and no segment in need of repair. Data is synced to disk before the index or the metadata refers to
  it, and before the import is reported as done.""",
  ["crashes", "histories", "configurations"],
  """all points of interruption of each import, with torn writes, after each history, for all configurations and all
  sequences of recovery enumerated""",
  """tests do not kill imports: they simulate a handful of the states that could be left""",
  ["arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/data/fd.cc", "arki/segment/data/dir.cc",
   "arki/segment/iseg/index.cc", "arki/dataset/simple/writer.cc", "arki/dataset/iseg/writer.cc",
   "arki/dataset/simple/manifest.cc", "arki/metadata/collection.cc"],
  [{"name": "append, sync, then commit the index", "where": "arki/segment/iseg.cc Writer::acquire_batch_*"},
   {"name": "rewrite of metadata", "where": "arki/segment/metadata.cc Writer::acquire"},
   {"name": "flag to not pack until checked", "where": "arki/dataset/simple/writer.cc"}],
  "exhaustive enumeration of crash points and torn writes on the real code", "model_checking",
  """All crash points of the operations enumerated. The file system is taken to apply changes in order: what is not
  synced is not dropped, but a monitor requires that data is synced before it is referred to. Sqlite is trusted: it is
  interrupted only at its syncs and at changes of names. A segment that ends with part of a message can
  refuse to be scanned until fixed by hand, if all the data is still in it.""",
  CRASH, observe=["dataset::Reader", "dataset::Checker"], assumptions=[FMT])

P("C10", "Maintenance interrupted at any point loses no data",
  """If a deletion, check, fix, repack, compression, conversion to tar or zip, rescan, archival, restoration or removal
  of expired data is killed at any point, all the data that it was not meant to remove is still there after a check,
  whatever was tried before (the same again, a repack), nothing else appears but deleted data that
  had not been repacked, summaries agree, no segment is left in need of repair, and a repack changes nothing.""",
  ["crashes", "histories", "configurations"],
  """all points of interruption of each operation after each history, for all configurations and all
  sequences of recovery enumerated""",
  """tests do not interrupt maintenance, which replaces data and what describes it one after the other""",
  ["arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/data/fd.cc", "arki/segment/data/dir.cc",
   "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/dataset/segmented.cc",
   "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/dataset/simple/manifest.cc"],
  [{"name": "replacement of data and index", "where": "arki/segment/iseg.cc Fixer::reorder, tar, zip, compress"},
   {"name": "replacement of data and metadata", "where": "arki/segment/metadata.cc Fixer"},
   {"name": "move to and from archives", "where": "arki/dataset/segmented.cc CheckerSegment::archive, unarchive"}],
  "exhaustive enumeration of crash points and torn writes on the real code", "model_checking",
  """All crash points of the operations enumerated, under the same assumptions on the file system and sqlite as
  for imports. Until the next check, queries can miss the segments that were being worked on.""",
  CRASH, observe=["dataset::Reader", "dataset::Checker"], assumptions=[FMT])

GRID = ("All the values of the grids listed in the coverage are tried on the real code, and compared with a reference written "
        "independently, by counting or by brute force. Each distinct value or combination counts once.")

P("C15", "Segment names partition time, and listing segments finds the right ones",
  """For each step, every reference time belongs to exactly one segment name, the time span of a segment contains exactly
  the times that go to it, and spans follow each other without gaps. Listing the segments in a directory that can match
  a query gives exactly those whose time span it can match, whatever form the data is kept in (file, directory, gz, tar,
  zip) and whatever other files are there, and the time span of the whole is that of all segments.""",
  ["inputs"],
  """all days of the years enumerated, for all steps, and all sets of up to 3 or 4 segments out of 9, around ends of
  weeks, months and years, for 15 queries""",
  """tests look at a couple of dates per step, and at few directories""",
  ["arki/dataset/step.cc", "arki/dataset/session.cc", "arki/segment/data.cc"],
  [{"name": "time to path", "where": "arki/dataset/step.cc operator()"},
   {"name": "path to time span", "where": "arki/dataset/step.cc path_timespan"},
   {"name": "listing", "where": "arki/dataset/step.cc list_segments, time_extremes"}],
  "exhaustive enumeration of times and of sets of segments on the real code, against a reference", "model_checking",
  """Exhaustive on the days and on the sets of segments enumerated. The undocumented step single is only checked to
  always give the same segment.""",
  GRID, observe=["dataset::Step"])

P("C16", "Arithmetic on times and intervals is that of the calendar",
  """Conversions of times to and from text, SQL, binary form and seconds, the next and previous instants, bounds of
  partial times, starts and ends of months, durations and normalisation of values out of range agree with the Gregorian
  calendar; comparisons are a total order that agrees with the forms used in the databases; containment, intersection,
  union and iteration by month of intervals, also open ones, agree with the sets of instants that they stand for.""",
  ["inputs"],
  """all days of the years enumerated with 8 times of the day, all seconds of special days, all combinations of
  out of range values from a grid, and all pairs of intervals among 9 ends""",
  """tests check a handful of dates""",
  ["arki/core/time.cc", "arki/core/time.h"],
  [{"name": "normalisation", "where": "arki/core/time.cc Time::normalise"},
   {"name": "operations on intervals", "where": "arki/core/time.cc Interval"}],
  "exhaustive enumeration of times and intervals on the real code, against a reference", "model_checking",
  "Exhaustive on the grids enumerated, from year 1 to 16383; to_unix only from 1970.",
  GRID, observe=["core::Time", "core::Interval"])

P("C17", "Reference time expressions match exactly the documented times",
  """A reftime expression matches exactly the instants that the documentation says: for all comparison operators, partial
  dates and times, dates relative to now, names like today, yesterday or easter, steps and offsets, conjunctions and
  alternatives. The same holds for encoded values, for the SQL generated for the index, and for the expression printed
  and parsed again. Restricting an interval to what can match never excludes an instant that matches, and for dates it
  gives exactly the bounds. Malformed expressions are refused.""",
  ["inputs"],
  """all expressions from the grammar with operands from a grid of dates, times, relative dates and steps, and
  conjunctions and alternatives of pairs and triples of them, evaluated on all instants around their bounds""",
  """tests evaluate each kind of expression on a couple of instants""",
  ["arki/matcher/reftime.cc", "arki/matcher/reftime/parser.cc", "arki/matcher/reftime/lexer.h",
   "arki/matcher/reftime/reftime-parse.yy", "arki/matcher/utils.cc"],
  [{"name": "parser", "where": "arki/matcher/reftime/parser.cc"},
   {"name": "match, SQL and intervals of each term", "where": "arki/matcher/reftime/parser.cc DTMatch"},
   {"name": "conjunctions and alternatives", "where": "arki/matcher/utils.cc OR, AND"}],
  "exhaustive enumeration of expressions and instants on the real code, against a reference", "model_checking",
  "Exhaustive on the grids of expressions and instants enumerated; SQL is run by SQLite.",
  GRID, observe=["Matcher"])

P("C18", "Queries match exactly the items documented, alone and combined",
  """For each type of metadata other than reference time, a query expression matches exactly the items documented: those of
  its style with all the fields that are specified, units of time, missing values, elevation ranges and bounding boxes
  included. The answer is the same for the item and for its encoded form, and for the query printed, also with aliases
  expanded, and parsed again. Alternatives, conjunctions, splitting by type, merging and updating of queries, and
  aliases, also made of aliases and in any order, mean what they say, on items and on whole metadata. Malformed
  expressions are refused.""",
  ["inputs"],
  """for each type, all the combinations of present and absent fields with values from a grid, on all the items of a grid;
  all queries on 5 types with up to 7 alternatives, on all sets of items; all pairs of queries, and all the orders of
  definition of a set of aliases""",
  """tests look at a couple of items and expressions for each type""",
  ["arki/matcher.cc"] + ["arki/matcher/%s.cc" % x for x in ("utils", "aliases", "origin", "product", "level", "timerange",
   "proddef", "area", "run", "task", "quantity")] + ["arki/types/values.cc"],
  [{"name": "items and encoded items", "where": "arki/matcher/*.cc matchItem, match_buffer"},
   {"name": "printing", "where": "arki/matcher/*.cc toString"},
   {"name": "combining", "where": "arki/matcher/utils.cc OR, AND"},
   {"name": "aliases", "where": "arki/matcher/aliases.cc"}],
  "exhaustive enumeration of queries and items on the real code, against a reference", "model_checking",
  """Exhaustive on the grids enumerated. Bounding boxes are computed by a stand-in for the scripts that do it. VM2 areas,
  and VM2 products by attribute, need tables that are not part of this code.""",
  GRID, observe=["Matcher"])

P("C19", "Metadata items survive all their encodings, and are totally ordered",
  """Any metadata item, of any type and style, with any value its fields can hold, is read back the same from its binary
  encoding, alone or followed by other data, copied or not; from the encoding used in indexes; from structured data, and
  from JSON; and from its text, unless the text does not say all of the item. Reading consumes exactly the bytes that
  were written. Comparing items is a total order: antisymmetric, transitive, consistent with all the operators and with
  equality, the same for items of different types, and different items never compare as equal, unless they are equal by
  definition, like the same time range in other units.""",
  ["inputs"],
  """boundary values of all fields in all combinations for all types and styles, strings with all byte values; all pairs
  of items of a type in blocks of 1600, and of a selection of all types, transitivity decided from all pairs""",
  """tests encode and compare a couple of items for each type""",
  ["arki/types.cc"] + ["arki/types/%s.cc" % x for x in ("encoded", "origin", "product", "level", "timerange", "reftime", "note",
   "proddef", "area", "run", "task", "quantity", "value", "values", "assigneddataset", "source")] +
  ["arki/types/source/blob.cc", "arki/types/source/inline.cc", "arki/types/source/url.cc", "arki/core/binary.cc", "arki/structured/json.cc"],
  [{"name": "binary encoding", "where": "arki/types.cc, arki/types/*.cc"},
   {"name": "comparison", "where": "arki/types/*.cc compare, compare_local, equals"},
   {"name": "structured data", "where": "arki/types/*.cc serialise, decode_structure; arki/structured/*.cc"}],
  "exhaustive enumeration of items and of pairs of items on the real code", "model_checking",
  """Exhaustive on the grids enumerated. The text of some items is not complete by design: unused P1 and P2 of GRIB1 time
  ranges, decimals of ODIMH5 levels, and separators or spaces in ODIMH5 names. The deprecated BBox type is left out.""",
  GRID, observe=["Type"])

P("C25", "Damaged data and malformed text are refused or read, and never crash",
  """Reading metadata items, metadata documents, groups, streams, summaries in all formats, JSON, YAML, compressed data,
  queries, configuration, sort expressions, times and values never crashes, hangs, reads or writes memory out of bounds,
  or uses freed memory, however the input is damaged or truncated: it ends with an error, or with something that can be
  printed, compared, matched, summarised and written. Matching a query on encoded items from a damaged index does not
  either.""",
  ["inputs"],
  """for each of a selection of items of all types and of documents: all truncations, all single byte changes (thorough, 25
  values in quick), deletions, insertions, and changes of pairs of bytes and of lengths""",
  """tests decode valid data, and a couple of truncated items""",
  ["arki/core/binary.cc", "arki/types.cc", "arki/metadata.cc", "arki/metadata/reader.cc", "arki/metadata/stream.cc",
   "arki/types/bundle.cc", "arki/summary.cc", "arki/summary/codec.cc", "arki/summary/table.cc", "arki/structured/json.cc",
   "arki/structured/memory.cc", "arki/utils/yaml.cc", "arki/utils/compress.cc", "arki/matcher/parser.cc", "arki/core/cfg.cc"] +
  ["arki/types/%s.cc" % x for x in ("utils", "origin", "product", "level", "timerange", "reftime", "note", "area", "values", "source")],
  [{"name": "bounds of binary data", "where": "arki/core/binary.h, arki/core/binary.cc"},
   {"name": "items", "where": "arki/types/*.cc decode, compare, writeToOstream"},
   {"name": "matching of encoded items", "where": "arki/matcher/*.cc match_buffer"},
   {"name": "documents", "where": "arki/metadata.cc read_binary_inner, arki/summary/codec.cc"}],
  "exhaustive enumeration of the single damages of a set of inputs, on the real code with guarded memory", "model_checking",
  """All buffers and allocations up to a page are followed by a page that cannot be accessed, so overruns are detected
  exactly. Reads of uninitialised memory are detected only by their effects. Sizes of uncompressed data above 128Kb are
  left out, since they are allocated as asked.""",
  GRID, observe=["BinaryDecoder"])

P("C20", "Metadata hold what was set, and streams give what was written",
  """A metadata document always holds exactly what the operations on it said: the last value set of each type, the notes in
  order, the source; copies and what is read from its encoding are equal to it and independent from it, and comparisons
  and differences report exactly what is different. Reading a stream of metadata (binary, with inline data, in
  compressed groups, as a file, as an abstract file, as a network stream, as YAML, or as JSON) gives exactly what was
  written, in order, whatever the sizes of the pieces the input comes in; a truncated stream gives exactly the metadata
  that are complete in it, never wrong ones; and a consumer that asks to stop is not called any more.""",
  ["inputs", "operations", "crash points"],
  """all sequences of up to 3 metadata of 11 kinds (no source, inline data empty/small/70000 bytes/that looks like metadata,
  notes, long values, empty) read in 6 ways, in pieces of 8 sizes, cut and truncated at each byte, all pairs of cuts for
  single metadata; collections of 0 to 1030 metadata in groups, truncated at each byte, appended and stopped; all
  sequences of 4 (5 in thorough) of 15 operations on a metadata""",
  """tests read a few files in one go, and only a couple of truncations""",
  ["arki/metadata.cc", "arki/metadata/reader.cc", "arki/metadata/stream.cc", "arki/metadata/collection.cc",
   "arki/types/bundle.cc", "arki/types/note.cc", "arki/types/source.cc", "arki/core/file.cc", "arki/utils/yaml.cc"],
  [{"name": "bundles", "where": "arki/types/bundle.cc, arki/metadata/reader.cc"},
   {"name": "inline data", "where": "arki/metadata.cc read_inline_data, arki/metadata/stream.cc"},
   {"name": "groups", "where": "arki/metadata/collection.cc compressAndWrite"},
   {"name": "index of items", "where": "arki/metadata.cc Index"}],
  "exhaustive enumeration of streams, fragmentations and truncations, and of operation sequences against a model", "model_checking",
  """By the repository tests a stream truncated in the middle of a bundle is taken as ended there, so an error is not
  required. YAML cannot represent '#' in values, nor an empty metadata.""",
  GRID, observe=["Metadata::", "Bundle::", "Stream::"])

P("C11", "Failures of the system while storing or maintaining data lose nothing",
  """If any single operation on files fails during an import, deletion, check, repack, compression, conversion, rescan,
  archival or restoration (a write, sync, creation, rename or removal, also done in part, also with all the following
  ones failing as with a full disk or a broken one; in checks and rescans also reads), the process does not crash or hang, and either the
  operation is reported as failed, or it has been done in full. The files with data that an import which fails was
  writing are left as they were, unless they too cannot be changed. Data stored before stays intact and is found by queries
  as for interruptions, also after a check, a repack, or doing the operation again, by the same process or another, which
  then gives the result that there would have been without the failure.""",
  ["crash points", "faults"],
  """each file operation (3300 in quick) of each of the enumerated operations, histories, formats and kinds of dataset, failing
  in 4 ways: alone, with all those that follow, done in part, and done in part with the disk full from then on; then
  5 sequences of recovery""",
  """tests have no way of making file operations fail""",
  ["arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/data/gz.cc",
   "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/iseg/index.cc", "arki/dataset/iseg/writer.cc",
   "arki/dataset/simple/writer.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/simple/checker.cc", "arki/dataset/segmented.cc", "arki/dataset/archive.cc",
   "arki/utils/sys.cc", "arki/metadata/collection.cc", "arki/core/transaction.cc"],
  [{"name": "append transactions", "where": "arki/segment/data/fd.cc, dir.cc commit/rollback"},
   {"name": "index transactions", "where": "arki/segment/iseg.cc, arki/segment/iseg/index.cc"},
   {"name": "repack and conversion transactions", "where": "arki/segment/data/*.cc Rename"},
   {"name": "MANIFEST", "where": "arki/dataset/simple/manifest.cc flush"}],
  "exhaustive fault injection at each system call of the real code, with exhaustive recoveries", "model_checking",
  """Failures of sqlite when syncing directories or when closing an index are not reported by sqlite, so they are only
  checked for their effects. Operations of sqlite between syncs of its files are taken as one.""",
  CRASH, observe=["write", "fdatasync", "rename"])

P("C12", "Processes working on a dataset at the same time do not disturb each other",
  """When processes import into, delete from, check, repack, compress, convert, rescan, archive or query the same
  dataset at the same time, however they interleave, each operation succeeds and none waits forever; outcomes of
  imports and what is in the dataset afterwards are those of running the operations one after the other in some order,
  so nothing is lost, duplicated or damaged, summaries match data, and a later check finds nothing wrong. A query or a
  summary gets all the data stored before it began that nobody deletes or replaces, each item once and intact, even if
  its data is read after the query has finished, and nothing that was never imported.""",
  ["schedules", "histories"],
  """all interleavings of the enumerated groups of 2 and 3 processes up to the bound on preemptions, switching at each
  system call that touches files of the dataset""",
  """tests check that locks are requested, and run two processes in a few fixed orders; they do not control when
  processes switch""",
  ["arki/core/lock.cc", "arki/dataset/lock.cc", "arki/dataset/iseg/writer.cc", "arki/dataset/iseg/reader.cc",
   "arki/dataset/iseg/checker.cc", "arki/dataset/simple/writer.cc", "arki/dataset/simple/reader.cc",
   "arki/dataset/simple/checker.cc", "arki/dataset/simple/manifest.cc", "arki/dataset/index/summarycache.cc",
   "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/iseg/index.cc", "arki/segment/data/fd.cc"],
  [{"name": "append, check and read locks", "where": "arki/core/lock.cc, arki/dataset/lock.cc"},
   {"name": "atomic replacement of files", "where": "arki/metadata/collection.cc, arki/utils/sys.cc, arki/dataset/simple/manifest.cc"},
   {"name": "summary caches", "where": "arki/dataset/index/summarycache.cc"}],
  "stateless exploration of the interleavings of real processes under a controlled scheduler", "model_checking",
  """Exhaustive within the bound on preemptions given in the evidence, for the enumerated groups of operations. What
  sqlite does between syncs of its files is taken as atomic.""",
  SCHED, observe=["fcntl locks", "dataset::Reader::query_data", "dataset::Writer::acquire_batch"], assumptions=[FMT])

P("C13", "Locks keep out what conflicts, and only that",
  """While a check holds its write lock on a dataset or a segment nobody else reads, appends or checks there; while
  somebody appends, nobody else appends or checks; while somebody checks, nobody else appends or checks. Readers do not
  keep out each other, nor appends and checks that are not writing, and locks of a segment do not affect other segments.
  Going back from the write lock keeps the check lock. Whoever waits gets the lock when what conflicts is gone, and
  datasets configured not to lock never wait.""",
  ["schedules"],
  """all interleavings of 2 and 3 processes that acquire, escalate and release locks in the enumerated orders, up to the
  bound on preemptions""",
  """tests try pairs of locks in one order""",
  ["arki/core/lock.cc", "arki/core/lock.h", "arki/dataset/lock.cc", "arki/dataset/simple.cc", "arki/dataset/iseg.cc"],
  [{"name": "locks of bytes in a file", "where": "arki/core/lock.cc FileReadLock, FileAppendLock, FileCheckLock"},
   {"name": "escalation", "where": "arki/core/lock.cc TemporaryWriteLock"}],
  "stateless exploration of the interleavings of real processes under a controlled scheduler", "model_checking",
  """Exhaustive within the bound on preemptions given in the evidence.""",
  SCHED, observe=["fcntl locks"])

P("C21", "Summaries hold exactly what is put in them, however they are combined or stored",
  """After any sequence of additions of metadata, statistics and other summaries, mergers, filtering, pruning, and reading
  of data in any of its encodings, a summary has one group for each combination of items that was added, with exactly
  the count, the size, and the first and last reference time of what was added to it, and totals and time intervals are
  those of the groups. Order does not matter. Comparison tells apart any difference, and queries and filters by a query
  give the groups that can match it. Writing and reading gives the same summary: binary, compressed, old versions,
  several in the same file, YAML, JSON, structured data; the short form lists exactly the items of the groups.""",
  ["inputs", "operations"],
  """all sequences of up to 4 (5 in thorough) of 30 operations: 9 messages (same group at different times, no items, all
  items, with less items, without size, bigger than 4 GB, with items that do not count), statistics, adding and reading
  two summaries, 3 prunings, 5 filters, 6 encodings, clearing, and accesses; each state reached compared with variants,
  written and read in all forms, with 5 shapes of the old tree; pairs of items of each type from the grid of C19; 1000 to
  200000 messages around the size at which groups are merged""",
  """tests add a couple of metadata, and encode summaries built in one way""",
  ["arki/summary.cc", "arki/summary/table.cc", "arki/summary/codec.cc", "arki/summary/stats.cc", "arki/summary/short.cc",
   "arki/summary/intern.cc", "arki/types/typeset.cc"],
  [{"name": "groups", "where": "arki/summary/table.cc merge, want_clean, equals"},
   {"name": "interned items", "where": "arki/summary/intern.cc"},
   {"name": "encoding", "where": "arki/summary/codec.cc EncodingVisitor, Format1Decoder, Format3Decoder"},
   {"name": "statistics", "where": "arki/summary/stats.cc"}],
  "exhaustive enumeration of operation sequences against a model, on the real code", "model_checking",
  """Structured data is read back with the keys used for JSON: Python keys are not used for reading summaries. The same
  limits as C19 and C20 apply to items in YAML.""",
  GRID, observe=["Summary::", "Table::", "Stats::"])

P("C06", "Data are archived and deleted when they are old enough, and never earlier",
  """In a dataset with an archive age or a delete age, of any size and with any step of segments, a repack deletes
  exactly the segments that ended at least as many days as the delete age before the beginning of the current day (UTC),
  and moves to the archive exactly the others that ended at least as many days as the archive age before it; the data
  moved are complete and still found by queries and summaries. Asking to remove old data deletes exactly the same
  segments, and nothing in archives. Nothing else is changed or removed. Data older than the delete age are not stored by
  imports, which report success; those older than the archive age are refused; the others are stored; simulated imports
  say the same and change nothing. Checks tell exactly which segments are old enough for what, and with repacks and
  removals that only report, change nothing. Limits to online data, to archives, or to segments matching a filter are
  respected.""",
  ["histories", "inputs"],
  """each maintenance operation and import at each instant just before and at which the age of some segment reaches a
  threshold, and pairs of them, for each kind of dataset, step, order of ages and format, also with deleted data,
  compressed segments and data in archives""",
  """tests try a few ages at one instant on a dataset of one or two segments; no test has old data in archives when
  removing""",
  ["arki/dataset/segmented.cc", "arki/dataset/archive.cc", "arki/dataset/maintenance.cc", "arki/dataset/local.cc", "arki/dataset/time.cc",
   "arki/dataset/step.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/dataset/simple/manifest.cc"],
  [{"name": "ages of segments", "where": "arki/dataset/segmented.cc check_age, arki/dataset/time.cc age_threshold"},
   {"name": "ages of data imported", "where": "arki/dataset/local.cc check_acquire_age"},
   {"name": "archival and removal", "where": "arki/dataset/maintenance.cc RealRepacker, arki/dataset/archive.cc"}],
  "exhaustive exploration of operations at all instants around thresholds on the real code, against a model", "model_checking",
  """The clock is the one of SessionTime. Segments whose data were all deleted but which have not been repacked are not
  checked for what is told about them.""",
  BFS, observe=["time"])

P("C23", "Data sent to outputs and through filters arrive complete, once and in order",
  """What is sent to an output stream as buffers, lines and parts of files arrives complete, in order and once; with a
  filter, what arrives is exactly what the filter outputs for it, and what it writes on its standard error is collected.
  This holds however slow or fast the filter and the reader of the output are, whatever the sizes of data, when writes
  are done in part or have to be repeated, when the system cannot use sendfile or splice, and if the filter ends early,
  writes late, writes nothing, or closes its output or error streams. If the output is closed or fails, the file is shorter than
  asked, the filter exits early, or time runs out, either this is reported, or the output is complete; what was written is right
  as far as it goes. Nothing waits forever for what cannot happen, also when stopping or aborting filters. The
  progress and the counts of bytes reported are those of what was written and sent.""",
  ["schedules", "faults"],
  """all behaviours with up to 2 (thorough: 3) deviations, at each poll and system call, of the simulated filter, reader of
  the output, clock and system, for 16 kinds of filters, 9 sequences of data and 3 kinds of outputs""",
  """tests simulate a few sequences of results of system calls chosen by hand; slow readers are not tried with filters""",
  ["arki/stream/concrete.cc", "arki/stream/concrete-parts.tcc", "arki/stream/loops.tcc", "arki/stream/loops-send.tcc", "arki/stream/abstract.tcc",
   "arki/stream/base.cc", "arki/stream/filter.cc", "arki/utils/subprocess.cc"],
  [{"name": "sending to file descriptors", "where": "arki/stream/loops.tcc UnfilteredLoop, arki/stream/loops-send.tcc"},
   {"name": "sending through filters", "where": "arki/stream/loops.tcc FilterLoop, arki/stream/concrete-parts.tcc"},
   {"name": "starting and stopping filters", "where": "arki/stream/base.cc, arki/stream/filter.cc"}],
  "stateless exploration of the real event loops, with a simulated filter, reader and system", "model_checking",
  """System calls on pipes and the filter process are simulated as Linux behaves: pipes of 64 KB, writes of up to 4 KB not
  split unless the system interrupts them. Filters read as much as there is. Signals interrupting system calls are not explored.""",
  PIPES, observe=["poll", "write", "splice"])

P("C05", "Checks find damage, and repairs lose nothing that is still intact",
  """When a file of a dataset is damaged (data, index, metadata, summary or MANIFEST removed, truncated, extended, emptied,
  with parts overwritten, out of date, or with entries missing, overlapping or out of range), a check reports the segments
  whose queries no longer give the right data, even if times of files do not tell; a quick one does when sizes, times or
  lists of data tell. Segments that were not damaged are not touched, and stay readable. Fixing and repacking, in any of
  the orders enumerated, either give segments in need of nothing more, where every item whose data is intact is found with
  its metadata, except those removed from an index, and nothing else but deleted data; or leave corrupted segments as they
  were, and report them. Data in new segments are found after a check. Repacks do not touch segments that are corrupted or to be
  rescanned. Checks and repacks asked to only report change nothing, and tell exactly what will be done; what is reported is
  what the state of segments calls for. Unknown files are left alone.""",
  ["histories", "inputs"],
  """every damage of a list, to every file of each dataset, online and archived, also with deleted, compressed, tarred or
  zipped data, changing or keeping times, each followed by three sequences of checks and repacks; thorough also damages to two
  segments at once""",
  """tests damage one segment in one way for a few of the combinations, and do not follow what becomes of data over sequences
  of repairs""",
  ["arki/segment/data/common.cc", "arki/segment/data/fd.cc", "arki/segment/data/dir.cc", "arki/segment/data/gz.cc", "arki/segment/iseg.cc",
   "arki/segment/metadata.cc", "arki/dataset/iseg/checker.cc", "arki/dataset/simple/checker.cc", "arki/dataset/simple/manifest.cc",
   "arki/dataset/segmented.cc", "arki/dataset/maintenance.cc", "arki/dataset/archive.cc"],
  [{"name": "states of segments", "where": "arki/segment/iseg.cc and metadata.cc fsck, arki/segment/data/*.cc check"},
   {"name": "repairs", "where": "arki/dataset/maintenance.cc, arki/dataset/*/checker.cc rescan"}],
  "exhaustive exploration of damages and sequences of repairs on the real code, against what is intact on disk", "model_checking",
  """A check can end with an error when data cannot be scanned or an index is not a database: what is intact stays. An index
  or a .metadata file that is well formed and lists less than there is says that data have been deleted, and is believed.
  Directories without .sequence are not segments.""",
  BFS)

P("C26", "Queries on several datasets merge what each dataset gives, and always end",
  """A query on several datasets together sends exactly what the single datasets have, each element once, merged in the order
  asked for (by reference time if none) when each dataset gives its data in that order. If the receiver asks to stop, nothing
  more is sent, and the query says that it was stopped; if it was not, it says so. If the receiver fails, its failure is
  reported. If a dataset fails, the data of the others and what it sent before are delivered, and the failure is reported. Summaries are
  the sum of those of the datasets, and streams of bytes contain the data of each dataset in turn; failures are reported there
  too. In every case, whatever the order in which the threads that read the datasets run, the query ends, with all threads ended, also
  if threads cannot be created. Progress is reported once, for the data that was sent.""",
  ["schedules", "faults"],
  """all schedules of the threads within a bound on preemptions (quick: 2; thorough: 3; all schedules for the smallest cases), for
  datasets of up to 12 elements, with every point where the receiver stops or fails, and where a dataset fails""",
  """tests run whatever schedule happens, with three elements, and never stop a query nor make a dataset fail""",
  ["arki/dataset/merged.cc", "arki/dataset/pool.cc", "arki/metadata/sort.cc", "arki/query/progress.cc"],
  [{"name": "merging data", "where": "arki/dataset/merged.cc SyncBuffer, MetadataReaderPool, Reader::impl_query_data"},
   {"name": "merging summaries", "where": "arki/dataset/merged.cc SummaryReader, Reader::impl_query_summary"}],
  "stateless exploration of the schedules of the real threads, with pruning of equivalent prefixes", "model_checking",
  """Threads are scheduled at operations on mutexes and conditions, and at thread creation and end: unsynchronised accesses to shared
  data in between are seen only in that order. Stopping is asked once. Datasets used are lists in memory, with fewer
  schedules for datasets on disk.""",
  THREADS, observe=["pthread_mutex_lock", "pthread_cond_wait", "pthread_create"])

P("C14", "Dispatching puts each element in exactly one place, and says which",
  """Dispatching an element stores it in the one dataset, among those that are not outbound, whose filter matches it. It goes to
  the error dataset instead if none or several match, if it has no reference time, if it does not pass validation, or if that
  dataset refuses it; and to the duplicates dataset, or failing that to the error dataset, if it is there already. It is also
  added to the outbound datasets that match it, by segment, in order of reference time within each batch. The outcome given for
  each element, the counts, the success of the whole, the copies of what was imported and of what was not, and the notes, are those
  of where it really ended; the metadata given back has the source of the data in the dataset where it is. How elements are split
  in batches, and whether input is in memory or in a file, makes no difference but for the order of what is sent to outbound datasets.
  Simulated dispatching changes nothing, and says the dataset where an element would go. If writing to a dataset fails at any point,
  no element is said to be in a dataset where it is not, and none is neither in a dataset nor counted as not imported.""",
  ["inputs", "histories", "faults"],
  """all sequences of up to 2 inputs (3 for some; thorough: 3 for all) over an alphabet of 8, split in batches in all ways, on 10
  configurations of datasets, with data given in 6 ways; and all single failures of operations that change files, in each dataset""",
  """tests dispatch three elements to one configuration, and make no operation fail""",
  ["arki/dispatcher.cc", "arki/python/arki-scan/dispatch.cc", "arki/python/arki-scan/results.cc", "arki/dataset/pool.cc", "arki/dataset/outbound.cc", "arki/dataset/segmented.cc", "arki/dataset/iseg/writer.cc", "arki/metadata/inbound.cc"],
  [{"name": "choice of the dataset", "where": "arki/dispatcher.cc Dispatcher::dispatch"},
   {"name": "accounting and copies", "where": "arki/python/arki-scan/dispatch.cc MetadataDispatch"},
   {"name": "storing a batch", "where": "arki/dataset/segmented.cc Writer::batch_by_segment, arki/dataset/outbound.cc Writer::acquire_batch"}],
  "exhaustive enumeration of input sequences and batch splits against a reference model, and of single faults", "model_checking",
  """The parts of arki-scan in C++ are run, not its command line in Python. Simulated dispatching does not know about duplicates and
  mixed formats, and is not compared there. If something fails while dispatching, what was already sent elsewhere stays.""",
  GRID, observe=["write", "rename", "fsync"])

P("C22", "Compressed and packed data are exactly what was put in them",
  """Data stored in gzip files with groups of any size are what any program finds uncompressing them, and reading any part, in any order,
  gives exactly what was stored there; uncompressing to memory or to files gives all of it. Data compressed with LZO come out as they were, or
  are refused if the size is not theirs. Tar and zip files have exactly one file per element, with its data, that other
  programs can read, at the offsets that were reported; extended tar headers say what they were given; zip files changed by
  adding, deleting and renaming elements have what the changes say, once they are closed, and what they had before until then. Segments created in each of the
  forms (concatenated, lines, directory, gz, tar, zip) have all the data where metadata say, for arkimet and for other programs, and
  a check finds nothing to do. Archives of query results have all the data, numbered in order, in the given directory, and metadata that describe them in the
  same order. Reading truncated or altered gzip files again after an error never gives what was not there.""",
  ["inputs", "histories"],
  """all sequences of up to 2 (thorough: 3) elements in gzip, tar, of 3 (thorough: 4) in segments, of 3 (thorough: 4) changes to zip files, and of
  2 (thorough: 2 in all formats) in archives, over sizes around all the boundaries; groups of 0 to 3; all pairs of reads; gzip files cut and altered at each byte""",
  """tests use a few files of fixed sizes, and most of them need libraries that are often missing""",
  ["arki/utils/compress.cc", "arki/utils/gzip.cc", "arki/utils/tar.cc", "arki/utils/zip.cc", "arki/metadata/archive.cc", "arki/segment/data/gz.cc", "arki/segment/data/tar.cc", "arki/segment/data/zip.cc", "arki/segment/data/common.cc"],
  [{"name": "groups and their index", "where": "arki/utils/compress.cc GzipWriter, IndexWriter, SeekIndexReader"},
   {"name": "tar and zip", "where": "arki/utils/tar.cc TarOutput, arki/utils/zip.cc"},
   {"name": "archives", "where": "arki/metadata/archive.cc LibarchiveOutput"}],
  "exhaustive enumeration of sequences of elements and reads, with independent readers as oracle", "model_checking",
  """libarchive, zlib and a reader written from POSIX stand for other programs. Elements are never empty. Where sources of archived metadata
  point to is not covered: tests need them as they are.""",
  GRID)

P("C27", "Sorted queries come in the order asked for, and batches are split as asked for",
  """A sort expression, a list of types of metadata each optionally reversed, orders data by the first type, then by the second, and so on; what
  lacks a type comes before what has it, and equal elements keep their order. With an interval (minute, hour, day, month, year) data is grouped by
  the interval of its reference time, groups come in order of time, and the list of types orders data inside each group. An empty expression sorts by
  reference time; what is not an expression is refused; an expression written as a string and parsed again is the same. A sorted query, of metadata or of
  data, on a dataset on disk (with each kind of segment, archived or not), in memory, on a file of data or metadata, on standard input, or on several datasets merged,
  gives the same elements as when it is not sorted, in that order: all of it for what is not made of segments, and in each segment of what is;
  across segments, when intervals are not longer than segments. What sorts data as it is read, and an interval is given, needs it to come in order of
  interval. After the destination asks to stop, nothing more is sent, and the query says so. Files can be queried more than once.
  Batches of arki-xargs hold all data, once, in order; each holds one format, and is as long as limits on number of elements, size
  (unless a single element is bigger), interval and time range allow. The command gets the right data, file name, count, format and time span for each batch; its
  failures are reported, and temporary files removed.""",
  ["inputs", "histories"],
  """all expressions of up to 2 keys out of 4 (thorough: 3), compared on all pairs of 40 values; all sequences of up to 3 elements (thorough: 4) at instants around
  the ends of intervals, sorted as a stream and as a list, stopping at each element; 108 expressions (thorough: 300) on 16 elements
  imported in 4 orders in 40 datasets; all sequences of up to 4 elements (thorough: 5) out of 10, with all limits, split in batches""",
  """tests sort two sequences in two ways, and split copies of one element""",
  ["arki/metadata/sort.cc", "arki/metadata/collection.cc", "arki/metadata/clusterer.cc", "arki/metadata/xargs.cc", "arki/dataset/file.cc",
   "arki/dataset/memory.cc", "arki/dataset/fromfunction.cc", "arki/dataset/simple/reader.cc", "arki/segment/iseg.cc", "arki/segment/metadata.cc", "arki/segment/scan.cc"],
  [{"name": "order", "where": "arki/metadata/sort.cc Items, IntervalCompare, Stream"},
   {"name": "sorting in readers", "where": "arki/segment/*.cc query_data, arki/dataset/file.cc wrap_with_query, arki/dataset/simple/reader.cc"},
   {"name": "batches", "where": "arki/metadata/clusterer.cc, arki/metadata/xargs.cc"}],
  "exhaustive enumeration of sequences of data, expressions and limits on the real code, against an independent order", "model_checking",
  """Types used are reftime, product, level, origin, run. Sorting across segments when no interval is given, or a long one, is a known finding.""",
  GRID)

P("C28", "Output of queries is exactly what was found, in all formats and destinations",
  """What arki-query writes for a query, on datasets on disk (with each kind of segment), on files of data of each format, on files of metadata (binary with data inside or
  elsewhere, Yaml), recognised by extension or by a given format, one or more of them in turn, describes exactly the data that matches: as
  metadata, in binary, Yaml (annotated or not) or JSON, each element once, in order, with all its items, with an absolute source that leads to its data, or
  with its data inline when asked for; as data, the bytes of each element in order, one line per element in line based formats; as a summary, in binary, Yaml or JSON, also
  restricted to some types, the number, size and time span of each combination of items; as a short summary, the items of each type, number, size and time span; as
  an archive, a file for each element; as input for a postprocessor, metadata with their data. When sorting is asked for, it is in that order. It is the
  same for output in memory, to a file, and to a pipe. Annotations are there if asked for, and only then.""",
  ["inputs"],
  """all combinations of 7 kinds of output, their options, 4 queries, up to 36 sources in 3 formats, 3 destinations and 4 sort expressions, on up to 13 elements""",
  """tests run some combinations, and compare counts or sizes of what is written""",
  ["arki/python/cmdline/processor.cc", "arki/dataset/file.cc", "arki/dataset/session.cc", "arki/summary/short.cc", "arki/metadata.cc", "arki/summary.cc",
   "arki/dataset.cc", "arki/metadata/postprocess.cc"],
  [{"name": "output", "where": "arki/python/cmdline/processor.cc"},
   {"name": "files as datasets", "where": "arki/dataset/file.cc, arki/dataset/session.cc read_config"}],
  "exhaustive enumeration of combinations of options on the real code, reading back what is written", "model_checking",
  """Output is read back by the parsers of the library, which C20, C21 and C22 check on their own, and compared with data computed by the harness; sources are
  followed without using the library. Parsing of the command line, in Python, is left out.""",
  GRID)

P("C24", "Configurations and JSON are read back as written, and read as documented",
  """A configuration (named sections of keys and values) that is written, as text, to a stream or to a file, is read back with the same sections, keys and values, whatever
  characters other than newlines are in its values (blanks at the ends, quotes, brackets, comment characters); empty values are the same as missing ones. What is read follows the
  syntax: comments and empty lines are skipped, blanks and one pair of quotes around values are removed, repeated sections are merged, later values replace
  earlier ones, and a line that is none of these is an error that names its line. A file is read in full, also when its last line has no newline, and in
  the same way whatever the pieces in which its contents arrive. The configuration found for a path is that of the dataset, archive, file or list of datasets that is there, with its
  real name and path. JSON written for any tree of nulls, booleans, integers, floating point numbers, strings, lists and mappings is valid JSON with
  the same contents, and is read back as the same tree, also with blanks between tokens; JSON that is truncated is refused; unicode escapes are read. Strings
  encoded for URLs, as base64 or as quoted strings are decoded to themselves.""",
  ["inputs"],
  """all documents of up to 4 lines from 16, all lines of up to 5 tokens from 12, all values of up to 4 characters from 10; all strings of up to 3 bytes, and trees of two levels, in JSON;
  lines that end at each side of the boundaries of buffers""",
  """tests read a few configurations that end with a newline, and write and read a few JSON documents""",
  ["arki/core/cfg.cc", "arki/core/file.cc", "arki/structured/json.cc", "arki/structured/memory.cc", "arki/utils/string.cc", "arki/dataset/session.cc", "arki/dataset/local.cc",
   "arki/dataset/file.cc"],
  [{"name": "configuration", "where": "arki/core/cfg.cc"},
   {"name": "JSON", "where": "arki/structured/json.cc"},
   {"name": "buffered input", "where": "arki/core/file.cc"}],
  "exhaustive enumeration of small documents on the real code, against independent parsers", "model_checking",
  """The parsers it compares with are written in the harness, from the documentation of the configuration and RFC 8259. What comes after a section name on its line, and blanks before
  it, are left unspecified. Where JSON is not valid in other ways than being cut (missing commas) arkimet is lenient, and that is not checked.""",
  GRID)

P("C29", "Maintenance does what its dry run says, on the selected segments only",
  """For each maintenance operation (check, accurate check, repack, removal of everything, removal of old data, and conversion to tar, zip or compressed segments)
  a run that only reports leaves every file of the dataset and of its archives as it was, and reports the same actions on the same segments as a run that makes
  changes then reports and does. An action that is reported has its effect: a segment reported as removed is gone, one archived is in the archive and only there, one repacked has
  no holes left, one taken out of the index is not known any more, one rescanned is in line with its index, one converted is in its new form. Data of segments for which nothing is reported do not change,
  appear or go. The final totals are the numbers of actions reported. With a filter on reference times, or with only online or only offline data selected, actions are
  those that would be done without it on the segments selected, and no others.""",
  ["inputs", "histories"],
  """all histories of up to 2 operations and damages (3 in thorough) on 14 configurations of datasets with archives, holes, missing indices, truncated, lost and unknown segments; 9 operations; 7 selections""",
  """tests compare what is reported with a fixed list, for a few damages of one dataset, one operation at a time""",
  ["arki/dataset/maintenance.cc", "arki/dataset/segmented.cc", "arki/dataset/archive.cc", "arki/dataset/local.cc", "arki/dataset/reporter.cc", "arki/dataset/iseg.cc",
   "arki/dataset/simple.cc", "arki/dataset/step.cc"],
  [{"name": "maintenance agents", "where": "arki/dataset/maintenance.cc"},
   {"name": "selection of segments", "where": "arki/dataset/segmented.cc segments, segments_recursive; arki/dataset/archive.cc"}],
  "exhaustive exploration of histories on the real code, comparing dry and real runs of each operation in each state", "model_checking",
  """A check says which segments have to be packed, and leaves packing to repack; a repack says which have to be rescanned, and leaves that to check: these are not
  counted as differences. When a run ends with an error, what it had reported is not compared.""",
  BFS)

P("C30", "Remote datasets give what the server has, and never a part as if it were all",
  """A query to a dataset on a remote server (metadata, with or without data, in any order asked for; data; output of a postprocessor, with the files sent for it; summary; through a query
  macro that the server runs) gives the same results as the same query on the dataset it serves: the request says what was asked, with aliases expanded, and the reply is read in the
  same way whatever the pieces in which it arrives. A reply that stops before its end, whenever that can be told, is not data, says that there was an error, or redirects for ever is an
  error that carries the message of the server; what was given before is a prefix of the results, and bodies of errors and redirects are never given as results. Redirects are followed. A destination that asks to stop is
  not called again, an error of the destination is the one reported, and a reader that had an error then works as before. Configurations of remote datasets are read from their
  server. Queries are expanded by all servers involved, and refused if they disagree; aliases of servers are merged once for each server, and refused without changes if they conflict.
  A query macro runs on the server if all its datasets are there, and locally otherwise.""",
  ["inputs", "histories"],
  """all combinations of 5 kinds of queries, 4 expressions, 3 orders; replies in all framings, split at each byte, cut at each byte, with all of 8 errors, all redirects up to 3 steps; all answers of 3 servers""",
  """tests of the client need a server in Python, and look at a few queries with whole replies""",
  ["arki/dataset/http.cc", "arki/core/curl.cc", "arki/metadata/stream.cc", "arki/dataset/session.cc", "arki/dataset/pool.cc", "arki/matcher/aliases.cc", "arki/matcher/parser.cc"],
  [{"name": "HTTP client", "where": "arki/core/curl.cc, arki/dataset/http.cc"},
   {"name": "incremental reading", "where": "arki/metadata/stream.cc"},
   {"name": "aliases of servers", "where": "arki/dataset/session.cc, arki/matcher/aliases.cc"}],
  "exhaustive enumeration of replies of a server, and of their faults, with the real client on the loopback interface", "fault_enumeration",
  """The server is part of the harness, and serves a real dataset with the library; for the one written in Python see C32. Data cut between two elements, in a reply whose length is not given,
  cannot be told from the end.""",
  GRID)

P("C31", "Command line tools do what their options say, or fail and tell it",
  """arki-query and arki-scan write, on standard output or in the file given, exactly what the library gives for the datasets and files named on the command line, in files of
  configuration and lists, or read from standard input, for the query given as an argument or in a file, with each output format, sorting, merging and --restrict, and for query macros (--qmacro) and
  postprocessors (--postproc). arki-scan --dispatch imports in the
  right dataset all data of all its inputs, gives on output the metadata of each (from which the data can be read), moves each file to the directory for its outcome,
  copies data to the files for its outcome, refuses data that validators (--validate) do not accept, reports the status of each file, and exits with 0 if and only if all was successful; --ignore-duplicates makes duplicates a success; --testdispatch changes
  nothing. arki-check without --fix changes nothing, and with it does what the operation of the library does on the same dataset, on online data, archives, or both as
  asked for, or as documented when nothing is asked for, on segments that match --filter, with the same report; --remove deletes the data listed and no other. arki-dump shows what a file of metadata or of summaries
  has, and reads its own output back; arki-xargs runs its command on all data once, within the limits given, and tells if it failed; arki-mergeconf gives all and only the sections
  of its sources that --restrict, filters and --ignore-system-datasets allow, unchanged. Options that contradict each other, wrong arguments, sources that do not exist, expressions that cannot be parsed, data that
  cannot be read, and output that cannot be written give an exit code other than 0 and a message, never a crash of the program; for a usage error it is 64, and nothing is written.""",
  ["inputs"],
  """21 combinations of output options, 10 sets of sources, 4 queries; all pairs of options; 12 operations of arki-check on all selections in 24 states (thorough); sequences of up to 2 data of each outcome, in 2 files, on all options of dispatch""",
  """tests run each tool on a few datasets with one option at a time, mostly with formats that need libraries; combinations of options and of outcomes are not run""",
  ["python/arkimet/cmdline/query.py", "python/arkimet/cmdline/scan.py", "python/arkimet/cmdline/check.py", "python/arkimet/cmdline/dump.py", "python/arkimet/cmdline/xargs.py",
   "python/arkimet/cmdline/mergeconf.py", "python/arkimet/cmdline/base.py", "arki/python/arki-query.cc", "arki/python/arki-scan.cc", "arki/python/arki-check.cc",
   "arki/python/arki-dump.cc", "arki/python/arki-xargs.cc", "arki/python/cmdline.cc", "arki/python/arki-scan/dispatch.cc", "arki/python/arki-scan/results.cc",
   "arki/dataset/querymacro.cc", "arki/metadata/validator.cc", "arki/python/dataset/python.cc", "arki/metadata/postprocess.cc"],
  [{"name": "options of the tools", "where": "python/arkimet/cmdline"},
   {"name": "implementation of the tools", "where": "arki/python"}],
  "exhaustive enumeration of combinations of options, inputs and states, with the real Python code and extension in an embedded interpreter", "exploration",
  """What the library gives is decided by other properties. arki-server is C32; arki-bufr-prepare, which needs a library that is not in the reference build, is left out. arki-check
  on a simple dataset that has no MANIFEST creates an empty one even without --fix: not taken as a change. --from-yaml-data gives sources relative to where its input is.""",
  GRID)

P("C32", "arki-server gives what its datasets have, and nothing else",
  """A query sent to arki-server on a dataset gives exactly the data that the same query gives on that dataset with the library, in the order asked for, as metadata (with URLs of the
  server), metadata with data, data, and through a postprocessor allowed by the dataset; whether its arguments come in the URL, or as one or the other kind of form, with files for the postprocessor
  or without. The same on all datasets of the server together, and with a query macro. Summaries, whole and short, are those of the library in each style; configuration, list of datasets, aliases
  and expansion of queries are those the server was started with, and the configuration makes the HTTP client of arkimet get from the server what is in the dataset. When a request is wrong (a
  dataset, page, style or macro that does not exist, a query or a sort order that cannot be parsed, a method that is not supported, a dataset that cannot be read), the reply has a status of 400 or more, no data, and the
  error in a header. Replies are always well formed, whatever is in the request. A request runs only programs that are in the configured directories and nothing else, leaves no temporary files, and
  changes nothing in datasets. The server keeps replying after any request and while others are not complete, and data imported or deleted is seen by the following one. arki-server --runtest exits with the status of its command, and reports on the
  logs it is asked to write.""",
  ["inputs", "histories"],
  """4 kinds of reply x 15 queries x 3 ways of sending arguments x datasets, local and on another server, all of them together, and macros; summaries in each style; sets of wrong requests; sequences of up to 3 operations on a dataset being served""",
  """tests of the server need modules and formats that are not always there, are not run in the reference build, and make a few requests each""",
  ["python/arkimet/server/views.py", "python/arkimet/cmdline/server.py", "arki/python/dataset/reader.cc", "arki/python/dataset/session.cc", "arki/python/dataset/python.cc",
   "arki/python/summary.cc", "arki/python/metadata.cc", "arki/dataset/querymacro.cc", "arki/dataset/merged.cc", "arki/metadata/postprocess.cc"],
  [{"name": "requests", "where": "python/arkimet/server/views.py"},
   {"name": "the server", "where": "python/arkimet/cmdline/server.py"},
   {"name": "queries from Python", "where": "arki/python/dataset/reader.cc"}],
  "exhaustive enumeration of requests, and of histories of the datasets being served, with the real Python server in an embedded interpreter, against the library", "exploration",
  """The server is asked on the loopback interface, one request at a time, with an interpreter that has werkzeug and jinja2. Errors that are found after the reply has begun cannot change
  its status: see known-findings.txt. When all datasets are asked together for data alone, order is compared within each dataset.""",
  GRID)

NOT_APPLICABLE = []
