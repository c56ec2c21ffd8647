"""Per-check budgets and the fixed parts of the evidence."""
COMMON_REAL = "the transpiler's extension module and Python package, built from /repo's working tree"
A_SEED = "hash keys of the Rust side come only from getrandom(), which the simulator seeds"
CHECKS = {
    "C01": dict(
        level="exploration", runs=dict(quick=4000, thorough=200000), seconds=dict(quick=35, thorough=780), timeout=60,
        rule="a seeded history of 2-14 parse/render/convert calls over 1-5 generated or sampled queries, each in both runtime modes and with or without formatting, in one simulated process with seeded hash keys; compared call by call with the first conversion of pristine processes under other hash seeds. Non-trivial: at least one conversion succeeds and the history has two or more calls",
        state_measure="distinct (query set, call history)",
        real=[COMMON_REAL, "the code formatter (black)"], stub=["getrandom()"],
        assumptions=[A_SEED, "error texts are compared without captured stack backtraces"]),
    "C02": dict(
        level="exploration", runs=dict(quick=2500, thorough=100000), seconds=dict(quick=35, thorough=780), timeout=25,
        rule="2-4 (thorough: 6) threads with 1-4 calls each (convert, parse+render, render of a shared syntax tree, macro expansion) over 1-4 queries, switched by seeded choices at every line of the Python layer and at every formatter entry and exit, with formatter errors and re-entrant conversions; every result compared with the same call alone. Non-trivial: more switches than threads and at least one successful call",
        state_measure="distinct interleavings (sequence of thread and step at each switch)",
        real=[COMMON_REAL, "the code formatter (black)", "real threads and the real interpreter lock"],
        stub=["choice of the running thread (baton scheduler)", "threading.Lock and RLock", "getrandom()"],
        assumptions=[A_SEED, "the native code releases the interpreter lock only while it calls into Python; a switch inside a region that releases it explicitly is not chosen by the simulator",
                     "a run that does not finish within 25 s (normal: well under 1 s) and does so again on replay is blocked for ever"]),
    "C03": dict(
        level="exploration", runs=dict(quick=4000, thorough=200000), seconds=dict(quick=30, thorough=780), timeout=60,
        rule="a seeded history of 2-9 conversions of 1-3 queries in both runtime modes, with formatter faults (10 kinds of failing point x 17 exception types) on about half of them, compared with the unformatted conversion (exact text under a fault, same program when healthy). Non-trivial: at least one fault fired and one conversion ran without it",
        state_measure="distinct (queries, fault sequence)",
        real=[COMMON_REAL, "the code formatter (black) when healthy"], stub=["failures of the formatter and of its import", "getrandom()"],
        assumptions=["a formatter that returns normally returns its formatted text"]),
    "C04": dict(
        level="exploration", runs=dict(quick=9000, thorough=400000), seconds=dict(quick=35, thorough=780), timeout=30,
        rule="a seeded history of 3-12 (thorough: 30) lookups and file changes over 1-3 folders and 1-4 real loaders, with storage faults (errno by call class and ordinal, short reads), a seeded directory order and a second writer's rename, replace, unlink, half-write at the n-th storage call of a lookup, and concurrent lookups. Non-trivial: at least one lookup succeeded and one fault or writer action fired inside a lookup",
        state_measure="distinct (number of storage calls, faults fired, outcome) of a lookup",
        real=[COMMON_REAL, "pathlib and the file system of the scratch folder"], stub=["failures, timing and order of libc storage calls", "the second writer", "threading.Lock and RLock"],
        assumptions=["a listing refused with EACCES/EPERM counts as absence (the standard library's directory search ignores it)", "a second writer replaces files by rename or is caught half way; it never completes an in-place rewrite between two reads of one lookup"]),
    "C05": dict(
        level="exploration", runs=dict(quick=12000, thorough=500000), seconds=dict(quick=30, thorough=780), timeout=30,
        rule="a seeded history of 2-12 (thorough: 40) lookups, registrations and removals over 0-5 sources (dicts, real registry and folder loaders, nested combinations, simulated sources that answer, are absent or fail with one of 17 exception types and change from call to call) with or without a fallback that may fail, from one or several threads; compared with a walk over the sources' own answers. Non-trivial: two or more sources and a successful lookup",
        state_measure="distinct (sources with their answers, fallback)",
        real=[COMMON_REAL], stub=["simulated macro sources and their failures", "choice of the running thread", "threading.Lock and RLock"],
        assumptions=["absence is reported by KeyError or a subclass of it"]),
    "C06": dict(
        level="exploration", runs=dict(quick=12000, thorough=500000), seconds=dict(quick=35, thorough=780), timeout=30,
        rule="a seeded history of 2-8 (thorough: 20) expansions and parses of queries built from 1-7 macros (plus chains of up to 60) with positional and named arguments, with missing macros, wrong arguments and source failures at the n-th lookup, retries after recovery, re-entrant expansions, and concurrent expansions; the exact expansion is known by construction. Non-trivial: a successful expansion of a query with at least one call",
        state_measure="distinct (macro set, queries)",
        real=[COMMON_REAL], stub=["simulated macro source and its failures", "choice of the running thread", "threading.Lock and RLock"],
        assumptions=["pipes and white space at the ends of the expanded text are not significant (the code trims them)", "a definition consisting only of a call to itself is left alone"]),
}
STUB_SPARK = "Spark: a small engine with Spark's ANSI semantics, validated against real local Spark on 860 expressions and plans"
CHECKS["C07"] = dict(
    level="exploration", runs=dict(quick=6000, thorough=300000), seconds=dict(quick=35, thorough=780), timeout=30, stubs=["spark"],
    rule="a seeded history of 2-10 (thorough: 30) notebook cells run through the registered magic with random options and queries in a user namespace that may shadow every name the generated code uses; failures of 18 exception types at the n-th Spark call, session creation, display, table lookup or formatter, with retries after the cause is gone. Non-trivial: at least one cell succeeds and one fault fires",
    state_measure="distinct (cells with options and faults, namespace)",
    real=[COMMON_REAL, "IPython's magic decorators", "the code formatter (black)"], stub=[STUB_SPARK, "IPython's display and magic registry", "failures"],
    assumptions=["the notebook calls the magic with its user namespace as local_ns", "__builtins__ in the namespace is the interpreter's, not the user's"])
CHECKS["C08"] = dict(
    level="exploration", runs=dict(quick=12000, thorough=300000), seconds=dict(quick=30, thorough=780), timeout=30, stubs=["spark"],
    rule="a seeded history of 2-12 (thorough: 30) setting changes, lookup modules appearing, vanishing or failing to import (7 exception types), and search, tstats and datamodel commands (generated code or direct calls) whose lookup may raise one of 11 exception types, return something else or run commands itself; a fifth of the runs adds 2-3 threads switched at every line of the Python layer. Every lookup call, its arguments and the resulting rows are compared with the setting in force. Non-trivial: a command succeeds through a configured lookup and a fault fires",
    state_measure="distinct (setting, module states, history)",
    real=[COMMON_REAL, "pydantic settings and call validation"], stub=[STUB_SPARK, "lookup functions and their modules", "choice of the running thread", "threading.Lock and RLock"],
    assumptions=["the setting is given by the environment variable TRANSPILER_TABLE_LOOKUP_FUNCTION"])
CHECKS["C09"] = dict(
    level="exploration", runs=dict(quick=24000, thorough=900000), seconds=dict(quick=35, thorough=780), timeout=30, stubs=["spark"],
    rule="a seeded history of 1-6 (thorough: 15) search, tstats and datamodel commands without a configured lookup (generated code or direct calls) over up to 16 tables of 0-25 events with all source columns, nulls included; tables are replaced or dropped and the session restarted between commands, Spark calls fail (6 exception types, by call and ordinal) and are retried, and every result is collected under seeded partitioning, task order, retry and executor loss and compared with a filter over the table's rows of the moment. Non-trivial: a command returns events and a fault fires",
    state_measure="distinct (tables, commands, schedule)",
    real=[COMMON_REAL, "pydantic call validation"], stub=[STUB_SPARK, "failures of Spark calls"],
    assumptions=["the columns holding an event's source criteria are those the default lookup names (_source, _sourcetype, _host, _hosttag, _eventtype, _eventtypetag, _savedsearch, _splunk_server)"])
CHECKS["C13"] = dict(
    level="exploration", runs=dict(quick=4000, thorough=200000), seconds=dict(quick=35, thorough=780), timeout=60, stubs=["tui"],
    rule="one session of 2-14 (thorough: 40) user actions (pasting and typing valid, invalid and markup-like texts, erasing, toggling switches by key or click, copying with a clipboard that may fail) with seeded delivery: every widget has its own queue and task, and the simulator picks whose next message is handled. Each time all queues are empty the shown code, error marks and log are compared with the translation of the current text and switches. Non-trivial: settled on a valid text after two or more actions",
    state_measure="distinct (actions, delivery order)",
    real=[COMMON_REAL, "live_translator.py", "rich's markup", "the code formatter (black)"], stub=["Textual: a model of its widgets, message queues, bubbling, timers and reactive attributes (the library is not installed here)", "pyperclip and its failures"],
    assumptions=["Textual delivers each widget's messages in the order posted and handles them in one task per widget; messages of different widgets interleave freely", "an exception escaping a message handler ends the application, as in Textual"])
CHECKS["C10"] = dict(
    level="exploration", runs=dict(quick=40000, thorough=900000), seconds=dict(quick=55, thorough=780), timeout=30, stubs=["spark"],
    rule="1-3 (thorough: 6) aggregations (stats or tstats, with and without the runtime, 1-5 of 24 functions, grouped by 0-2 fields or a time span, under plain or colliding result names, after a filter or eval, before a filter or a second stats) over 0-40 seeded events, each collected 1-3 times under its own seeded partitioning, task order, block arrival order, retry and executor loss, with Spark calls that fail and are retried; every aggregate of every group compared with an exact reference. Non-trivial: at least one group came back from a run on several partitions",
    state_measure="distinct (queries, schedule)",
    real=[COMMON_REAL, "pydantic call validation"], stub=[STUB_SPARK, "failures of Spark calls"],
    assumptions=["a group by a time span is Spark's window of that length, aligned to the epoch", "events without the grouping field may form a group of their own or be left out", "a mode, first or last value may be any of the candidates once the events have been shuffled"])

CHECKS["C11"] = dict(
    level="exploration", runs=dict(quick=40000, thorough=900000), seconds=dict(quick=55, thorough=780), timeout=30, stubs=["spark"],
    rule="1-2 (thorough: 4) pipelines of 1-5 (thorough: 8) stages (search, where, eval with nested expressions over about 75 functions and operators including times, time formats, multivalue lists and JSON paths, fields, table, rename, rex, fillnull, bin, addtotals, convert, spath) over 0-25 seeded events with times and absent values, with and without the runtime, each collected 1-2 (thorough: 4) times under its own seeded partitioning, task order, retry, executor loss and repeated evaluation of expressions, with Spark calls that fail and are retried; every event, field and value compared with an executable reference. Non-trivial: at least one event came back from a run on several partitions",
    state_measure="distinct (pipelines, schedule)",
    real=[COMMON_REAL, "pydantic call validation"], stub=[STUB_SPARK, "failures of Spark calls"],
    assumptions=["expressions without a prescribed value (overflow, division by zero, text against number, rounding at the limit of precision) are not generated", "text comparisons of the search command only use values without case variants", "mixed AND and OR are written with parentheses"])

CHECKS["C12"] = dict(
    level="exploration", runs=dict(quick=40000, thorough=900000), seconds=dict(quick=55, thorough=780), timeout=30, stubs=["spark"],
    rule="1-2 (thorough: 4) pipelines over 0-40 seeded events with sort (1-3 keys, ascending and descending, with and without a limit, the `desc` form) and head (as a number, limit= and count<) between filters, evals, projections and renames, with and without the runtime, each collected 1-2 (thorough: 4) times under its own seeded partitioning, task order, block arrival order, retry and executor loss, with Spark calls that fail and are retried; the events and their order compared with an executable reference, or, after a head without a sort, checked to be as many as asked for and each one a correct event. Non-trivial: at least one event came back from a run on several partitions",
    state_measure="distinct (pipelines, schedule)",
    real=[COMMON_REAL, "pydantic call validation"], stub=[STUB_SPARK, "failures of Spark calls"],
    assumptions=["every event has the sort keys and the keys order the events totally (SPL does not prescribe the order of ties, nor where absent values go)", "text keys do not look like numbers"])
CHECKS["C14"] = dict(
    level="exploration", runs=dict(quick=40000, thorough=900000), seconds=dict(quick=55, thorough=780), timeout=30, stubs=["spark"],
    rule="1-3 (thorough: 6) queries (pipelines of 1-5 stages with 65 expression templates and 13 further commands over events with times, JSON and text; aggregations; multisearch, join and lookup), each translated with the runtime and without it, the two results computed under independently seeded schedules (partitioning, task order, retry, executor loss, repeated evaluation) with Spark calls that fail and are retried, and compared: fields, events, order after a sort; a query that only one mode can answer is a violation. Non-trivial: at least one event came back from a run on several partitions",
    state_measure="distinct (queries, schedules)",
    real=[COMMON_REAL, "pydantic call validation"], stub=[STUB_SPARK, "failures of Spark calls"],
    assumptions=["the language is the part both modes support; functions only one of them implements are not generated", "aggregates that pick one of several events (first, last, earliest, latest, mode) are left to C10, lists are compared without their order"])
CHECKS["C15"] = dict(
    level="exploration", runs=dict(quick=40000, thorough=900000), seconds=dict(quick=55, thorough=780), timeout=30, stubs=["spark"],
    rule="1-2 (thorough: 4) queries over three seeded tables with different fields and a lookup table (several indexes in one search, multisearch of 2-3 pipelines, join on 1-2 keys of every documented type with a subsearch, lookup with renamed keys and outputs), followed by further stages or an aggregation, with and without the runtime, each collected 1-2 (thorough: 4) times under its own seeded partitioning, order in which the sources answer, block arrival order, retry and executor loss, with Spark calls that fail and are retried; every event and field compared with an executable reference. Non-trivial: at least one event came back from a run on several partitions",
    state_measure="distinct (queries, schedule)",
    real=[COMMON_REAL, "pydantic call validation"], stub=[STUB_SPARK, "failures of Spark calls"],
    assumptions=["the right side of a join and the lookup table have at most one event per key (with several, SPL takes the first and the order is not prescribed here)", "fields the right side of a join brings are new to the left side"])
