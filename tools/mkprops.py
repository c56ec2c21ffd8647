import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","Conversion is deterministic and history-independent",
"Converting a given SPL text with given options always gives the identical outcome: the same code text, or the same error. It does so in every process, whatever the seeds of randomised hashing, and after any history of other conversions, whether they succeeded or failed. Rendering a parsed query never changes that query, so rendering it again gives the same text.",
["histories","inputs","configurations"],
"every history of parse/render/convert calls (valid and failing, with and without runtime, formatted or not), every hash seed of the Rust and of the Python process",
"Unit tests convert each query once, in one process with one hash seed; a result that depends on hash iteration order or on state left by an earlier conversion still matches most of the time.",
["src/lib.rs","src/pyspark/base.rs","src/pyspark/transpiler/mod.rs","src/commands/cmd_search/pyspark.rs","src/spl/ast.rs","python/spl_transpiler/utils.py"],
[("per-render context with its own frame counter","src/pyspark/base.rs PysparkTranspileContext::new"),("immutable AST classes, cloned before transformation","src/lib.rs render_pyspark")],
["text returned by convert_spl_to_pyspark / render_pyspark","type and message of the exception raised"],
[dict(name="df_num",meaning="next intermediate data frame number",where="src/pyspark/base.rs")])

p("C02","Concurrent conversions do not interfere and always finish",
"Conversions running at the same time in several threads, including conversions that share one parsed query, that fail, or that start while another is inside the code formatter, each return exactly the outcome they would return alone. All of them finish: no interleaving deadlocks or blocks the others forever.",
["schedules","histories"],
"every interleaving of any number of threads parsing, rendering and formatting, with switches at the formatter boundary and inside the Python layer, and re-entrant conversion from within the formatter",
"No test starts a second thread; the formatter call is the point where the interpreter lock changes hands and the tests never overlap anything with it.",
["src/lib.rs","src/format_python.rs","src/pyspark/base.rs","python/spl_transpiler/utils.py"],
[("no state shared between calls","src/pyspark/base.rs"),("interpreter lock held except inside the formatter","src/format_python.rs format_python_code")],
["result of every call in a concurrent history"])

p("C03","Code formatter failures are cosmetic",
"Whatever goes wrong in the external code formatter while a query is being converted (it is not installed, its import fails, it cannot be configured, or it raises any error at any point), the conversion still succeeds and returns exactly the code it would return with formatting turned off. When the formatter works, the formatted text is the same program as the unformatted text. A formatter failure has no effect on any later conversion.",
["fault_sequences","histories"],
"every sequence of formatter failures (import, configuration, call; any exception type) and recoveries interleaved with conversions",
"The tests only run with a working formatter; the fallback path is never executed by any of them.",
["src/format_python.rs","src/lib.rs"],
[("fallback to the unformatted text","src/format_python.rs safe_format_python_code")],
["text returned by render_pyspark with format_code true, under injected formatter faults"])

p("C04","Macro folder lookups are exact, never partial, under storage faults",
"Looking up a macro in a folder returns the complete definition stored in the file of exactly that name, wherever it lies below the folder, or raises an error; it never returns a partial, mixed or differently named definition. Only the absence of such a file is reported as not found, several such files are reported as ambiguous, and a read error or a malformed or half-written file surfaces as an error of its own and is not remembered: once the storage is healthy again the same lookup succeeds. A lookup that has succeeded keeps returning that same definition, and folders never answer for one another.",
["fault_sequences","schedules","crash_points","histories"],
"every sequence of lookups against a folder tree in which directory scans, stats, opens and reads fail or return short at any point, and in which other processes create, atomically replace, truncate or delete files between any two of the loader's storage operations (directories made unreadable by permission are outside the property: they count as empty)",
"The tests read macros from in-memory dictionaries only; the folder loader has no test, and no test injects an I/O error or a concurrent writer.",
["python/spl_transpiler/macros.py"],
[("search, ambiguity check, load and validate, memoise successes only","python/spl_transpiler/macros.py FolderMacroLoader.__getitem__")],
["value returned or exception raised by a lookup"],
[dict(name="memo",meaning="definitions already resolved per loader and name",where="python/spl_transpiler/macros.py FolderMacroLoader.__getitem__")])

p("C05","Combined macro sources: first that has it wins, only absence falls through",
"A lookup in a combination of macro sources returns the definition from the first source, in the given order, that has the macro. It moves on to the next source, and finally to the fallback, only when a source reports the macro as absent; any other failure of a source is raised to the caller and never hidden by a later source or by the fallback. Without a fallback a macro absent everywhere is reported as not found.",
["fault_sequences","histories","configurations"],
"every arrangement (including nesting) of in-memory, folder-backed and remote-like sources whose contents change and whose lookups fail at any point in a history of lookups",
"No test builds a combination of sources; the rule only shows when a source fails or changes between lookups.",
["python/spl_transpiler/macros.py"],
[("ordered scan that catches only the not-found error","python/spl_transpiler/macros.py CombinedMacroLoader.__getitem__")],
["value returned or exception raised by a lookup; which sources were asked, in which order"])

p("C06","Macro expansion is exact, all-or-nothing and leaves no residue",
"Expanding macros in a query yields exactly the query with every macro call replaced by its definition with the call's arguments filled in, repeatedly until no call is left. If any macro is missing, fails to load or is called with the wrong arguments, the whole expansion fails with that error and no partly expanded text is returned. An expansion is unaffected by failed, earlier or concurrent expansions, and succeeds when retried once its sources have recovered.",
["fault_sequences","schedules","histories"],
"every query over an acyclic set of macros (nested calls, positional and named arguments), every failure of the macro source at any call, and every interleaving of concurrent expansions and registrations",
"One test expands three fixed macros from a dictionary that never fails or changes and in a single thread.",
["python/spl_transpiler/macros.py","src/spl/macros.rs"],
[("recursive substitution to a fixed point","python/spl_transpiler/macros.py substitute_macros"),("macro call detection","src/spl/macros.rs spl_macros")],
["text returned by substitute_macros, query accepted by parse_with_macros"])

p("C07","A notebook cell takes effect completely or not at all",
"Running an SPL notebook cell either succeeds and binds exactly the requested variable to the resulting data frame, or fails with an error and leaves the user's variables exactly as they were; in neither case are other variables added, changed or removed. A failure while connecting to Spark or executing the generated code is reported as one runtime error that carries its cause, and a cell that fails can be run again successfully once the cause is gone. A dry run never touches Spark and never changes a variable.",
["fault_sequences","crash_points","histories"],
"every history of cells with any options, with a failure injected at any call the cell makes to Spark, to the table lookup, to the display or to the converter",
"No test runs the notebook command at all, and none injects a failure between two generated statements.",
["python/spl_transpiler/runtime/magic.py","python/spl_transpiler/runtime/utils.py"],
[("generated code runs in a separate local scope, the variable is assigned last","python/spl_transpiler/runtime/magic.py spl"),("value of the last statement","python/spl_transpiler/runtime/utils.py exec_with_return")],
["user namespace before and after the cell, exception raised, calls reaching the Spark stand-in"])

p("C08","The configured table lookup is used, once per source, and failures do not stick",
"When a table lookup function is configured, every runtime search, tstats and data model command obtains its source table from that function and from nothing else, with exactly one lookup per source and with every source criterion of the query passed on. A lookup function that cannot be resolved raises an error instead of falling back to another, and is retried on next use; once resolved it stays in effect. An error raised by the lookup surfaces to the caller and has no effect on later commands.",
["fault_sequences","histories","schedules","configurations"],
"every configuration of the lookup function (valid, malformed, importable only later), every failure of the import or of the lookup at any point in a history of commands, and concurrent first use from several threads",
"Tests always use a working default or a mock installed before the first use; settings are resolved once per process there.",
["python/spl_transpiler/runtime/config.py","python/spl_transpiler/runtime/commands/search.py","python/spl_transpiler/runtime/commands/data_model.py","python/spl_transpiler/runtime/commands/tstats.py"],
[("settings resolved on first use and memoised","python/spl_transpiler/runtime/config.py settings")],
["calls received by the lookup function; exception or frame returned by the command"],
[dict(name="settings memo",meaning="resolved configuration",where="python/spl_transpiler/runtime/config.py settings")])

p("C09","The default table lookup reads exactly the matching events or fails",
"Without a configured lookup, a runtime search reads the table named by its index, or, when there is none, the table named after its source and source type, and returns exactly the events of that table that match every other given criterion; a data model command reads the table of that data model. If the session or the table is not available the command fails, and it never returns events of another table or unfiltered events. The outcome is the same under any partitioning of the table, order of tasks and retries.",
["fault_sequences","schedules","inputs"],
"every combination of source criteria, every catalog content, failures of the session and of table access at any point, and every partitioning and task schedule of the simulated cluster",
"The runtime tests query a handful of fixed tables on a local single-node session that never fails.",
["python/spl_transpiler/runtime/config.py","python/spl_transpiler/runtime/commands/search.py","python/spl_transpiler/runtime/commands/data_model.py"],
[("table choice and criteria","python/spl_transpiler/runtime/config.py default_table_lookup")],
["events collected from the returned frame"])

p("C10","Aggregations do not depend on how the cluster executes them",
"Running the code generated for an aggregation (stats and tstats, with and without grouping, with and without the runtime) yields, for each group of field values, the SPL aggregate over that group's events for count, sum, avg/mean, min, max, distinct count, range, sum of squares, variance and standard deviation (sample and population), values, list, mode, median and percentiles, estimated distinct count, first and last (one of the group's values), earliest and latest (value and time) and rate. The result is the same for every partitioning of the events, order of tasks and shuffled blocks, task retry and loss of an executor.",
["schedules","fault_sequences","inputs"],
"every partitioning, task order, shuffle arrival order, task failure with retry and executor loss with recomputation; every event table (with nulls) and aggregation query in the supported fragment",
"Tests compare generated text, or run on one local node with tiny data where partial results always arrive in order.",
["src/functions/stat_fns.rs","src/commands/cmd_stats/pyspark.rs","src/commands/cmd_t_stats/pyspark.rs","src/commands/stats_utils.rs","python/spl_transpiler/runtime/functions/stats.py","python/spl_transpiler/runtime/commands/stats.py","python/spl_transpiler/runtime/commands/tstats.py"],
[("mapping of aggregation functions","src/functions/stat_fns.rs stats_fn_bare"),("runtime aggregation functions","python/spl_transpiler/runtime/functions/stats.py")],
["rows collected from the executed query"])

p("C11","Row-wise pipelines keep exactly the right events on every schedule",
"Running the code generated for a pipeline of search or makeresults, where, eval (arithmetic, comparisons, text, multivalue, conditional, conversion, time-format and cryptographic functions), fields, table, rename, rex, fillnull, bin, addtotals, convert and spath yields exactly the events, fields and values that SPL prescribes, each event once. The result is the same for every partitioning, task order, task retry and executor loss, and however often the cluster re-evaluates an expression.",
["schedules","fault_sequences","inputs"],
"every pipeline in the supported fragment, every event table (with nulls and absent values), every partitioning, task order, retry, executor loss and repeated evaluation of user-defined functions",
"Tests compare generated text for one query each, or run a single command on a local node that never retries a task.",
["src/commands/cmd_search/pyspark.rs","src/commands/cmd_where/pyspark.rs","src/commands/cmd_eval/pyspark.rs","src/commands/cmd_fields/pyspark.rs","src/commands/cmd_table/pyspark.rs","src/commands/cmd_rename/pyspark.rs","src/commands/cmd_fill_null/pyspark.rs","src/commands/cmd_rex/pyspark.rs","src/commands/cmd_bin/pyspark.rs","src/commands/cmd_add_totals/pyspark.rs","src/commands/cmd_convert/pyspark.rs","src/commands/cmd_s_path/pyspark.rs","src/functions/eval_fns.rs","python/spl_transpiler/runtime/commands/eval.py","python/spl_transpiler/runtime/commands/fill_null.py","python/spl_transpiler/runtime/functions/eval.py","python/spl_transpiler/runtime/udfs/__init__.py"],
[("column expressions evaluated per event","src/functions/eval_fns.rs"),("runtime commands","python/spl_transpiler/runtime/commands")],
["rows collected from the executed query"])

p("C12","Sorted and limited results are the right ones on every schedule",
"Running the code generated for a pipeline with sort, or sort followed by head, returns the events in exactly the requested order (field by field, ascending or descending, truncated to the requested count), and a head without sort returns that many events of its input, or all if there are fewer. This holds for every partitioning, task order, task retry and executor loss.",
["schedules","fault_sequences","inputs"],
"every event table with distinct sort keys, every sort specification and limit, position of the sort in the pipeline, partitioning, task order, retry and executor loss",
"Tests compare generated text only; a result on one partition is ordered by accident.",
["src/commands/cmd_sort/pyspark.rs","src/commands/cmd_head/pyspark.rs"],
[("global ordering followed by limit","src/commands/cmd_sort/pyspark.rs"),("limit","src/commands/cmd_head/pyspark.rs")],
["sequence of rows collected from the executed query"])

p("C13","The live translator always settles on the current text and switches",
"Once all pending events of the interactive translator are processed, in whatever order and batches keystrokes, switch changes and messages are delivered, it either shows exactly the translation of the current text under the current switch settings with no error marked, or marks an error because the current text cannot be parsed or translated. Errors shown for an earlier text disappear when the text becomes valid. Copying puts exactly the shown translation on the clipboard, and success is only announced when that happened.",
["schedules","histories","fault_sequences"],
"every sequence and interleaving of edits (valid, half-typed and invalid), switch toggles and copy actions with delayed, batched and reordered delivery between independent event sources, and clipboard failures",
"There is no test of the interactive application.",
["python/spl_transpiler/live_translator.py"],
[("every change re-reads the current text and switches","python/spl_transpiler/live_translator.py SPLApp.update_pyspark_code")],
["text of the translation pane, error marks, clipboard content, notifications"])

p("C14","Runtime and standalone code give the same results",
"For a query that both modes support, running the code generated with the runtime allowed and running the standalone code over the same events yields the same rows. This holds even though the two plans execute under different partitionings, task orders and retries.",
["schedules","fault_sequences","inputs"],
"every query in the fragment both modes support, every event table, and every pair of independent schedules and fault sequences for the two executions",
"Tests check the two code texts separately; a few run both on a local node with fixed data.",
["src/pyspark/transpiler/mod.rs","src/commands/cmd_search/pyspark.rs","src/commands/cmd_stats/pyspark.rs","src/commands/cmd_eval/pyspark.rs","src/commands/cmd_fill_null/pyspark.rs","python/spl_transpiler/runtime/commands","python/spl_transpiler/runtime/functions"],
[("runtime transformation with standalone fallback","src/pyspark/transpiler/mod.rs")],
["rows collected from both executions"])

p("C15","Multi-source queries combine exactly their sources on every schedule",
"Running the code generated for a query over other sources than one index (several indexes, a data model's dataset, multisearch, join, lookup; join and lookup against a side with at most one event per key) yields exactly the combination SPL prescribes: every event of every source once for unions, with missing fields null, each left event with its match for joins and lookups, and for a dataset of a data model the events of the table of that name (model, then the dataset's path below the model's root). The result is the same for every partitioning, task order, task retry and executor loss of every source.",
["schedules","fault_sequences","inputs"],
"every pair or triple of event tables with overlapping, missing and null fields, every such query, partitioning, task order, retry and executor loss",
"Tests compare generated text only.",
["src/commands/cmd_search/pyspark.rs","src/commands/cmd_multi_search/pyspark.rs", "src/commands/cmd_data_model/pyspark.rs","src/commands/cmd_join/pyspark.rs","src/commands/cmd_lookup/pyspark.rs"],
[("union by name with missing columns","src/commands/cmd_multi_search/pyspark.rs"),("join","src/commands/cmd_join/pyspark.rs, src/commands/cmd_lookup/pyspark.rs")],
["rows collected from the executed query"])

# not claimed: pure functions
p("C20","Every SPL text is parsed or rejected, never crashes or hangs",
"Parsing any text terminates and either yields a syntax tree or raises a parse error that names the problem. It never crashes the process, exhausts the stack or silently ignores part of the query.",
["inputs"],"every input text","Tests parse about 1800 well-formed sample queries.",
["src/spl/parser.rs","src/lib.rs"],[("all-consuming parser","src/spl/parser.rs pipeline")])
p("C21","Parsed structure follows SPL precedence and printing it back is faithful",
"Operators and commands group as SPL prescribes, and printing a parsed query as SPL and parsing that text again yields the same query.",
["inputs"],"every parsable query","Tests check chosen examples.",
["src/spl/operators.rs","src/spl/parser.rs","src/spl/to_spl.rs"],[("operator precedence climbing","src/spl/operators.rs")])
p("C22","Generated code is valid Python whatever the text of names and strings",
"The generated code is syntactically valid Python in which every string and field name of the query appears as a literal with exactly that value, whatever characters it contains; query text can never become code.",
["inputs"],"every string and field name, including quotes, backslashes and newlines","Tests use plain strings.",
["src/pyspark/ast.rs"],[("string literal rendering","src/pyspark/ast.rs")])
p("C23","Time formats and time spans convert to the equivalent Spark ones",
"A time format or time span of a query is converted to the Spark format or interval that denotes the same thing, and unsupported ones are rejected.",
["inputs"],"every format string and span","Tests use a few formats.",
["src/pyspark/transpiler/utils.rs","src/functions/eval_fns.rs"],[("format translation","src/pyspark/transpiler/utils.rs")])
p("C24","Values computed by the user-defined functions match SPL",
"cidrmatch, ipmask, printf, tonumber and tostring return what SPL documents for every argument.",
["inputs"],"every argument value","Tests check a table of examples.",
["python/spl_transpiler/runtime/udfs/__init__.py"],[("Python implementations","python/spl_transpiler/runtime/udfs/__init__.py")])
p("C25","Unsupported constructs are refused rather than mistranslated",
"A query using a command, option or function the transpiler does not support is refused with an error naming it; it is never translated into code that ignores the construct.",
["inputs"],"every query outside the supported fragment","Tests cover supported constructs.",
["src/commands","src/functions"],[("explicit bail-outs","src/commands/*/pyspark.rs")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
