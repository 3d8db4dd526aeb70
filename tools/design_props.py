"""Per-property text of DESIGN.md: how it is decided / bounds / why beyond tests / not claimed."""
D = {}
D["P01"] = dict(
 how="Random modules of 1-200 functions in 1-3 modules (chains, wide, diamonds, random; optional parameters, config "
     "values, falsy/NaN/frame values) are written as source, loaded, and executed through Driver, Builder, raw_execute, "
     "materialize and the task-based driver, several requests per driver. Every generated function reports its call and "
     "arguments to the recorder. Oracle: a 40-line reference evaluator over the generator's own description (value per "
     "name, set of functions that must run once); identity of the exception raised.",
 bounds="1-200 nodes, 4 executions per driver; single thread.",
 not_claimed="functions that mutate their arguments.")
D["P02"] = dict(
 how="One defect of a known kind (unknown output, missing/ill-typed/duplicated input, type mismatch on an edge, missing "
     "annotation, duplicate node, parallel without dynamic execution, cycle) is injected into a generated valid dataflow - or none. "
     "Oracle: the defect's presence decides accept/reject, the message must name a culprit, the recorder must be empty, and "
     "validate_execution/validate_materialization must agree with execution. Type compatibility is judged by an independent "
     "table of (produced, consumed) annotations built from isinstance semantics.",
 bounds="one defect at a time (or none); about 70 annotation shapes.",
 not_claimed="Collect[None] type strictness; subdag value() type strictness.")
D["P03"] = dict(
 how="Random dataflows with 0-3 Parallelizable/Collect blocks run on SynchronousLocalTaskExecutor, thread pools, process pools and "
     "adversarial executors that complete tasks in a seeded order and refuse capacity at random, under every grouping strategy. "
     "Oracle: sequential reference values, one call per item for body functions (counted across processes through a file "
     "log), Collect order = expansion order.",
 bounds="0-6 items per block (up to 60 in `many`), 3 blocks, chained.",
 not_claimed="nesting of blocks (documented limit); overrides inside block bodies.")
D["P04"] = dict(
 how="Recording wrappers around real and adversarial executors log init/submit/finish/finalize; user functions log "
     "call/return. An online checker enforces: dependencies returned before start, one submit per task and only after the "
     "executor said it has capacity, remote/local routing, at most max_tasks running and that many reached (rendezvous "
     "barrier inside user functions), init/finalize once, end of run, and after injected failures: error identity, nothing "
     "downstream, no user code running after execute returned, reuse of the driver.",
 bounds="pools of 1-6, blocks up to 60 items.",
 not_claimed="Two mutants (pool off by one in an unreachable state; a failed state overwritten by an equal one) judged equivalent.")
D["P05"] = dict(
 how="Random mixes of async and plain functions; every coroutine awaits a seeded number of times on a controlled "
     "scheduler so interleavings differ per seed; up to 12 executions in flight on one driver; a rendezvous family proves "
     "concurrency (independent coroutines wait for one another). Oracle: reference evaluation, per-execution call counts, "
     "trace rules for async hooks, error identity.",
 bounds="asynchronous hooks only; decorators of the list in the statement.",
 not_claimed="@parameterize etc. on async functions; synchronous hooks in the async driver.")
D["P06"] = dict(
 how="1-4 recording adapters with random subsets of hook methods (sync, result-builder, execution method, validators) "
     "watch random dataflows on default, task-based and parallel execution, with failures injected in functions and in "
     "hooks. Online automaton: graph > task > node nesting, exactly-once, adapter order, arguments/results/errors/run "
     "ids compared by identity with the recorder's.",
 bounds="hooks in one process.",
 not_claimed="KeyboardInterrupt reported as success in the post hook.")
D["P07"] = dict(
 how="Histories of 4-14 steps on one cache directory: executions with changing requests, inputs, config, overrides; "
     "edits and reverts of bodies, defaults, decorator literals; restarts and other processes; failing functions; "
     "deletion of results, metadata, materialised files. Oracle: the reference evaluation of the *current* source; in new "
     "processes an unchanged run must make no calls.",
 bounds="deterministic user functions.",
 not_claimed="edits of helper functions (documented); unpicklable results with the file store; in-memory store aliasing mutable "
     "results; parquet dtype changes. Known findings: ten pairs of values of different types share a fingerprint "
     "(pinned by tests/caching/test_fingerprinting.py).")
D["P08"] = dict(
 how="An exact model of the cache - a map from (node, code, argument values) to data version, plus the set of stored values - predicts for "
     "every step of a random history which functions run, what is stored and what the log says. Behaviours come from "
     "driver arguments, @cache and defaults.",
 bounds="6-16 steps, 3-8 nodes.",
 not_claimed="metadata written by IGNOREd nodes.")
D["P09"] = dict(
 how="Metadata and result stores are run against a dict model over random operation sequences, several handles and "
     "reopenings; writers are killed with SIGKILL at random points and at injected points inside file and sqlite "
     "calls, writes fail half-way (ENOSPC stand-in), threads and processes write concurrently; recorded histories are "
     "checked: every completed write readable, no foreign or partial value.",
 bounds="up to 8 writers; kill points sampled.",
 not_claimed="delete_expired; deletion of a missing key in the in-memory store raises KeyError.")
D["P10"] = dict(
 how="Random nested values are rebuilt, copied, reordered (dict/set insertion) and fingerprinted in other processes with "
     "other hash seeds - equal; one mutation (element, key, attribute, cell, index, name, order) - different.",
 bounds="depth up to the documented maximum and beyond.",
 not_claimed="Known findings: array dtype/shape, frame column names, class of objects (pinned by tests).")
D["P11"] = dict(
 how="Random guarded functions and configs; the oracle evaluates the conditions itself and compares the node set and the "
     "executed values, over several builds and copies of the same modules.", bounds="up to 6 variants per name.",
 not_claimed="")
D["P12"] = dict(
 how="Random decorated functions, the expected node table (names, docs, dependencies) and values computed from the "
     "description; execution through sequential, task-based and async drivers.", bounds="groups up to 4 sources.",
 not_claimed="groups with absent optional sources; one source shared by parameters of different optionality.")
D["P13"] = dict(
 how="Random (nested, repeated, parameterized) subdags, compared with a separate driver over the same functions (family own_driver) "
     "and with the reference evaluator; call counts per instance; inner nodes requested and overridden by name.",
 bounds="nesting depth 3.", not_claimed="`source` input to an optional inner parameter makes it required.")
D["P14"] = dict(
 how="Random step lists with conditions, literals, sources, names and targets; oracle = plain composition; every step's "
     "call recorded.", bounds="up to 6 steps, several builds.",
 not_claimed="stacked pipe_inputs rerouting each other's step sources; combinations that fail loudly at build "
     "(two stacked pipe_output; shared unnamed step functions in one namespace).")
D["P15"] = dict(
 how="Every shipped validator against its definition, re-implemented from the documentation with numpy-free loops, over "
     "random data with NaN, empty, bool, int, float, str, pandas and polars values; custom validators count their calls and "
     "record the object they saw (identity).", bounds="", not_claimed="stacked check_output decorators; pandera "
     "coerce/inplace; nullable-dtype NA.")
D["P16"] = dict(
 how="Recording loaders and savers (registered for the run) log calls with arguments; random materializer sets through all "
     "entry points; oracle = reference evaluation with the loaded values in place and one save per needed saver.",
 bounds="", not_claimed="`Any` priority among savers.")
D["P17"] = dict(
 how="Differential: each adapter with random options against the wrapped library called directly with the same arguments "
     "(recorded call for the `forwarding` family; files compared by bytes or by loading both), round trips, metadata, absent "
     "files. Databases are sqlite files in scratch.",
 bounds="backends installed here.", not_claimed="options the installed polars renamed or removed; Stata convert_strl other than v117; "
     "sep=None sniffing; '\\r' translation in `file`; Excel na_values.")
D["P18"] = dict(
 how="Reference graph (lib/refg.py) built from the generator's description; every query, export and drawing (parsed from the dot "
     "source) is compared with it, and executed calls must lie inside the reported ancestors.",
 bounds="", not_claimed="drawing styles, legend, label escaping; `source`/`version` of exported input nodes; edges into overridden nodes.")
D["P19"] = dict(
 how="Random module sources and edits of known kind (neutral or semantic) in scratch git repositories; versions compared "
     "before/after and across processes; CLI run in process and as a command; diff output and drawing against the "
     "edit script.", bounds="", not_claimed="helper and pipe-step body edits; Annotated generics.")
D["P20"] = dict(
 how="Each shipped adapter against a model of what it promises, on random dataflows with failures at random nodes, on "
     "sequential, task-based and parallel execution; the run itself against the reference.",
 bounds="", not_claimed="deprecated CacheAdapter/DiskCacheAdapter key collisions; tqdm ProgressBar with an empty request; element types "
     "inside non-collection generics.")
D["P21"] = dict(
 how="Functions returning scalars, lists, arrays, series and frames with many index relations; the built object is compared "
     "cell by cell with what the functions returned, by plain loops over index labels.", bounds="",
 not_claimed="numpy builder's declared output type; unlike-length plain lists.")
D["P22"] = dict(
 how="Random operation groups over pandas / polars / lazy frames; expected columns by plain integer evaluation; the frame the "
     "function receives is captured inside it; calls counted.", bounds="",
 not_claimed="validate_dataframe's type test; the combination check of three options; spark with_columns (no JVM data plane is "
     "started in the quick tier).")
D["P23"] = dict(
 how="In-process dask.distributed cluster; a recording Ray stand-in that pickles arguments and runs remote calls lazily, out "
     "of order, on threads (the thorough tier also uses real Ray). Reference values, calls, errors, hook records.",
 bounds="one dask cluster per worker process.",
 not_claimed="nodes named `pure`/`dask_key_name`; DaskDataFrameResult under dask-expr; scalars requested before the first indexed output.")
D["P24"] = dict(
 how="A stand-in UI server (lib/trackserver.py, loopback) records every request, answers normally, slowly or with errors; the "
     "recorded conversation is checked against the executions: templates, runs, one final record per node and task, "
     "statistics recomputed by hand; process exit and stop() for delivery.",
 bounds="interpreter: /opt/venv-sdk.", not_claimed="async client has no flush at loop end; polars bool zeros (pinned); "
     "objects with raising __repr__.")
D["P25"] = dict(
 how="Model of the builder (settings, order, copies, refused repetitions) against random call sequences; histories on several "
     "drivers sharing modules and adapters compared with a fresh driver over a freshly loaded module; concurrent "
     "executions from threads with seeded delays and a required overlap counter; pickling within and across processes; deep "
     "snapshots of all arguments.", bounds="2-6 threads.",
 not_claimed="legacy Driver(config) keeps the caller's dict; Variable.tags aliases node tags; concurrent runs on one task executor.")
D["P26"] = dict(
 how="Each case is a process with its own HOME, configuration and environment whose network is a recorder that answers, "
     "fails or never answers. Everything the user wrote carries a marker that must not occur in any payload. Payload "
     "counts are compared with the operations performed; results with direct computation.",
 bounds="1-26 operations per process.", not_claimed="the limit of ten events under concurrent threads; a malformed configuration file.")
D["P27"] = dict(
 how="Generated dataflows with loaders, savers, failing functions and overrides run under the three adapters next to an independent "
     "recording hook. OpenLineage events reach a recording transport and are compared with what the hook saw and the files on disk; "
     "SchemaValidator is driven through histories of edited functions and changing frames on one directory and compared with a model of it; "
     "schema diffs of random Arrow schema pairs are compared with an independent diff; the experiment record is compared with the run.",
 bounds="up to 3 loaders, 3 computations, 3 savers, 2 runs per driver; up to 5 runs per schema directory; 7 fields per schema.",
 not_claimed="reordered columns, several threads racing for one schema file, the recorded version of input nodes; "
     "json_encoder (unused).")
D["P28"] = dict(
 how="Each worker starts a local Spark session (local[1], loopback, scratch directories) and runs generated groups of column functions "
     "through with_columns, select and PySparkUDFGraphAdapter; the collected rows are compared with the same expressions evaluated in Python.",
 bounds="5 base columns, up to 4 functions per group, 2 groups, 5 rows; a Spark run costs about 0.3 s, so few hundred cases per quick run.",
 not_claimed="null values, postponed annotations (the decorators read annotations directly), outside values named like a column of the frame, "
     "SparkKoalasGraphAdapter, the state of PySparkUDFGraphAdapter after a failed run, Spark Connect.")
D["P29"] = dict(
 how="A trace processor takes every finished span from ddtrace (nothing is sent); each trace is matched, span by span, with what an independent "
     "hook saw run: parents, names, tags, services, links, errors, intervals, and weak references show that finished runs are let go. MLflow runs go to a "
     "file store in a scratch directory and are read back with the MLflow client: runs, status, parameters, tags, metrics, and the content of every artifact.",
 bounds="flows of up to 6 functions, blocks of up to 4 items, 3 concurrent runs (4 async), file stores only, scikit-learn models.",
 not_claimed="sending traces to an agent, spans of async nodes still running when another one failed, figure and model savers with options taken from other nodes "
     "(the tracker cannot tell which dependency is the saved one), system metrics, remote tracking servers.")
