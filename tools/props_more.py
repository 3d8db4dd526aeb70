prop("P03", "Task-based and parallel execution equals sequential evaluation",
     "With dynamic execution enabled, any dataflow - with or without Parallelizable/Collect blocks, empty, generator-fed or chained "
     "ones included - returns for any executor (synchronous, thread pool, process pool, custom), grouping strategy, completion order "
     "and overrides outside block bodies exactly the values sequential evaluation gives: Collect receives one item per expanded item, "
     "in expansion order; each body function runs once per item and every other needed function once; unneeded functions never run.",
     ["schedules", "programs", "inputs"],
     "all dataflows within the documented limits, all executors, groupings and completion orders",
     "Result routing between tasks depends on the order in which tasks finish and on block structure; tests run a few fixed dataflows on benign schedules.",
     ["hamilton/execution/state.py", "hamilton/execution/grouping.py", "hamilton/execution/executors.py", "hamilton/driver.py",
      "hamilton/execution/graph_functions.py"],
     [("parameterisation and gathering of block tasks", "hamilton/execution/state.py:realize_parameterized_group, bind_task"),
      ("grouping into blocks", "hamilton/execution/grouping.py:GroupByRepeatableBlocks"),
      ("task plan with overrides", "hamilton/execution/grouping.py:create_task_plan")],
     ["Driver.execute return values", "call events of user functions (also across processes)"],
     "call monitor + sequential reference under adversarial, threaded and multi-process schedules")

prop("P04", "Task scheduling is ordered, bounded, terminates and fails cleanly",
     "For every dataflow and schedule of the task-based executor: a function starts only after everything it depends on has returned; "
     "each task is submitted exactly once and only to an executor that has just said it has capacity; block tasks go to the remote executor and all "
     "others to the local one; a pool executor never runs more than max_tasks tasks at once and does run that many when there is work; "
     "every run ends, executors being initialised once and finalised once. If functions fail, execute raises the exception "
     "of one of them, nothing depending on a failed function runs, no user code keeps running afterwards, and the driver works again on the next run.",
     ["schedules", "programs"],
     "all interleavings of task completion, refusal and failure",
     "Ordering, capacity and failure handling depend on interleavings that a test run does not control.",
     ["hamilton/execution/executors.py", "hamilton/execution/state.py"],
     [("scheduling loop", "hamilton/execution/executors.py:run_graph_to_completion"),
      ("capacity", "hamilton/execution/executors.py:PoolExecutor.can_submit_task"),
      ("enqueue when dependencies are done", "hamilton/execution/state.py:ExecutionState.update_task_state")],
     ["events at the TaskExecutor boundary", "call/return events of user functions"],
     "online trace checker at the executor boundary with fault, delay and refusal injection")

prop("P05", "The async driver computes what plain evaluation computes",
     "For any mix of async and plain functions, requests, inputs, overrides and interleavings of coroutines - including many executions in flight on one "
     "driver - AsyncDriver.execute returns the values plain evaluation gives, runs each needed function exactly once per execution and no other, and lets independent "
     "async functions progress concurrently. A failing function's exception reaches the caller unchanged, nothing depending on it runs and the "
     "driver stays usable. Async lifecycle hooks see one graph pair per execution and one pre/post pair per executed node with its actual result or error. "
     "tag, config, extract_fields, extract_columns, check_output, pipe_input, pipe_output, mutate and subdag behave on async functions as on plain ones.",
     ["schedules", "programs", "inputs"],
     "all interleavings of coroutines and of concurrent executions",
     "Interleavings of coroutines and concurrent requests are not controlled by the tests, which await one small graph at a time.",
     ["hamilton/async_driver.py", "hamilton/function_modifiers/expanders.py", "hamilton/function_modifiers/macros.py"],
     [("task per node, awaiting of arguments", "hamilton/async_driver.py:AsyncGraphAdapter.do_node_execute"),
      ("execution and hooks", "hamilton/async_driver.py:AsyncDriver.raw_execute")],
     ["AsyncDriver.execute results", "events recorded in coroutines and async hooks"],
     "event-loop interleaving injection with call/hook monitors and a reference evaluator")

prop("P06", "Lifecycle hooks report exactly what happened, once and in order",
     "For every run, executor and set of adapters: graph hooks enclose the run and are called once per adapter with the request, and afterwards with the actual "
     "result or error; every function execution - and nothing overridden, supplied or unneeded - is enclosed by exactly one pre and one post node hook per adapter, "
     "in adapter order, carrying its actual arguments, result, error, run id and task id; task hooks enclose their nodes' hooks one to one; an "
     "execution method replaces the call exactly once per node; validators see every node and can veto construction; the construction hook fires once per build. An exception raised by a hook fails the run "
     "with that exception, and a failing pre hook prevents the function from running.",
     ["programs", "schedules", "configurations"],
     "all dataflows, adapter sets, executors and failure points",
     "Exactly-once and ordering over adapters, executors, overrides and failures is a trace property; tests check a few adapters on two graphs.",
     ["hamilton/lifecycle/base.py", "hamilton/lifecycle/api.py", "hamilton/execution/graph_functions.py", "hamilton/execution/executors.py", "hamilton/driver.py"],
     [("node lifecycle", "hamilton/execution/graph_functions.py:execute_lifecycle_for_node"),
      ("dispatch", "hamilton/lifecycle/base.py:LifecycleAdapterSet"),
      ("graph hooks", "hamilton/driver.py:Driver.execute"),
      ("task hooks", "hamilton/execution/executors.py:base_execute_task")],
     ["events recorded by adapters and user functions in one ordered log"],
     "trace automaton over recorded hook events with failure injection")

prop("P07", "Caching is transparent: a cached run returns what an uncached run would",
     "With caching enabled, over any history of runs on one cache location - changing requests, inputs, config and overrides; editing "
     "a function's code, its defaults or the literal arguments of its decorators, and reverting it; rebuilding the driver or restarting the process; deleting stored results, "
     "metadata or materialised files; failing functions; file/SQLite or in-memory stores, @cache formats; sequential, task-based or parallel "
     "execution - every run returns exactly the values (or raises the exception) plain evaluation of the current code gives for deterministic functions, "
     "and an unchanged run in a new process is served from the cache.",
     ["histories", "programs", "inputs", "schedules"],
     "all sequences of runs, edits, restarts and deletions on one cache location",
     "Staleness needs a particular history (edit-revert, reorder, delete, refresh); tests check two or three consecutive runs of fixed modules.",
     ["hamilton/caching/adapter.py", "hamilton/caching/fingerprinting.py", "hamilton/caching/cache_key.py", "hamilton/caching/stores/"],
     [("cache key from code and data versions", "hamilton/caching/cache_key.py:create_cache_key"),
      ("retrieval, execution and storage", "hamilton/caching/adapter.py:HamiltonCacheAdapter.do_node_execute"),
      ("fingerprints of values", "hamilton/caching/fingerprinting.py:hash_value")],
     ["Driver.execute results over a history", "calls of user functions", "files in the store"],
     "history generation with an uncached reference evaluator as oracle")

prop("P08", "Caching behaviours run, reuse and store exactly what they promise",
     "Over any history of cached runs, a node with the default behaviour runs exactly when no result is stored for its current code and argument values "
     "(edits of comments, docstrings and whitespace do not count), and otherwise returns the stored result; a recompute node always runs and replaces its result, a disabled node "
     "always runs and reads and writes nothing, an ignored node always runs, stores no result and leaves the reuse of its dependents untouched. "
     "Each node obeys the most specific of driver arguments, @cache decorators and defaults - naming one node twice is refused before anything runs - items of a parallel block are reused one by one, "
     "data loaders and savers follow their own defaults, and the log of a run agrees with what ran.",
     ["histories", "configurations", "programs"],
     "all histories of runs, edits, rebuilds, changed behaviours, failures and deletions on one cache",
     "Which node may be skipped depends on the whole history; tests look at one or two runs of three-node modules.",
     ["hamilton/caching/adapter.py", "hamilton/caching/cache_key.py", "hamilton/function_modifiers/metadata.py", "hamilton/driver.py"],
     [("behaviour resolution", "hamilton/caching/adapter.py:HamiltonCacheAdapter.resolve_behaviors"),
      ("hit, execution and storage", "hamilton/caching/adapter.py:HamiltonCacheAdapter.do_node_execute"),
      ("code versions", "hamilton/graph_types.py:hash_source_code")],
     ["calls of user functions", "contents of the stores", "results", "cache log"],
     "call and store monitor judged by an exact model of the cache along random histories")

prop("P09", "Cache stores are durable maps under crashes, faults and concurrency",
     "Metadata and result stores behave as maps over any sequence of set/get/exists/delete/delete_all, in any format, over "
     "reopenings and several handles: a read returns the last value written or reports a miss. If a process is killed at any point, a write "
     "fails half-way, or threads and processes write concurrently, every completed write is still readable and no reader ever sees a partial, mixed or foreign value; "
     "run ids list exactly what the run recorded, and transferring a store to another loses nothing. Cache keys are deterministic, "
     "depend on every component, and decode to what they encode.",
     ["crash_points", "histories", "schedules", "fault_sequences"],
     "all operation sequences, kill points, write failures and interleavings of writers",
     "Crash points, half-written files and concurrent writers are not driven by the tests, which write and read back once.",
     ["hamilton/caching/stores/file.py", "hamilton/caching/stores/sqlite.py", "hamilton/caching/stores/memory.py", "hamilton/caching/stores/base.py",
      "hamilton/caching/cache_key.py"],
     [("result files", "hamilton/caching/stores/file.py:FileResultStore"),
      ("metadata tables", "hamilton/caching/stores/sqlite.py:SQLiteMetadataStore"),
      ("keys", "hamilton/caching/cache_key.py:create_cache_key, decode_key")],
     ["return values and files after crashes", "operation logs of killed and concurrent writers"],
     "fault injection (SIGKILL, RLIMIT_FSIZE, concurrent writers) with offline log checkers and a map model")

prop("P10", "Fingerprints are deterministic and tell different values apart",
     "The fingerprint of a value depends on the value alone: equal reconstructions, copies, dictionaries and sets in another insertion order, and other processes with other hash seeds "
     "give the same one. Changing any element, key, attribute, cell, index value or name, or the order of a list, array or frame changes it. "
     "A value that cannot be fingerprinted, or contains one beyond the documented depth, never shares a fingerprint with another value.",
     ["inputs"],
     "all values built from scalars, containers, dates, objects, numpy arrays, pandas and polars objects",
     "Injectivity and determinism quantify over all values and processes; tests pin a dozen constants.",
     ["hamilton/caching/fingerprinting.py"],
     [("dispatch per type", "hamilton/caching/fingerprinting.py:hash_value")],
     ["fingerprints in one and several processes"],
     "metamorphic monitor: reconstructions must agree, single mutations must differ")

prop("P11", "Config and module order select exactly the implementations they name",
     "For any set of functions guarded by @config conditions (when, when_not, when_in, when_not_in and custom predicates, stacked, name suffixed with __ or renamed) and any "
     "config, the driver contains exactly the functions whose conditions hold, under their plain names, and executes them; if two hold for one name building fails, and a config entry of "
     "that name supplies the value instead. With module overrides allowed a later module's functions replace earlier ones, otherwise building "
     "fails; @resolve builds the decorator from the config it asks for; copies and rebuilds over the same module are independent of one another.",
     ["configurations", "programs"],
     "all conditions, configs and module orders",
     "The conditions and configs multiply; tests check single decorators on single functions.",
     ["hamilton/function_modifiers/configuration.py", "hamilton/function_modifiers/delayed.py", "hamilton/graph.py", "hamilton/driver.py"],
     [("conditions", "hamilton/function_modifiers/configuration.py:config"),
      ("duplicate names and overrides", "hamilton/graph.py:update_dependencies, create_function_graph"),
      ("delayed decorators", "hamilton/function_modifiers/delayed.py:resolve")],
     ["node lists of drivers", "results and calls of user functions"],
     "call monitor + reference evaluator under generated conditions and configs")

prop("P12", "Expanding decorators create exactly the nodes they describe",
     "For any function under @parameterize, @parameterize_values, @parameterize_sources, @inject, @extract_columns, @extract_fields, @parameterize_extract_columns or @does, "
     "the dataflow has exactly the described nodes with the described names, documentation and dependencies; each parameterised node equals the function applied to the literal values, nodes and "
     "groups (lists or dicts, in the given order) it names, unaffected by names shared between parameters, nodes and literals. "
     "Extraction runs the function once per execution and yields each column or field as the function returned it - or the fill value if missing and allowed, and otherwise an error - "
     "and the values are the same with the sequential, task-based and async drivers.",
     ["programs", "inputs"],
     "all functions, parameterisations, column/field lists, requests and overrides",
     "The combinations of sources, values, groups, swapped names and optional parameters are unbounded; tests look at one per decorator.",
     ["hamilton/function_modifiers/expanders.py", "hamilton/function_modifiers/macros.py", "hamilton/function_modifiers/recursive.py",
      "hamilton/function_modifiers/dependencies.py", "hamilton/node.py"],
     [("parameterisation", "hamilton/function_modifiers/expanders.py:parameterize.expand_node"),
      ("columns", "hamilton/function_modifiers/expanders.py:extract_columns.transform_node"),
      ("fields", "hamilton/function_modifiers/expanders.py:extract_fields.transform_node"),
      ("does", "hamilton/function_modifiers/macros.py:does")],
     ["node lists, dependencies and docs of drivers", "results", "calls of user functions"],
     "call monitor + independently written expansion of the decorators")

prop("P13", "A subdag computes what its functions compute in a driver of their own",
     "For any modules or functions used through @subdag or @parameterized_subdag, nested or several times in one dataflow, each instance computes "
     "what a separate driver over these functions would with the instance's config and inputs - literals or outer nodes; names it is not given come from the outer dataflow "
     "when declared external or not defined inside. Instances share no values or config with each other or with outer nodes of the same names, every inner node of an "
     "instance runs once per execution, only if needed, and can be requested and overridden under its namespace.",
     ["programs", "configurations", "inputs"],
     "all inner dataflows, instantiations, configs, inputs, requests and overrides",
     "Name capture and config leaks need particular name collisions between instances; tests use disjoint names.",
     ["hamilton/function_modifiers/recursive.py", "hamilton/function_modifiers/base.py", "hamilton/node.py"],
     [("namespacing and inputs", "hamilton/function_modifiers/recursive.py:subdag.generate_nodes"),
      ("parameterised subdags", "hamilton/function_modifiers/recursive.py:parameterized_subdag")],
     ["node lists of drivers", "results", "calls of user functions"],
     "call monitor + independently written flattening + comparison with a driver of the inner functions")

prop("P14", "pipe_input, pipe_output and mutate compose exactly the steps they list",
     "For any function under @pipe_input, @pipe_output or @mutate, the value its body receives, respectively its dependents see, is the plain composition, in the listed order, of the steps whose "
     "conditions hold under the config, each called once with the given literals and nodes - also when several arguments share a node or are named like another parameter. "
     "Named steps are nodes holding the intermediate value; on_input/on_output reach only the parameter or output they target and no one else; "
     "skipping all steps leaves the plain function; building several drivers over one module gives each its own composition.",
     ["programs", "configurations", "inputs"],
     "all step lists, arguments, conditions, targets, configs and requests",
     "Step order, skipped steps and colliding argument names multiply; tests chain two or three steps with distinct names.",
     ["hamilton/function_modifiers/macros.py", "hamilton/node.py"],
     [("chaining", "hamilton/function_modifiers/macros.py:chain_transforms, pipe_input, pipe_output"),
      ("mutate", "hamilton/function_modifiers/macros.py:mutate"),
      ("argument binding", "hamilton/node.py:Node.reassign_inputs")],
     ["node lists of drivers", "results", "calls of user functions"],
     "call monitor + plain function composition as oracle")

prop("P15", "Data quality checks judge the real output and never change it",
     "For any function under @check_output or @check_output_custom - also combined with parameterisation, extraction or pipes, with any target, importance and driver - every validator is applied exactly once per execution to the "
     "value the function returned, and its verdict is the one its definition gives for that value (ranges, allowed values, NaN fractions, standard deviations, means, types, lengths, regular expressions, pandera schemas; empty and NaN data included). "
     "With importance `warn` the value passes on unchanged and the failure is logged; with `fail` any failing validator stops the run, naming the failures, before a dependent runs; "
     "validators' results are available as nodes marked by the data-quality tags.",
     ["inputs", "programs"],
     "all values, validators, targets and importance levels",
     "The verdicts range over all values including NaN and empty ones; tests check a handful of constants per validator.",
     ["hamilton/data_quality/base.py", "hamilton/data_quality/default_validators.py", "hamilton/data_quality/pandera_validators.py", "hamilton/function_modifiers/validation.py"],
     [("wiring of validators", "hamilton/function_modifiers/validation.py:BaseDataValidationDecorator.transform_node"),
      ("verdicts", "hamilton/data_quality/default_validators.py"),
      ("importance", "hamilton/data_quality/base.py:act_fail_bulk, act_warn")],
     ["results and errors of executions", "log records", "calls of user functions and validators"],
     "call and log monitors + verdicts recomputed from the raw values")

prop("P16", "Loaders, savers and materializers move each value exactly once",
     "For any dataflow and any set of materializers - passed to Driver.materialize, to Builder.with_materializers or as load_from / save_to / dataloader / datasaver decorators, with literal, source() and shared arguments - each needed saver is called "
     "once with the value computed for its target (combined by its result builder) and each needed loader once with its declared arguments, unneeded ones never; requested results are what plain "
     "execution gives with the loaded values in place; metadata returned by savers reaches the caller under their ids. The adapter used is one registered for the key and applicable to the type. Ad hoc materializers leave the driver "
     "unchanged, and a problem in them surfaces as itself.",
     ["programs", "configurations"],
     "all dataflows, adapters, argument bindings, registrations and drivers",
     "Argument sharing, name collisions, overrides and registration order multiply; tests use one saver or loader with literal arguments.",
     ["hamilton/io/materialization.py", "hamilton/function_modifiers/adapters.py", "hamilton/io/data_adapters.py", "hamilton/registry.py", "hamilton/driver.py"],
     [("graph modification", "hamilton/io/materialization.py:modify_graph, MaterializerFactory, ExtractorFactory"),
      ("decorators", "hamilton/function_modifiers/adapters.py"),
      ("resolution", "hamilton/function_modifiers/adapters.py:resolve_adapter_class")],
     ["calls of registered adapters", "results and metadata of executions", "variables of the driver before and after"],
     "call monitor on recording adapters + reference evaluator")

prop("P17", "Shipped data adapters store what they are given and honour their options",
     "For the file and database adapters Hamilton ships for Python values, pandas and polars whose backends are installed: loading what was saved returns the value, up to what the format can express; "
     "every declared option has the effect the wrapped library documents for it, whatever other options are set, so saving or loading through the adapter equals calling the library with the same arguments; "
     "an explicitly given None, False, 0 or empty value is honoured; the reported metadata describes the stored value; loading something absent fails.",
     ["inputs", "configurations"],
     "all values of the supported types and option combinations",
     "Each adapter forwards dozens of options; tests set none or one of them.",
     ["hamilton/io/default_data_loaders.py", "hamilton/plugins/pandas_extensions.py", "hamilton/plugins/polars_extensions.py", "hamilton/plugins/polars_lazyframe_extensions.py", "hamilton/plugins/yaml_extensions.py", "hamilton/io/utils.py"],
     [("default loaders and savers", "hamilton/io/default_data_loaders.py"),
      ("pandas", "hamilton/plugins/pandas_extensions.py:_get_loading_kwargs, _get_saving_kwargs"),
      ("polars", "hamilton/plugins/polars_extensions.py")],
     ["files written", "values loaded", "metadata returned", "calls into the wrapped library"],
     "differential monitor: adapter against direct calls of the wrapped library, plus recorded forwarding of options")

prop("P18", "What the driver says about a dataflow is what it executes",
     "For any dataflow, config, inputs and overrides: list_available_variables lists every node and input with its type, tags and dependencies, filtered exactly by the given tags; what_is_upstream_of, what_is_downstream_of and "
     "what_is_the_path_between return exactly the ancestors, descendants and the nodes between, and executing a request calls exactly functions among its reported ancestors; export_execution lists exactly what an execution of the request involves; "
     "drawings contain exactly the nodes and edges they are asked for. Unknown names are refused.",
     ["programs", "configurations"],
     "all dataflows and queries",
     "Lineage is a relation over all pairs of nodes; tests ask for one or two on fixed graphs.",
     ["hamilton/driver.py", "hamilton/graph.py", "hamilton/graph_types.py", "hamilton/graph_utils.py"],
     [("lineage", "hamilton/driver.py:Driver.what_is_upstream_of, what_is_downstream_of, what_is_the_path_between"),
      ("traversal", "hamilton/graph.py:FunctionGraph.directional_dfs_traverse, get_impacted_nodes"),
      ("drawing", "hamilton/graph.py:create_graphviz_graph"),
      ("export", "hamilton/driver.py:Driver.export_execution")],
     ["return values of the queries", "dot sources", "calls of user functions"],
     "query monitor against an independent graph and against observed calls")

prop("P19", "Versions follow the code, and the CLI reports exactly what changed",
     "For any module source: the version of a function's nodes and of the dataflow is unchanged by comments, docstrings, formatting, order of functions and process, and changes when the body, a default, an annotation, a parameter or a decorator of the "
     "function changes, leaving the versions of other functions' nodes alone. `hamilton version` reports these versions; `hamilton diff` against any git reference reports exactly the nodes added, removed and edited, in its drawing too, also for files "
     "created since; `validate` and context files (.json, .py) are accepted exactly when the execution they describe is possible. Functions given as imported file, source string, created or temporary module form the same dataflow.",
     ["programs", "histories"],
     "all sources, edits, histories and references",
     "Cosmetic and behavioural edits are unbounded; tests compare two fixed files.",
     ["hamilton/graph_types.py", "hamilton/cli/logic.py", "hamilton/cli/commands.py", "hamilton/ad_hoc_utils.py"],
     [("versions", "hamilton/graph_types.py:hash_source_code, HamiltonGraph.version"),
      ("diff", "hamilton/cli/commands.py:diff; hamilton/cli/logic.py:diff_versions, load_modules_from_git"),
      ("module forms", "hamilton/ad_hoc_utils.py")],
     ["versions reported by drivers and the command line", "diff reports and drawings", "results of equivalent modules"],
     "metamorphic monitor over generated source edits and git histories")

prop("P20", "Shipped adapters do what they say and leave the rest of a run as it is",
     "For any dataflow, executor and failure pattern: GracefulErrorAdapter replaces exactly the nodes failing with the given error, and their dependents unless they accept sentinels, by the sentinel (keeping the items a Parallelizable had yielded, as configured) and lets other errors through; "
     "PrintLn reports each selected execution once, with its status; FunctionInputOutputTypeChecker raises exactly for values that are no instances of the declared type and never hides a node's own error; PDBDebugger stops exactly at the selected nodes; NoEdgeAndInputTypeChecking lifts exactly the type checks; "
     "SlackNotifier posts and OpenTelemetryTracer marks exactly the failing executions. Results, calls and errors are otherwise those of a run without the adapter, also when an adapter is reused.",
     ["programs", "inputs", "schedules"],
     "all dataflows, failures, values, declared types, options and executors",
     "Failure patterns, nested types and executors multiply; tests run single nodes on one executor.",
     ["hamilton/lifecycle/default.py", "hamilton/htypes.py", "hamilton/plugins/h_tqdm.py", "hamilton/plugins/h_slack.py", "hamilton/plugins/h_opentelemetry.py"],
     [("graceful errors", "hamilton/lifecycle/default.py:GracefulErrorAdapter"),
      ("messages", "hamilton/lifecycle/default.py:PrintLn"),
      ("instance checks", "hamilton/htypes.py:check_instance")],
     ["results, errors and calls of executions", "printed messages, spans and posts"],
     "message/span/call monitors + evaluator with the adapters' documented semantics")

prop("P21", "Result builders assemble exactly the requested values",
     "For any requested outputs: without a builder a driver returns a dict of exactly the requested names, in request order; PandasDataFrameResult returns one column per output in request order (a dataframe next to other outputs flattened to name.column, "
     "a sole dataframe as it is), outer-joined on the index with every computed cell in place, scalars broadcast, only scalars giving one row; StrictIndexTypePandasDataFrameResult raises exactly when the outputs with an index do not share one index type; "
     "NumpyMatrixResult returns one column per output in order, scalars broadcast, unlike lengths refused; polars, polars lazy and pyarrow builders likewise. This is the same with the sequential, task-based, async and legacy drivers, and no output is lost, replaced or modified.",
     ["inputs", "configurations"],
     "all combinations of output kinds, lengths, indexes and request orders, with every driver",
     "Alignment of indexes, broadcasting and order depend on the whole combination of outputs; tests build a few fixed ones.",
     ["hamilton/base.py", "hamilton/plugins/h_polars.py", "hamilton/plugins/h_polars_lazyframe.py", "hamilton/plugins/h_pyarrow.py", "hamilton/async_driver.py", "hamilton/driver.py"],
     [("builders", "hamilton/base.py:PandasDataFrameResult, StrictIndexTypePandasDataFrameResult, NumpyMatrixResult"),
      ("async", "hamilton/async_driver.py:AsyncDriver.execute"),
      ("plugins", "hamilton/plugins/h_polars.py, h_polars_lazyframe.py, h_pyarrow.py")],
     ["results of executions and of build_result"],
     "differential monitor: built results against an independent cell-by-cell model")

prop("P22", "with_columns appends exactly the selected computed columns",
     "For any pandas, polars or lazy frame and any operations given to with_columns (columns_to_pass or on_input; select, or every column-typed node; config variants; several uses and builds): the decorated function receives the frame with exactly the selected columns appended or overwritten with the values "
     "plain evaluation of the operations gives; other columns, rows and index, and the original frame, are untouched; each needed operation runs once per use and the others never; intermediate nodes appear under the namespace; an operation named like a passed column and an unknown selection are refused at build.",
     ["programs", "inputs", "configurations"],
     "all frames, operations and selections",
     "The decorator splices a sub-DAG around frame extraction and merge nodes; tests run two or three fixed shapes.",
     ["hamilton/function_modifiers/recursive.py", "hamilton/plugins/h_pandas.py", "hamilton/plugins/h_polars.py", "hamilton/plugins/h_polars_lazyframe.py"],
     [("node injection", "hamilton/function_modifiers/recursive.py:with_columns_base.inject_nodes"),
      ("pandas", "hamilton/plugins/h_pandas.py:with_columns"), ("polars", "hamilton/plugins/h_polars.py:with_columns")],
     ["frames seen by the decorated functions", "calls of the operations", "nodes of the driver"],
     "call monitor + reference evaluator over random frames and operations")

prop("P23", "Handing nodes or tasks to Dask or Ray does not change what is computed",
     "For any dataflow and request, with DaskGraphAdapter (delayed or eager, computing at the end or not, any result builder), DaskExecutor, RayGraphAdapter, RayWorkflowGraphAdapter and RayTaskExecutor: the results equal those of the plain driver, each needed function runs once (once per item in parallel blocks), a user's exception reaches the caller, "
     "hooks fire once per node execution, nothing is computed early when compute_at_end is off, ray_remote_options apply to exactly the decorated nodes, and a cluster is started or shut down only as asked.",
     ["programs", "inputs", "schedules"],
     "all dataflows, requests, adapter options and cluster schedules",
     "Laziness and argument resolution are interposed on every edge; the tests run a few fixed graphs and those on a real Ray cluster are not stable here.",
     ["hamilton/plugins/h_dask.py", "hamilton/plugins/h_ray.py"],
     [("dask", "hamilton/plugins/h_dask.py:DaskGraphAdapter.do_node_execute, DaskExecutor"),
      ("ray", "hamilton/plugins/h_ray.py:RayGraphAdapter, RayTaskExecutor, raify")],
     ["results, calls and hook events", "remote submissions and their options"],
     "call/hook/submission monitors + reference evaluator; local dask and a recording stand-in for ray")

prop("P24", "The Hamilton UI tracker reports exactly the runs that happened",
     "For any dataflow, driver (sync, task-based, async) and failure: the tracker leaves results and exceptions unchanged; it registers one template per graph and files each run under the template of its own graph, also across many drivers and materialize calls; one run record per execution with its inputs, outputs and final status; one final record per node execution (each parallel task apart) "
     "with status, dependencies, times around the body, and the result summary or error; sampling drops whole tasks of blocks but never failures. Everything is delivered once stop() returns or the process exits in an orderly way, whatever the values (nan, inf, odd keys, arbitrary objects), and after an error response of the server; column statistics of pandas and polars frames are correct.",
     ["programs", "inputs", "histories"],
     "all dataflows, values, runs, drivers and delivery schedules",
     "Batching threads, identity-keyed caches and value summaries depend on histories and values; the tests mock the client.",
     ["ui/sdk/src/hamilton_sdk/adapters.py", "ui/sdk/src/hamilton_sdk/api/clients.py", "ui/sdk/src/hamilton_sdk/tracking/runs.py", "ui/sdk/src/hamilton_sdk/tracking/utils.py", "ui/sdk/src/hamilton_sdk/tracking/data_observability.py", "ui/sdk/src/hamilton_sdk/tracking/pandas_stats.py"],
     [("adapters", "ui/sdk/src/hamilton_sdk/adapters.py:HamiltonTracker, AsyncHamiltonTracker"),
      ("delivery", "ui/sdk/src/hamilton_sdk/api/clients.py:BasicSynchronousHamiltonClient.worker, stop, flush"),
      ("summaries", "ui/sdk/src/hamilton_sdk/tracking")],
     ["requests received by a local server", "results of the runs"],
     "offline checker over the requests recorded by a local HTTP server, against the observed executions")

prop("P25", "Drivers are independent of one another, their builder and the caller",
     "Any sequence - and, with the default executor, any concurrent mix from several threads - of executions, materializations, queries, drawings, validations and failed calls on any drivers built from the same modules, builders, adapters and materializers gives on each what a fresh driver gives. Config, inputs, overrides, request lists and modules passed in are not modified. "
     "Changing a builder, a copy of it, or the dictionaries given to it after a build does not affect drivers already built; builder settings take effect whatever their order, and contradictory ones are refused. A pickled and restored driver, also in another process, behaves like the original.",
     ["programs", "histories", "schedules"],
     "all sequences and interleavings of driver and builder calls",
     "Leaks of state between drivers, runs and builders show only after particular sequences of calls; tests use one driver once.",
     ["hamilton/driver.py", "hamilton/async_driver.py", "hamilton/graph.py", "hamilton/lifecycle/base.py"],
     [("builder", "hamilton/driver.py:Builder, hamilton/async_driver.py:Builder"),
      ("driver state", "hamilton/driver.py:Driver.__init__, materialize, __getstate__"),
      ("memoisation per run", "hamilton/driver.py:DefaultGraphExecutor.execute")],
     ["results, errors, queries and drawings of every driver", "snapshots of what was passed in", "adapter and executor events"],
     "history monitor: every driver against a fresh one / a model of the builder; snapshots; stressed threads")

prop("P26", "Usage telemetry: off means off, harmless, and without user content",
     "With telemetry disabled - by environment variable, configuration file or disable_telemetry() at any time - nothing is ever sent; the environment overrides the file, and unparsable values change nothing. With it enabled, at most ten events per process are sent, from background threads, with the anonymous id kept in the configuration file; they contain none of the user's names, values, messages or paths, and their counts and statuses describe the operation. "
     "Whether enabled or not, and whether the endpoint answers, fails or hangs, every operation - building, executing, querying, async runs, the command line, the dataflow helpers - gives the same results, errors and settings file contents otherwise.",
     ["programs", "configurations", "faults"],
     "all programs, settings and endpoint behaviours",
     "The test suite disables telemetry globally; privacy and non-interference must hold for every program and failure.",
     ["hamilton/telemetry.py", "hamilton/driver.py", "hamilton/async_driver.py", "hamilton/dataflows/__init__.py", "hamilton/contrib/__init__.py", "hamilton/registry.py"],
     [("switches and limit", "hamilton/telemetry.py:is_telemetry_enabled, send_event_json"),
      ("content", "hamilton/telemetry.py:sanitize_error, create_start_event_json"),
      ("call sites", "hamilton/driver.py:capture_function_usage, capture_execute_telemetry; hamilton/dataflows/__init__.py:_track_function_call")],
     ["requests reaching the (replaced) network", "results of the operations", "the configuration file"],
     "recorded network of separate processes, checked against the operations performed; marker (taint) search in payloads")

prop("P27", "Lineage events, recorded schemas and experiment records match what a run did",
     "The OpenLineage adapter emits, for every run on every executor, one START with the requested outputs, inputs, overrides and source of the whole dataflow, one RUNNING event with the dataset (place, format, columns) for each loader and saver that completed, and one COMPLETE, or FAIL carrying the error, all under the run's id. "
     "SchemaValidator, over any history of runs on one directory, stores the Arrow schema of every dataframe node (also namespaced ones, inputs and overrides) once, overwrites only when told not to check, and warns or refuses exactly when columns, types or the metadata asked for differ, naming exactly the differences. "
     "ExperimentTracker records exactly the inputs, overrides, savers' files and outcome of its latest run, keeps relative files in the run directory and restores the working directory. None of them changes a result, an error or the order of execution.",
     ["programs", "histories", "failures"],
     "all dataflows, option combinations, histories of runs and failing nodes",
     "The adapters are barely tested; what they record must match every run, including failing and repeated ones.",
     ["hamilton/plugins/h_openlineage.py", "hamilton/plugins/h_schema.py", "hamilton/plugins/h_experiments/hook.py", "hamilton/plugins/h_experiments/cache.py"],
     [("lineage", "hamilton/plugins/h_openlineage.py:OpenLineageAdapter"),
      ("schemas", "hamilton/plugins/h_schema.py:SchemaValidator, diff_schemas, human_readable_diff"),
      ("experiments", "hamilton/plugins/h_experiments/hook.py:ExperimentTracker")],
     ["events at the transport", "files in the schema and run directories", "warnings, errors and results", "the stored experiment record"],
     "offline checker of recorded events and files against an independent hook and a model of the schema directory")

prop("P28", "Column functions on Spark dataframes compute what they define",
     "h_spark.with_columns and h_spark.select apply a group of functions - row functions, pandas functions, Spark functions on one column or, with @require_columns, on several, returning columns or dataframes - to a Spark dataframe in dependency order: each new column equals its function applied to the columns it names (of the frame or of the group) and to outside values bound by name or left to their defaults. "
     "Appending keeps the frame's columns and rows in order and adds exactly the selected functions' columns, selecting gives exactly those asked for in that order; namespaces, pass_dataframe_as and several groups in one dataflow do not change values. PySparkUDFGraphAdapter gives the input frame plus exactly the requested columns, on every run. Impossible declarations are refused.",
     ["programs", "inputs"],
     "all groups of column functions, options and frames",
     "A wrong parameter order or a wrong intermediate frame yields plausible columns; the tests use a few fixed groups.",
     ["hamilton/plugins/h_spark.py", "hamilton/function_modifiers/recursive.py"],
     [("with_columns, select", "hamilton/plugins/h_spark.py:with_columns, select, require_columns"),
      ("UDFs", "hamilton/plugins/h_spark.py:_lambda_udf, _determine_parameters_to_bind, _fabricate_spark_function"),
      ("adapter", "hamilton/plugins/h_spark.py:PySparkUDFGraphAdapter")],
     ["columns and rows collected from a local Spark session", "errors when building"],
     "differential monitor: rows collected from Spark against the same expressions evaluated row by row")

prop("P29", "Datadog traces and MLflow runs record exactly what a run did",
     "DDOGTracer, on every executor (also when tasks run on pickled copies) and for concurrent runs, gives each run one root span under the caller's active span, one span per task and one per executed node under its task (or the root), named after them, with the node's tags, the configured service, causal links from exactly the nodes of its task it consumed when asked for, and the error on exactly what failed; all are finished, the caller's span is active again afterwards and nothing of a finished run is kept. AsyncDDOGTracer does the same for the async driver. "
     "MLFlowTracker makes one MLflow run per execution (or uses the one it is given) on its own tracking server, FINISHED or FAILED as the execution ended, with config and inputs as parameters, its tags, the config and graph, and the requested results: numbers as metrics, strings as text, JSON-able dictionaries as JSON, figures as images, anything else that pickles as pickle, and every saver's file; calls of mlflow in user code go to the same run; afterwards no run is active and the active server is as before. Models saved with the mlflow materializer load back unchanged by run, URI, registered version or alias. None of this changes a result or an error.",
     ["programs", "histories", "failures", "schedules"],
     "all dataflows, executors, result types, option combinations and failing nodes",
     "The tracers have no tests at all; a trace or a run record that disagrees with the execution misleads silently.",
     ["hamilton/plugins/h_ddog.py", "hamilton/plugins/h_mlflow.py", "hamilton/plugins/mlflow_extensions.py"],
     [("traces", "hamilton/plugins/h_ddog.py:_DDOGTracerImpl, DDOGTracer, AsyncDDOGTracer"),
      ("runs", "hamilton/plugins/h_mlflow.py:MLFlowTracker"),
      ("models", "hamilton/plugins/mlflow_extensions.py:MLFlowModelSaver, MLFlowModelLoader")],
     ["finished spans handed over by ddtrace", "runs, parameters, tags, metrics and artifacts read back with the MLflow client", "results and errors"],
     "offline checker of recorded spans and run records against an independent hook and the values computed")
