"""The properties, in one place (properties.jsonl and MANIFEST.json are generated from it)."""
Q = "lsst/pipe/base"
P = "python/lsst/pipe/base/"
_B = "Exhaustive over all values and paths within the stated bounds; "
_E = " Trusts CPython, z3, the stated environment stand-ins and the harness's reference model."
NA = {}
PROPS = [
 dict(id="C01", title="Address-index lookups find exactly the stored rows",
  statement="Looking up an ID in the address index of a quantum-graph file returns the row that was stored for it (same index, same block offsets and sizes), and looking up an ID that was never stored raises a lookup error; this holds for every set of IDs, every page size, every interpolation outcome, and in whatever order lookups and full reads are mixed on one reader. Rows are numbered consecutively in ID order, and an index whose header is truncated or disagrees with the expected layout is refused.",
  over=["inputs","histories"], forall="all 128-bit ID values and all offsets/sizes of up to 4 rows, all page sizes 1..rows+1, all sequences of up to 3 lookups/reads",
  why="tests write one graph with random UUIDs; page boundaries, adjacent IDs and interpolation failures need specific ID values.",
  files=[P+"quantum_graph/_multiblock.py"], mech=[("page interpolation search","AddressReader.find"),("page read","AddressReader._read_page"),("writer","AddressWriter.write")],
  observe=["AddressReader.find/read_all","AddressWriter.write_to"],
  note=_B+"address files of up to 4 rows with fully symbolic 128-bit IDs and integer fields; zip/zstd not modelled."+_E),
 dict(id="C02", title="Multi-block files give back each block exactly",
  statement="For every sequence of blocks written to a multi-block file, reading at the address that was returned for an ID, in any order, or reading all blocks sequentially gives back exactly the bytes that were written. Writing an ID twice or a block too long for the length field is refused, an empty address is read as absent, and an address whose size disagrees with the stored length raises an error instead of returning other data.",
  over=["inputs","histories"], forall="up to 3 blocks (thorough 4) with symbolic contents, lengths from a boundary list, any read order, any page size",
  why="tests round-trip a few graphs; boundaries (empty block, first offset, truncation in the length prefix) are not sampled.",
  files=[P+"quantum_graph/_multiblock.py"], mech=[("block writer","MultiblockWriter.write_bytes"),("block reader","MultiblockReader.read_bytes")],
  observe=["MultiblockWriter.write_bytes","MultiblockReader.read_bytes"],
  note=_B+"up to 3 blocks; compression replaced by identity."+_E),
 dict(id="C03", title="Dependency-ordered traversal yields each node exactly when due",
  statement="A dependency-graph traversal yields a node exactly once, only after all its predecessors were marked successful, and never after it or an ancestor failed; marking a failure reports exactly the not-yet-resolved descendants as blocked. Iteration ends exactly when every node is successful, failed or blocked, whatever the order of marks and polls, including marks made before a node was yielded.",
  over=["schedules","inputs"], forall="all DAGs of up to 4 (thorough 5) nodes and all interleavings of poll/finish/fail",
  why="tests use one diamond graph in one completion order.",
  files=[P+"graph_walker.py"], mech=[("ready/blocked bookkeeping","GraphWalker.finish/fail/__next__")],
  observe=["GraphWalker iteration","GraphWalker.fail return value"],
  note=_B+"all DAGs with up to 4 nodes, all mark/poll orders."+_E),
 dict(id="C14", title="Packing observation and detector IDs is a bounded bijection",
  statement="Every in-range observation/detector pair packs to a non-negative integer below two to the advertised bit count, unpacks to the same pair, and shares its packed value with no other pair. Out-of-range pairs are rejected with an error.",
  over=["inputs","configurations"], forall="all identifier pairs and all observation limits up to 2^40, for the listed detector counts, for visits and exposures, limits from configuration or from instrument records",
  why="tests try a handful of values of one instrument; boundaries at the limits and powers of two need all values.",
  files=[P+"_observation_dimension_packer.py"], mech=[("pack/unpack arithmetic","ObservationDimensionPacker._pack/unpack"),("bit count","ObservationDimensionPacker.maxBits")],
  observe=["ObservationDimensionPacker.pack/unpack/maxBits"],
  note=_B+"detector counts from a list, everything else symbolic."+_E),
 dict(id="C04", title="Multi-process graph execution orders, bounds and contains work",
  statement="When a quantum graph runs in worker processes, a quantum starts at most once and only after all its predecessors (including orderings added by an execution fixup) succeeded, never more workers than requested run at once, and a free worker is used whenever a quantum is ready; in every interleaving of worker exits, crashes, kills and timeouts each quantum ends with exactly one report carrying the right status, exit code and error, failures block exactly the downstream quanta, everything else still runs, and the overall status, exception and worker cleanup match. With fail-fast, or an invalid-quantum error, no further quantum starts, the remaining workers are stopped and the dedicated exit code is kept; a worker is stopped by the time limit exactly when it is past it.",
  over=["schedules","fault_sequences"], forall="all DAGs of up to 4 quanta, 2-3 workers, all orders of worker completion, each worker ending by success, error, repeatable error, invalid quantum, signal or hang (obeying SIGTERM or not), all time limits",
  why="tests run a few graphs with real processes and timing; particular interleavings of exits, timeouts and SIGTERM races are not controllable there.",
  files=[P+"mp_graph_executor.py",P+"graph_walker.py"], mech=[("scheduler loop","MPGraphExecutor._execute_quanta_mp"),("job states","_JobList"),("worker entry point","_Job._executeJob")],
  observe=["MPGraphExecutor.execute","MPGraphExecutor.getReport","processes started/terminated"],
  note=_B+"processes, pipes and clock are stand-ins with symbolic behaviour, the worker entry point is the real one."+_E),
 dict(id="C05", title="In-process graph execution orders and contains work, with provenance",
  statement="When a quantum graph runs in a single process, each quantum runs at most once and only after all its predecessors (including fixup orderings) succeeded; a failure blocks exactly its descendants, everything else still runs, every quantum gets one report with the right status and, if requested, exactly one provenance record holding its own metadata and logs. A run with failures raises; fail-fast stops at the first failure, and invalid-quantum (always) or repeatable (with fail-fast) errors exit with their dedicated exit code; a cyclic fixup is refused before anything runs.",
  over=["schedules","fault_sequences","inputs"], forall="all DAGs of up to 4 quanta, every quantum ending in success or any error kind, fail-fast and provenance on or off, one extra fixup edge in any direction",
  why="tests exercise a few chains with one failing quantum.",
  files=[P+"mp_graph_executor.py",P+"graph_walker.py"], mech=[("in-process loop","MPGraphExecutor._execute_quanta_in_process"),("fixup and cycle check","MPGraphExecutor._make_xgraph")],
  observe=["MPGraphExecutor.execute","MPGraphExecutor.getReport","provenance writer calls"],
  note=_B+"per-quantum executor and provenance writer are stand-ins."+_E),
 dict(id="C06", title="Executing one quantum: skip, clobber, inputs, failures, what is written",
  statement="For every combination of pre-existing outputs and options, executing a quantum either skips it without side effects (its metadata exists and skipping is on), refuses without side effects (outputs in the way, no clobbering), or first removes exactly the existing outputs and runs; the task sees exactly the inputs that exist, and too few inputs means a recorded no-work success, a missing required prerequisite an error. Metadata is written if and only if the quantum succeeds, after its outputs, listing exactly the outputs written and the correct success caveats; the log is always written once, carries earlier attempts and earlier quanta of the process, and holds exception and metadata exactly when the quantum failed; the task's own error reaches the caller unchanged.",
  over=["inputs","histories","fault_sequences","configurations"], forall="all subsets of existing outputs and inputs (up to 5 outputs, 4 inputs), all option combinations, all task endings, for a per-quantum, a caller's limited, or a full butler",
  why="tests cover single combinations; the product of existing outputs, options and endings is never enumerated.",
  files=[P+"single_quantum_executor.py",P+"log_capture.py",P+"connections.py"], mech=[("output check","SingleQuantumExecutor._check_existing_outputs"),("input check","SingleQuantumExecutor._updated_quantum_inputs"),("log capture","LogCapture.capture_logging")],
  observe=["SingleQuantumExecutor.execute","butler put/prune/stored calls"],
  note=_B+"butler is a stand-in with symbolic existence; the task's behaviour is a symbolic script."+_E),
 dict(id="C07", title="Tasks read only their quantum's inputs and write only its outputs",
  statement="Through the context given to a task, a dataset can be read if and only if it is one of the quantum's inputs and written if and only if it is one of the quantum's data outputs (never its metadata or log), matching dataset type, data ID and dataset ID; a refused access never reaches the butler. Values come back in the order asked for, each value is written to its own dataset or the whole mismatched connection is refused, and exactly the successful writes are recorded, with the inputs read so far as provenance.",
  over=["inputs","histories"], forall="all dataset IDs (symbolic 128-bit), all listed dataset types and data IDs, sequences of 2-3 accesses, all shapes of connection-wise get and put",
  why="tests use the right refs and one wrong one.",
  files=[P+"_quantumContext.py"], mech=[("membership check","QuantumContext._checkMembership"),("bookkeeping","QuantumContext._put")],
  observe=["QuantumContext.get/put","QuantumContext.outputsPut"],
  note=_B+"butler is a recording stand-in."+_E),
 dict(id="C08", title="Quantum adjustment enforces what connections promise",
  statement="For every number of datasets found for each connection of a quantum, the default rules accept the quantum exactly when every regular input meets its minimum (otherwise it is skipped as no work), every prerequisite meets its minimum (otherwise a missing-file error), and no single-valued connection has several datasets (otherwise a scalar error). Changes a task asks for are applied exactly, to the named connections and nothing else; changes that add datasets, touch unknown connections or pass the wrong kind of value are refused; datasets are handed to the task under their own connection, single or multiple as declared, deferred if declared, with no dataset lost or duplicated.",
  over=["inputs","configurations"], forall="0..3 (thorough 4) datasets per connection, symbolic minimum, any combination of multiple/deferred/minimum settings, any task adjustment",
  why="tests check a few quanta of two test tasks.",
  files=[P+"connections.py"], mech=[("default rules","PipelineTaskConnections.adjustQuantum"),("applying adjustments","AdjustQuantumHelper.adjust_in_place"),("distribution","PipelineTaskConnections.buildDatasetRefs")],
  observe=["AdjustQuantumHelper.adjust_in_place","PipelineTaskConnections.buildDatasetRefs"],
  note=_B+"dataset types and data IDs are concrete, limits and counts symbolic."+_E),
 dict(id="C09", title="The predicted graph holds exactly the work that remains",
  statement="Whatever datasets already exist in the input, skip and output collections, the predicted graph contains exactly the quanta that are not already done and have enough inputs (existing, or produced by quanta of the graph), each with exactly its available inputs and its outputs; quanta already done are skipped, unless a dataset they produced was not retained and is needed again. Outputs already in the output run are refused, or reused with their identity when clobbering; every dataset has one identity throughout the graph, found datasets keep theirs, and missing init outputs of skipped tasks are reported.",
  over=["inputs","configurations"], forall="a 3-task pipeline over 1-2 detectors; every placement of every dataset in input, skip and output runs; all of skip-existing, clobber, retained types, pruning and task adjustments",
  why="tests build a few graphs from a few repository states; the product of partial previous outputs and options is never enumerated.",
  files=[P+"quantum_graph_builder.py",P+"quantum_graph_skeleton.py",P+"connections.py"], mech=[("skip/clobber decision","QuantumGraphBuilder._skip_quantum_if_metadata_exists and successors"),("quantum resolution","QuantumGraphBuilder._resolve_task_quanta"),("identity attachment","QuantumGraphBuilder._resolve_datasets")],
  observe=["QuantumGraphBuilder.finish","OutputExistsError / InitInputMissingError"],
  note=_B+"the data-ID query and registry are stand-ins answering symbolically; one pipeline shape."+_E),
 dict(id="C10", title="Graph-wide edits by tasks change exactly what they say",
  statement="Removing a quantum, adding a regular or prerequisite input or moving an output through the graph-adjustment interface changes exactly that: quanta, datasets and edges that were not named stay as they were, a removed quantum takes its own outputs (and nobody else's) with it, and edits that name datasets the graph does not hold are refused without effect. Pruning quanta nobody depends on, and datasets nobody uses, removes exactly those and reports how many.",
  over=["histories","inputs"], forall="sequences of up to 3 edits on a two-task graph with 1-3 detectors and arbitrary extra edges",
  why="tests apply one adjustment in one test task.",
  files=[P+"connections.py",P+"quantum_graph_skeleton.py"], mech=[("adjuster","QuantaAdjuster"),("skeleton","QuantumGraphSkeleton")],
  observe=["QuantaAdjuster methods","QuantumGraphSkeleton iteration"],
  note=_B+"one two-task skeleton, up to 3 edits."+_E),
 dict(id="C13", title="Task metadata is one nested key/value store that survives storage",
  statement="Task metadata behaves as one nested mapping whatever the order of assignments, additions, deletions and queries: each dotted key has one value, getters return what was stored last, adding to a value appends, unsupported values are refused without changing anything, and names, membership, length and dictionary views agree with each other. Writing it out and reading it back gives the same keys with the same values and types, including NaN, infinities, empty arrays and numeric-looking strings.",
  over=["histories","inputs"], forall="all sequences of up to 3 operations over 5 nested keys and 24 representative values of all supported and unsupported kinds",
  why="tests check one or two sequences; type changes on round trip depend on the value.",
  files=[P+"_task_metadata.py"], mech=[("storage by kind","TaskMetadata.__setitem__"),("append","TaskMetadata.add"),("validation and serialisation","TaskMetadata model fields")],
  observe=["TaskMetadata mapping interface","TaskMetadata.model_dump_json/model_validate_json"],
  note=_B+"values are representatives of each kind; keys from a list of five."+_E),
 dict(id="C15", title="Caching never changes what a butler client sees",
  statement="A client of the caching butler sees exactly what it would see from the wrapped butler, for every sequence of reads (whole, component, deferred), writes, failed writes, existence checks and removals; in particular a removed or never-written dataset is not served from memory, and a dataset is never returned for another's identity. Unless told otherwise each read hands out its own copy, so a reader's in-place changes never reach a later reader, and a dataset that is in memory is not read from the wrapped butler again.",
  over=["histories","inputs"], forall="all sequences of up to 3-4 operations on two references with symbolic identities, cache on/off, copy flags",
  why="tests exercise the happy path of put then get.",
  files=[P+"caching_limited_butler.py"], mech=[("cache lookup","CachingLimitedButler.get"),("invalidation","CachingLimitedButler.pruneDatasets")],
  observe=["CachingLimitedButler.get/put/stored_many/pruneDatasets"],
  note=_B+"wrapped butler is a stand-in store; storage-class conversions excluded."+_E),
 dict(id="C16", title="The blocking butler waits as long as told and no longer",
  statement="A read or existence check of a dataset whose type has a timeout succeeds if the dataset appears within that time (as seen by the last look), fails only once the time is over, and starts no wait after that; without a timeout entry it never waits, and with an unlimited one it never gives up. Each dataset type is judged by its own timeout, components count as their parent, and the answer always reflects the last look.",
  over=["schedules","inputs"], forall="all appearance instants, all timeouts up to 1.4 s (thorough 2.4 s), all call durations and sleep delays (symbolic reals), one or two datasets",
  why="tests use one fixed delay; races between appearance, polling and expiry need particular instants.",
  files=[P+"blocking_limited_butler.py"], mech=[("wait loops","BlockingLimitedButler.get/stored_many")],
  observe=["BlockingLimitedButler.get/stored_many"],
  note=_B+"clock and sleep are stand-ins; a dataset that has appeared stays."+_E),
 dict(id="C17", title="Pipeline definitions compose, subset and round-trip exactly",
  statement="Reading a pipeline that imports others gives exactly the tasks, subsets, steps, contracts and parameters that its include, exclude, rename and subset-handling options describe: renames reach subsets, steps and contracts, two tasks never end up under one label, and contracts and subset entries of dropped tasks go with them. Config blocks of a task defined in several places apply in order, later ones over earlier ones; conflicting definitions are refused and a refused merge changes nothing. Selecting labels keeps exactly those tasks, does not alter the caller's objects, and refuses unknown labels; subset edits change exactly what they name; every pipeline that is written out reads back equal, steps included.",
  over=["inputs","configurations","histories"], forall="all subsets of three tasks in one or two labelled subsets, any rename, include or exclude list; all config blocks of up to two files; sequences of up to 3 edits",
  why="tests hold a dozen YAML strings; the product of rename, include, subsets and contracts is never enumerated.",
  files=[P+"pipelineIR.py",P+"pipeline.py"], mech=[("imports","ImportIR.toPipelineIR"),("merging","PipelineIR.merge_pipelines"),("selection","PipelineIR.subset_from_labels"),("round trip","PipelineIR.to_primitives")],
  observe=["PipelineIR.from_string/from_uri/to_primitives","Pipeline.subsetFromLabels, addLabelToSubset, ..."],
  note=_B+"three labels and a fixed list of contracts; YAML parsing is run, not encoded."+_E),
 dict(id="C18", title="Configuration overrides apply in order, each exactly as written",
  statement="Whatever overrides are given, in whatever order (single values, strings to be evaluated, files, Python blocks, instrument defaults, pipeline parameters), the configuration ends up as if they had been applied one after the other in the given order: the last one for a field wins, untouched fields keep their value, a value is stored with the type it was written with, and applying the same overrides again gives the same configuration. Wrong overrides are refused without changing the configuration; applying overrides never changes the pipeline definition or its parameters; instrument defaults reach exactly the task they are meant for.",
  over=["inputs","histories","configurations"], forall="all sequences of up to 3 (thorough 4) overrides over scalar, list, dict and nested fields; up to 3 config blocks with parameters; listed values",
  why="tests apply one fixed list of overrides.",
  files=[P+"configOverrides.py",P+"pipelineIR.py",P+"pipeline.py"], mech=[("ordered application","ConfigOverrides.applyTo"),("config blocks","ConfigOverrides.addParameterOverride")],
  observe=["ConfigOverrides.add*Override, applyTo"],
  note=_B+"one config class; override values from listed sets."+_E),
 dict(id="C11", title="Execution reports classify every quantum and dataset correctly",
  statement="For every combination of metadata, log and output datasets left behind by any number of runs, the execution report gives each quantum the status its runs imply: successful with metadata and log, failed with only a log, blocked when an upstream quantum failed or was blocked, strange when a log is missing, a success is later lost, or outputs of different runs are visible together; recovered when a failure was followed by a success. Each dataset is visible, shadowed, predicted only, unsuccessful or cursed accordingly; datasets and runs outside the given graphs are ignored. Summaries count every quantum and dataset exactly once, caveats and errors are those of the deciding run, and writing, reading and combining summaries loses nothing.",
  over=["histories","inputs","configurations"], forall="chains and fan-ins of up to 3 quanta, up to 3 (thorough 4) runs, all subsets of existing datasets, any search order, any caveats",
  why="tests build reports for a couple of mocked runs; the product of partial leftovers over runs is never enumerated.",
  files=[P+"quantum_provenance_graph.py"], mech=[("run status","QuantumProvenanceGraph._update_run_status"),("overall status","QuantumProvenanceGraph._update_info_status"),("visibility","QuantumProvenanceGraph._resolve_duplicates"),("counts","Summary, TaskSummary, DatasetTypeSummary")],
  observe=["QuantumProvenanceGraph.get_quantum_info/get_dataset_info/to_summary","Summary tables"],
  note=_B+"the butler is a stand-in with find-first lookup; metadata and logs are small."+_E),
 dict(id="C27", title="Provenance of a quantum says what really happened to it",
  statement="Whatever a quantum leaves behind (metadata, logs, both or neither, with records of any number of earlier attempts), the provenance made from it numbers every attempt once and in order, pairs each with its own log, metadata, exception and resource usage, and gives it the status its leftovers imply: successful with both, aborted success with metadata only, failed with a log only, unknown with neither. A quantum that may still be running is never written off as failed. Recorded outputs are exactly those the task wrote or that exist; nothing is guessed, and unknown existence is refused rather than recorded. Provenance made from a real execution, in process or by scanning, agrees with how the execution ended, including caveats and the exception.",
  over=["histories","inputs","faults"], forall="any leftovers of up to 3 (thorough 4) attempts; every ending of a quantum (success, no work, partial outputs, errors in inputs, constructor, run, output or metadata writes), up to 3 attempts, any outputs written",
  why="tests execute two or three mock failures; combinations of partial leftovers and retries are not covered.",
  files=[P+"quantum_graph/_provenance.py",P+"single_quantum_executor.py",P+"log_capture.py"], mech=[("reading leftovers","ProvenanceQuantumScanModels.from_metadata_and_logs"),("serialised form","ProvenanceQuantumScanModels.to_scan_data"),("recording","SingleQuantumExecutor._execute")],
  observe=["ProvenanceQuantumScanModels","ProvenanceQuantumModel.attempts"],
  note=_B+"the store is a stand-in; metadata and log contents are small."+_E),
 dict(id="C29", title="Predicted graphs survive files, partial reads and a new run",
  statement="A predicted quantum graph written to a file reads back exactly: any sequence of partial reads gives precisely the quanta, datasets, dependencies, init datasets and counts asked for, whatever the read order and page size, and IDs of init quanta are ignored as documented. Thin and full views agree on quanta and dependencies, execution quanta carry exactly the predicted inputs, outputs and init inputs, and a graph that was only partly read is neither executed nor written as if it were complete. Changing the output run gives every quantum and output a new unique ID, moves every dataset made by this graph (and every use of it) to the new run and touches nothing else. Conversion to the old format and back keeps quanta, datasets and dependencies.",
  over=["inputs","histories","configurations"], forall="all subsets of up to 4 quanta of two tasks with any inputs, internal or external; any sequence of up to 3 read operations",
  why="tests read one mock graph in a few fixed ways.",
  files=[P+"quantum_graph/_predicted.py",P+"quantum_graph/_common.py",P+"quantum_graph/_multiblock.py"], mech=[("partial reads","PredictedQuantumGraphReader.read_*"),("new run","PredictedQuantumGraphComponents.update_output_run"),("thin graph","PredictedQuantumGraphComponents.set_thin_graph"),("execution quanta","PredictedQuantumGraph.build_execution_quanta")],
  observe=["PredictedQuantumGraph.open/read","PredictedQuantumGraphComponents.write"],
  note=_B+"one pipeline; zip and zstd are run, not encoded."+_E),
 dict(id="C12", title="Provenance graphs read back exactly, and reports count them right",
  statement="What is written to a provenance quantum graph for any mix of quantum endings (success with any caveats, partial success, retried, failed, blocked, aborted, unknown), in any order, compressed or not, is what any reader gets: every sequence of full and partial reads yields exactly the requested quanta with their status, caveats, exception, attempts and usage, the requested datasets with their true existence, all edges of what was loaded and no others, and no init quanta among the regular ones; logs and metadata are found by quantum or dataset ID, per attempt, also through the butler. Tables and status reports, in memory, as files or as JSON, count and list every quantum exactly once under its status, exception and caveats, and list exactly those asked for.",
  over=["inputs","histories","configurations"], forall="up to 3 quanta of two tasks, every combination of endings, any write order, sequences of up to 2 (thorough 3) reads; any combination of report options from listed sets",
  why="tests write one or two mock graphs and read them in full.",
  files=[P+"quantum_graph/_provenance.py",P+"quantum_graph/formatter.py",P+"_status.py"], mech=[("writer","ProvenanceQuantumGraphWriter.write_scan_data"),("reader","ProvenanceQuantumGraphReader.read_*, fetch_*"),("reports","ProvenanceQuantumGraph.make_*"),("butler","ProvenanceFormatter")],
  observe=["ProvenanceQuantumGraph","ProvenanceQuantumGraphReader"],
  note=_B+"one pipeline; zip and zstd are run, not encoded; package versions are not written."+_E),
 dict(id="C32", title="Initialising an output run is complete, repeatable and never contradicts it",
  statement="Initialising an output run writes the config of every task that has work, the package versions and every init-output exactly once, under the predicted IDs, and leaves what is already there alone. Doing it again, or after a failure at any write, completes the run and changes nothing else. A config or package version that contradicts what the run already has is reported before anything of that kind is written, packages not seen before are added to those recorded, and a caller who asked for a fresh run is told when anything exists. Only the output run is looked at. Each task is constructed once, from the stored or predicted init-inputs, untouched by what other tasks do with theirs. Dataset types are registered as asked for, and missing or changed registrations are reported.",
  over=["inputs","histories","faults","configurations"], forall="three tasks with shared, chained and external init datasets; any subset having quanta; any existing configs (equal or not), init-outputs and packages with any versions; a failure at any write; any options",
  why="tests initialise fresh mock runs once.",
  files=[P+"pipeline_graph/_pipeline_graph.py",P+"quantum_graph/_predicted.py",P+"graph/graph.py",P+"separable_pipeline_executor.py"], mech=[("configs, packages, init-outputs","PredictedQuantumGraph/QuantumGraph/PipelineGraph.write_configs, write_packages, write_init_outputs"),("construction","PipelineGraph.instantiate_tasks"),("comparison","compare_packages"),("registration","PipelineGraph.register_dataset_types, check_dataset_type_registrations")],
  observe=["init_output_run","pre_execute_qgraph"],
  note=_B+"the butler and the system's package versions are stand-ins; storage class conversions of init datasets are not covered."+_E),
 dict(id="C25", title="The aggregator ingests every output exactly once, whatever interrupts it",
  statement="Whatever the batch size and mode, and whichever outputs an earlier attempt had ingested, the ingester leaves every dataset it was given registered exactly once, together with its datastore records in one transaction, and touches no other dataset. If it dies at any call into the repository, at any point and more than once, starting again completes the job, including an output chain with the run first and the flattened inputs after it. Every producer is reported once, counts of ingested and skipped datasets are right, a refusal by the repository for any other reason surfaces and is not reported as ingested, and a dry run changes nothing.",
  over=["histories","faults","configurations"], forall="up to 3 producers with any outputs, any subset ingested before, batch sizes 0/1/2/10, dying at any one or two calls, any conflicts",
  why="tests aggregate whole mock graphs and interrupt between complete runs.",
  files=[P+"quantum_graph/aggregator/_ingester.py"], mech=[("batches and transaction","Ingester.ingest"),("defensive mode","Ingester.fetch_already_ingested, update_outputs_pending"),("chain","Ingester.update_output_chain")],
  observe=["Ingester.loop","registry and datastore contents"],
  note=_B+"the repository is a stand-in with atomic transactions; requests come from a list."+_E),
 dict(id="C28", title="The aggregator gives every quantum one outcome and always ends",
  statement="However the scanners, ingester, writer and supervisor interleave, aggregation gives every quantum of the graph exactly one outcome: scanned and, if finished, ingested and written with its true status; blocked exactly when something upstream failed; abandoned only as documented. Nothing is scanned before what it depends on or twice, no output of a successful quantum is lost, and none of a failed one is reported as successful. Aggregation always ends: with success only when every worker completed its work, otherwise with an error. If a worker raises or is killed at any point, or the user interrupts, every other worker is told to stop and does, nothing keeps waiting, and no failure goes unreported.",
  over=["schedules","faults","histories"], forall="up to 3 quanta in a chain, fork or join, 1-2 scanners, any endings; all orders with up to 3 (thorough 4) delays or all run-to-block orders, one preemption, one early timeout, a failure, kill or interrupt at any point",
  why="tests aggregate whole mock graphs under whichever schedule the OS produces, and kill nothing.",
  files=[P+"quantum_graph/aggregator/_supervisor.py",P+"quantum_graph/aggregator/_communicators.py",P+"quantum_graph/aggregator/_scanner.py",P+"quantum_graph/aggregator/_writer.py",P+"quantum_graph/aggregator/_ingester.py"], mech=[("supervision","Supervisor.loop"),("messages and shutdown","SupervisorCommunicator, WorkerCommunicator"),("workers","Scanner.loop, Ingester.loop, Writer.loop")],
  observe=["aggregate_graph's workers and queues","what was ingested and written"],
  note=_B+"queues, processes and the repository are stand-ins; interrupts during shutdown are excluded."+_E),
 dict(id="C26", title="Finalising a run never loses metadata, logs or configs",
  statement="Ingesting a provenance graph ends with exactly the produced metadata, log and config datasets of the run registered once, each backed by the ingested graph, their original files gone, emptied directories removed, and every other dataset, file and directory untouched. If it dies at any point, any number of times, the content of every dataset is at that moment in its original file or in the ingested graph, any registered dataset is backed by the one that holds it, and running it again (with the graph's location, or without once the graph is ingested) completes the job. Files that cannot be removed, a graph of another run or a missing graph are reported, and a refused request changes nothing.",
  over=["histories","faults","configurations"], forall="up to 2 (thorough 3) quanta with any endings, any subset of datasets registered before, batch sizes, transfer modes and directory layouts from listed sets; dying at any one or two calls",
  why="tests ingest complete mock graphs without interruption.",
  files=[P+"quantum_graph/ingest_graph.py"], mech=[("three steps","ingest_graph"),("forgetting","_GraphIngester.forget_ingested_datasets"),("replacing files","_GraphIngester.clean_and_reingest_datasets"),("directories","_GraphIngester.find_dataset_type_directory")],
  observe=["ingest_graph","registry rows, datastore records, files and directories"],
  note=_B+"the butler and the file system are stand-ins; a butler ingest is atomic; directories are guessed from dataset type names as documented."+_E),
 dict(id="C22", title="A pipeline graph is always what its tasks say",
  statement="After any sequence of adding, removing and reconfiguring tasks, adding and removing subsets, resolving, sorting and copying, a pipeline graph has exactly the tasks, dataset types and edges that its tasks' connections imply: producers, consumers, inputs, outputs, overall inputs, exported networkx graphs, independent parts and tasks between two tasks all agree with them. It is never cyclic, a sorted graph lists producers before consumers, a dataset type with several producers is reported and never resolved, and a resolved dataset type always reflects the current edges. A label identifies one task, subsets contain only tasks of the graph, changed edges are noticed when they are to be checked, copies are independent, and a change that is refused leaves the graph exactly as it was.",
  over=["histories","inputs","configurations"], forall="any graph of 3 tasks with connections from a list of 16 sets (regular, prerequisite, init, metadata; chains, forks, cycles, duplicates); any 2 changes to graphs of 2 (thorough 3) tasks",
  why="tests modify one or two fixed graphs, one change at a time.",
  files=[P+"pipeline_graph/_pipeline_graph.py",P+"pipeline_graph/_tasks.py",P+"pipeline_graph/_edges.py",P+"pipeline_graph/_mapping_views.py",P+"pipeline_graph/_task_subsets.py"], mech=[("changes","PipelineGraph.add_task, remove_tasks, reconfigure_tasks, add_task_subset"),("views","TaskMappingView, DatasetTypeMappingView"),("comparison","TaskNode.diff_edges"),("exports","PipelineGraph.make_*xgraph, split_independent")],
  observe=["PipelineGraph's public interface"],
  note=_B+"dimensions and storage classes are all alike (see C23); networkx is run, not encoded; a reconfiguration into a cycle may leave an unusable graph if it says so."+_E),
 dict(id="C21", title="Subset expressions select exactly the documented tasks",
  statement="A pipeline graph expression selects exactly the tasks that the documented language says: names of tasks, subsets and dataset types (the producer), the qualifiers T:, S: and D:, unions, intersections and inversions with their precedence and parentheses, whitespace ignored, and the searches <, <=, > and >= for ancestors and descendants of tasks and dataset types. Everything else (ambiguous or unknown names, init-outputs and subsets where they are not allowed, malformed text) is refused with InvalidExpressionError. The graph selected by an expression has just those tasks, with all their connections, keeps resolved definitions and sortedness, and leaves the original untouched.",
  over=["inputs","configurations"], forall="any pipeline of 3 (thorough 4) tasks from 9 kinds, all names and searches; every sequence of 3 (thorough 5) tokens out of 11 and of 5 (thorough 6) out of small sets; all expressions with 3 operands of 4 shapes",
  why="tests evaluate about forty expressions on one graph.",
  files=[P+"pipeline_graph/expressions.py",P+"pipeline_graph/_pipeline_graph.py"], mech=[("language","expressions.parse"),("evaluation","PipelineGraph.select_tasks"),("selection","PipelineGraph.select")],
  observe=["PipelineGraph.select_tasks","PipelineGraph.select"],
  note=_B+"PLY and networkx are run, not encoded; ancestors and descendants are by runtime datasets."+_E),
 dict(id="C23", title="Dataset types are resolved to one definition all agree with",
  statement="Resolving a pipeline graph gives every dataset type the definition registered in the repository, else the producer's, else the one that all consumers share; every task's own definition can be converted to or from it, and each task gets datasets of exactly the type it asked for (storage class, component) and back. If no such definition exists the graph is refused with an exception that names the reason: two producers, incompatible dimensions, calibration flags or storage classes, a type that must be registered first, or one that is a prerequisite only for some. Prerequisites and the constraints of the initial query (overall regular inputs that no consumer defers) are marked exactly. All this is judged by the graph's current edges and repository, whatever the graph was resolved for before.",
  over=["inputs","configurations","histories"], forall="one dataset type, 2 tasks (3 in some cases) with any kind, 2 or 3 sets of dimensions, 3 storage classes, calibration and deferral flags, components and skypix placeholders; registered or not; resolved once or twice, directly or as a part of another graph",
  why="tests resolve a dozen combinations, from scratch.",
  files=[P+"pipeline_graph/_dataset_types.py",P+"pipeline_graph/_edges.py",P+"pipeline_graph/_pipeline_graph.py"], mech=[("definition","DatasetTypeNode._from_edges"),("consumers","ReadEdge._resolve_dataset_type"),("producers","WriteEdge._resolve_dataset_type"),("conversions","Edge.adapt_dataset_type, adapt_dataset_ref, DatasetTypeNode.generalize_ref")],
  observe=["PipelineGraph.resolve","PipelineGraph.dataset_types"],
  note=_B+"storage class conversions are those of daf_butler on registered test classes; dimensions of component connections are not judged."+_E),
 dict(id="C24", title="Verified pipeline steps can really be run one after another",
  statement="Steps of a pipeline graph count as verified only if every step is a subset, every task is in exactly one step, no step needs (as input or init-input) what a later step produces, and the sharding dimensions of a step split neither its tasks nor their outputs, except along a many-to-many relation; anything else is refused with InvalidStepsError, and what satisfies this is accepted. A verified graph names the step of each task and lists its tasks step by step in dependency order. Any change that could matter (tasks, subsets, steps, dimensions) makes the steps unverified until the graph is resolved again; copies and files keep all of it, and steps in another order are not equal.",
  over=["inputs","histories","configurations"], forall="any 3 tasks out of 5 kinds in 2 steps in any order; 2 tasks in any of 2 subsets with any list of steps; every kind of change to a verified graph of 2 (thorough 3) tasks; any sharding and task dimensions out of 5 (thorough 6)",
  why="tests define two steps on one graph of two tasks.",
  files=[P+"pipeline_graph/_pipeline_graph.py",P+"pipeline_graph/_task_subsets.py",P+"pipeline_graph/io.py"], mech=[("order","PipelineGraph.resolve"),("definitions","StepDefinitions, TaskSubset"),("lookup","PipelineGraph.get_task_step")],
  observe=["PipelineGraph.steps, get_task_step, resolve","order of PipelineGraph.tasks"],
  note=_B+"sharding by both of two related dimensions for something that has one of them is left open."+_E),
 dict(id="C33", title="Pipeline graphs survive files",
  statement="A pipeline graph written and read again says exactly what it said: tasks, classes, configs, dimensions, every attribute of every edge, resolved and unresolved dataset types with their producers and consumers, order, subsets, steps with their sharding and verification, description, universe and data ID; and it can be changed and resolved like the original. Tasks are imported only if asked to. When the class of a task has changed its connections since, reading refuses, keeps the written connections, or takes the new ones and forgets the resolutions they touch, as the import mode says.",
  over=["inputs","configurations"], forall="any 2 (thorough 3) tasks out of 6 (thorough 16) kinds, graphs in any of 5 states, all import modes, any lost connection",
  why="tests round-trip one graph.",
  files=[P+"pipeline_graph/io.py",P+"pipeline_graph/_pipeline_graph.py",P+"pipeline_graph/_tasks.py"], mech=[("format","io.Serialized*"),("import","PipelineGraph._import_and_configure")],
  observe=["PipelineGraph._write_stream, _read_stream"],
  note=_B+"gzip, JSON and pydantic are run, not encoded."+_E),
 dict(id="C31", title="In-memory quantum graphs agree with their quanta",
  statement="A QuantumGraph lists every quantum once and in dependency order, with a dependency exactly where one quantum reads what another writes; every query (neighbours, first and last quanta, tasks and quanta by label, name or dataset type, init datasets, summary counts, pipeline graph) agrees with that. A subset by any iterable of nodes, the connected parts, the ancestors or neighbours of a node, a pickled copy, and a file read in full or by node ID hold exactly the quanta asked for, with their node IDs, dependencies, datastore records, init datasets, registry dataset types, metadata and graph ID; unknown nodes, another graph ID and too old files are refused. Changing the output run moves exactly what the graph produces, and every reader follows. get_refs gives exactly the inputs, outputs, init datasets and intermediates asked for.",
  over=["inputs","histories"], forall="any subset of 3 to 5 quanta of three tasks, inputs from this or another run, converted storage classes and components, any subset of nodes, any combination of get_refs options",
  why="tests use one graph and a few subsets of it.",
  files=[P+"graph/graph.py",P+"graph/_versionDeserializers.py",P+"graph/_loadHelpers.py",P+"graph/_implDetails.py",P+"graph/quantumNode.py"], mech=[("graph","QuantumGraph._buildGraphs, subset, updateRun, get_refs"),("files","_buildSaveObject, DeserializerV3, LoadHelper")],
  observe=["the public methods of QuantumGraph"],
  note=_B+"lzma, JSON, pickle and networkx are run, not encoded."+_E),
 dict(id="C34", title="Quanta and edges are exactly those the data IDs call for",
  statement="The graph builder asks for the data IDs that satisfy the where expression, the pipeline's data ID, every data-ID table and the dataset constraint (all overall inputs that no task defers, none, or the listed ones; a list without any usable input is refused). The quanta of a task are exactly the projections of these data IDs to its dimensions, and a quantum reads and writes exactly the datasets that share such a data ID with it; sky pixels of other levels and systems are paired exactly with what they overlap. Each overall input is the first one found in the input collections, outputs already in the run or in the collections to skip from are recognised as such, and dataset types the repository does not know have no datasets. Prerequisite inputs are exactly those that match the quantum's data ID, its spatial bounds and the hull of its timespan and its bounds connections, or what the lookup function returns, again first found. The result never depends on the order in which sets are iterated.",
  over=["inputs","configurations"], forall="any subset of 8 data IDs of visits, detectors and patches, datasets in any of 2 collections, 7 constraints, 5 tables, any validity range of one calibration, any subset of 5 reference pixels; five pipelines over healpix and htm pixels with 12 iteration orders",
  why="tests build graphs for about a dozen pipelines on one small repository in which everything exists, in the iteration order of that process.",
  files=[P+"all_dimensions_quantum_graph_builder.py",P+"prerequisite_helpers.py",P+"quantum_graph_builder.py",P+"_datasetQueryConstraints.py"], mech=[("query and projection","AllDimensionsQuantumGraphBuilder.process_subgraph, _DimensionGroupTree"),("sky pixels","DataIdGenerator and its subclasses"),("prerequisites","PrerequisiteFinder, PrerequisiteBounds"),("follow-up","_find_followup_datasets")],
  observe=["AllDimensionsQuantumGraphBuilder.process_subgraph, finish"],
  note=_B+"the butler's queries are evaluated by a stand-in over the symbolic repository, SQL is not encoded; regions and pixelizations are those of sphgeom, run and not encoded; what is skipped or dropped afterwards is C09's."+_E),
]
