"""Per property: what is executed symbolically, what is a stand-in, and the oracle (for DESIGN.md)."""
HOW = {
"C01": ("AddressWriter/AddressReader on a symbolic byte stream (`symx/bytesx.py`): 128-bit IDs, offsets and sizes are z3 terms, the file is a sequence of symbolic bytes.",
        "The list of rows that was written: a lookup must return the row with that ID, or raise when none has it."),
"C02": ("MultiblockWriter/MultiblockReader on a symbolic stream; block contents are symbolic bytes, lengths symbolic choices among boundary values.",
        "The blocks as they were written, by ID and in order."),
"C03": ("GraphWalker on DAGs whose edges are symbolic booleans; every next operation (poll, finish, fail, and on which node) is a symbolic choice.",
        "Direct definition over the edge relation: due = all predecessors successful; blocked = some ancestor failed."),
"C04": ("The real MPGraphExecutor loop and the real worker entry point; process, pipe, clock and signals are stand-ins (`symx/sched.py`, `_exec_env.py`) which end in any order and in any of the ways listed, each a symbolic choice.",
        "Trace predicates on start/exit/report events and a reference computation of status and exit code per quantum."),
"C05": ("The real in-process executor; edges, outcome of every quantum, fail-fast and fixups symbolic.",
        "As C04, plus contents of provenance scans and stored log/metadata bytes."),
"C06": ("The real SingleQuantumExecutor with a dict-backed limited butler; existence of every dataset, options, task behaviour (each exception class, each part of the task) symbolic.",
        "A decision table over (existing outputs, options, missing inputs, task behaviour): what ran, what raised, what is stored afterwards, status."),
"C07": ("QuantumContext.get/put with refs whose dataset type and ID are symbolic.",
        "Membership of the ref in the quantum's inputs/outputs, and the butler's call log."),
"C08": ("PipelineTaskConnections.adjustQuantum, AdjustQuantumHelper, InputQuantizedConnection building; counts, multiplicity, minimum, deferral and adjustments symbolic.",
        "Documented rules per connection."),
"C09": ("The real QuantumGraphBuilder (with the skeleton) up to the predicted graph; which datasets exist where (input collections, output run), which quanta exist, skip/clobber options and adjustments are symbolic; SQL is replaced by a stand-in butler.",
        "Reference fixed point over tasks and data IDs: which quanta remain, with exactly which inputs and outputs."),
"C10": ("QuantaAdjuster and skeleton edits on symbolic graphs, any sequence of two or three edits.",
        "Set of quanta, edges and data IDs computed from the edit's documentation."),
"C11": ("QuantumProvenanceGraph over up to two graphs/attempts; what every run left behind (outputs, log, metadata, caveats) and which run is visible in the search collections are symbolic.",
        "Documented status of each quantum and dataset from what was left behind; counts in the summary and its tables."),
"C12": ("ProvenanceQuantumGraph writer/reader/reports on in-memory files; existence, statuses, attempts, exceptions and the subset and order of reads symbolic.",
        "The scan results that were written."),
"C13": ("TaskMetadata operations and pydantic serialisation with symbolic operation sequences, keys and values.",
        "A nested-dict reference model."),
"C14": ("ObservationDimensionPacker with integer terms for IDs and limits.",
        "Arithmetic: range, inverse, injectivity over two symbolic pairs."),
"C15": ("CachingLimitedButler over a dict-backed butler; operation sequences, storage classes, components, failures symbolic.",
        "The same operations on the uncached butler."),
"C16": ("BlockingLimitedButler with a virtual clock; arrival times, timeouts, poll periods symbolic numbers.",
        "Latest allowed time and value of each answer."),
"C17": ("PipelineIR/Pipeline from documents whose parts (imports, includes, excludes, renames, subsets, steps, contracts, parameters) are symbolic choices; written out and read back.",
        "Reference composition of the documents."),
"C18": ("ConfigOverrides over real pex_config objects; order and content of overrides symbolic.",
        "Assignment in order on a plain model."),
"C21": ("Expression lexer/parser/evaluator on expressions built from a symbolic tree and symbolic spacing, on symbolic pipelines.",
        "Set semantics of the documentation computed on the tree."),
"C22": ("PipelineGraph changes (add, remove, replace, reconfigure, group, select, split, copy) on pipelines whose connections are symbolic; any of the documented refusals may happen.",
        "The graph built afresh from the tasks it should now hold; unchanged graph after a refusal."),
"C23": ("PipelineGraph.resolve with symbolic storage classes, dimensions, flags, registered definitions.",
        "Agreement of definition with producer, consumers and repository, in any order of addition."),
"C24": ("PipelineGraph steps verification on symbolic pipelines, step divisions and sharding dimensions.",
        "Running the steps in order really finds every input, and every dataset's dimensions allow the sharding."),
"C25": ("The aggregator's Ingester with a stand-in butler that can die at any symbolic call; restarted until it ends.",
        "Set of datasets and records ingested, each once; chain contents."),
"C26": ("ingest_graph over a stand-in butler and file tree, dying at any symbolic call and restarted.",
        "No metadata, log or config is lost at any moment; all are backed by the graph at the end."),
"C27": ("ProvenanceQuantumScanModels from what a run (the real executor) or crash left behind, all combinations.",
        "What the simulated run did."),
"C28": ("The aggregator's supervisor, scanners, writer and ingester workers on a cooperative scheduler with symbolic interleaving, crash and interrupt points.",
        "One outcome per quantum; termination; an error iff something failed."),
"C29": ("PredictedQuantumGraph writer and reader on in-memory zip files; subsets and order of reads, run changes symbolic.",
        "The components that were written."),
"C32": ("init-output writing and checking by the real functions (graph and executor side) on a stand-in butler; what exists beforehand and registration flags symbolic.",
        "What the run must hold afterwards; nothing else changed; second call changes nothing."),
"C31": ("QuantumGraph construction, queries, subsets, pickling, files, updateRun and get_refs with symbolic quanta, inputs, node choices and options.",
        "The quanta themselves: edges, counts, dataset sets and IDs recomputed from the generated inputs and outputs."),
"C34": ("AllDimensionsQuantumGraphBuilder and the prerequisite finders on a stand-in butler whose rows, datasets, validity ranges and sky shards are symbolic; "
        "hash order of dimension groups chosen by the engine.",
        "Brute force: filter the full rows, project them to the dimensions of every task and dataset type, look datasets up collection by collection; "
        "overlap of pixels and regions decided one by one."),
"C33": ("PipelineGraph serialisation with symbolic pipelines and import modes.",
        "Comparison of every public fact of the written and the read graph."),
}
SEC_AFTER = open(__file__.replace("design_text.py", "design_after.md")).read()
