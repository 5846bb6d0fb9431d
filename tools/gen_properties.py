"""Writes /verif/properties.jsonl (the source of truth for wording)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Node training is a forward-only, phase-exact protocol",
 "A trainable node with k training phases delivers every accepted training chunk, cast to its dtype and with its extra arguments unchanged, to the learner of its current phase and to nothing else, and closing a phase calls exactly that phase's finisher once and moves to the next phase; after k closings it is no longer training. "
 "Training a non-trainable or already finished node, closing a phase that received no data, or closing a finished node raises the documented exception (not-trainable, finished, or training exception respectively) without calling any learner or finisher and without changing the node. "
 "Executing or inverting first finishes an open last phase, refuses with a training exception when phases remain, and executing a node that never received any data trains all phases on that very data first.",
 ["inputs", "histories"], "all nodes (any number of phases, any learner implementation, any state reachable or not), all chunks and all call histories",
 "The tests run a few fixed call sequences on nodes with one or two phases; the protocol has to hold from every state for any number of phases and for every user-written learner.",
 ["mdp/signal_node.py"],
 [("Node.train / Node.stop_training", "mdp/signal_node.py"), ("Node._pre_execution_checks / _pre_inversion_checks / _if_training_stop_training", "mdp/signal_node.py"), ("Node.get_remaining_train_phase", "mdp/signal_node.py")],
 [("_train_phase, _train_phase_started, _training", "position in the training sequence", "mdp/signal_node.py:Node")],
 ["calls arriving at the node's learners/finishers", "exceptions of train/stop_training/execute/inverse", "is_training, get_current_train_phase, get_remaining_train_phase"])

prop("C02", "A node's dimensions and dtype are fixed once and enforced on all data",
 "Once a node's input dimension, output dimension or dtype is set it never silently changes: setting the same value again or None is a no-op, setting a different value raises an error (inconsistent-dimension error for dimensions, node error for dtypes, also for unsupported dtypes) and leaves the node unchanged. "
 "Unset values are taken from the first data seen, and data that is not two-dimensional, has no observation or has the wrong width is rejected with a node error before any learner, executor or inverter sees it; accepted data always reaches them in the node's dtype, and an output dimension the node does not derive otherwise becomes the input dimension. "
 "A dimension-preserving node always has both dimensions equal or both unset.",
 ["inputs", "histories"], "all dimension values, dtypes, arrays and orders of setter/train/execute/inverse calls",
 "Tests try a handful of sizes and dtypes; the guarantee is over every order of setters and data and every value.",
 ["mdp/signal_node.py", "mdp/utils/routines.py"],
 [("Node.set_input_dim / set_output_dim / set_dtype / _set_dtype", "mdp/signal_node.py"), ("Node._check_input / _check_output", "mdp/signal_node.py"), ("Node._refcast, utils.refcast", "mdp/signal_node.py, mdp/utils/routines.py"), ("PreserveDimNode._set_input_dim/_set_output_dim", "mdp/signal_node.py")],
 [("_input_dim, _output_dim, _dtype", "the node's declared shape and type", "mdp/signal_node.py:Node")],
 ["input_dim/output_dim/dtype properties", "arrays arriving at the node implementation"])

prop("C03", "Flow training feeds each node the data processed by all nodes before it",
 "Training a flow visits the nodes in order; node i receives, once per training phase and in iteration order, every chunk of its own iterable after that chunk went through execute of nodes 0..i-1 (extra chunk arguments go only to node i, and must be as many as the node requires), earlier phases are closed in between, and nodes that are not trainable are skipped. "
 "No node is trained with data of another node's iterable, later nodes are not touched while node i trains, and the last node is closed at the end. "
 "A wrong number of iterables, an iterable that yields nothing (also on the second pass, as for a one-shot iterator), or a missing iterable for a node still in training raises a flow exception instead of training on nothing.",
 ["inputs", "programs"], "flows of any length, nodes with any number of phases, any number of chunks",
 "Tests use flows of a few nodes, mostly one phase and a couple of chunks; order, multiplicity and composition must hold for every length, phase count and chunk count.",
 ["mdp/linear_flows.py"],
 [("Flow.train / _train_node / _execute_seq / _close_last_node", "mdp/linear_flows.py"), ("Flow._train_check_iterables / _get_required_train_args", "mdp/linear_flows.py")],
 [("flow", "ordered list of nodes", "mdp/linear_flows.py:Flow")],
 ["sequence of train/stop_training/execute calls arriving at the nodes"])

prop("C04", "Flow execute/inverse are exact function composition",
 "Executing a flow on one array applies node 0, 1, ..., last (or up to the requested node, included) each exactly once to the previous result, inverting applies the inverses from the last node to the first, and the result is exactly that composition. "
 "Executing or inverting an iterable of arrays returns the results of its items, each processed that way, concatenated in iteration order; an empty iterable raises a flow exception. "
 "Slicing a flow gives the flow of exactly the selected nodes, so executing up to node n equals executing the slice up to n+1.",
 ["inputs", "programs"], "flows of any length, any node number, any number of chunks, any node implementation",
 "Tests check two or three nodes; composition must hold for every length and every chunking.",
 ["mdp/linear_flows.py"],
 [("Flow.execute / _execute_seq / inverse / _inverse_seq / __call__", "mdp/linear_flows.py"), ("Flow.__getitem__", "mdp/linear_flows.py")],
 [], ["result arrays", "sequence of execute/inverse calls arriving at the nodes"])

prop("C05", "Flow container operations keep it consistent or leave it untouched",
 "A flow behaves as a list of nodes (length, indexing, slicing, assignment, deletion, concatenation, append, extend, insert, pop), and after every operation that succeeds each node's known output dimension equals the next node's known input dimension. "
 "An operation that would connect nodes with different known dimensions raises ValueError, inserting something that is not a node (or concatenating with neither a flow nor a node) raises TypeError, and a failed operation leaves the flow's node sequence exactly as it was. "
 "Operations returning a new flow never modify their operands.",
 ["inputs", "histories"], "all flows, nodes, indices and sequences of container operations, failing ones included",
 "The tests exercise single operations on one three-node flow; consistency and all-or-nothing must hold for every operation, every index and every pair of dimensions.",
 ["mdp/linear_flows.py"],
 [("Flow.__setitem__/__delitem__/__getitem__/__add__/__iadd__/append/extend/insert/pop", "mdp/linear_flows.py"), ("Flow._check_nodes_consistency / _check_dimension_consistency / _check_value_type_isnode", "mdp/linear_flows.py")],
 [("flow", "ordered list of nodes", "mdp/linear_flows.py:Flow")],
 ["list(flow), len(flow)", "exceptions"])

prop("C06", "Checkpoints run once per node in order; crashes name the failing node",
 "A checkpointing flow calls checkpoint i exactly once, with node i, after node i has been trained and before node i+1 is, skips absent checkpoints, adds a returned dictionary to the flow's attributes, and rejects a wrong number of checkpoints before training anything; a single checkpoint is used for all nodes. "
 "An exception raised by a node while a flow executes, inverts or trains surfaces as a flow exception that names the position of the failing node and, for a crash-recovery exception, carries the original exception and the flow; no later node is called. "
 "With crash recovery enabled a reloadable dump of the flow is written, without it nothing is written.",
 ["inputs", "fault_sequences"], "flows of any length, a failure at any node and any call, any checkpoint list",
 "The tests make one chosen node fail; position, order and non-continuation have to hold for every failing position.",
 ["mdp/linear_flows.py", "mdp/signal_node.py"],
 [("CheckpointFlow.train / _train_check_checkpoints", "mdp/linear_flows.py"), ("Flow._propagate_exception", "mdp/linear_flows.py"), ("FlowExceptionCR / CrashRecoveryException", "mdp/linear_flows.py, mdp/signal_node.py")],
 [], ["checkpoint calls", "exception attributes and message"])

prop("C07", "Covariance statistics do not depend on how the data is cut into chunks",
 "For any split of the data into chunks, an accumulated covariance matrix, mean and sample count equal those of the whole data given at once (with or without bias correction and mean subtraction), and the same holds for the cross-covariance of paired data. "
 "Time-lagged covariances equal the sum over chunks of the products of samples exactly the lag apart inside a chunk, with the number of such pairs as count, and the covariance for unequal time steps equals the trapezoid-rule integral over the whole series however it is cut. "
 "Finishing an accumulator resets it, so that it can be filled again as if new.",
 ["inputs", "histories"], "all data, all chunkings, all lags",
 "Tests compare one or two splits of random data; the identity has to hold for every split.",
 ["mdp/utils/covariance.py"],
 [("CovarianceMatrix.update/fix/_init_internals", "mdp/utils/covariance.py"), ("VartimeCovarianceMatrix", "mdp/utils/covariance.py"), ("DelayCovarianceMatrix", "mdp/utils/covariance.py"), ("CrossCovarianceMatrix", "mdp/utils/covariance.py"), ("MultipleCovarianceMatrices", "mdp/utils/covariance.py")],
 [("_cov_mtx, _avg, _tlen", "running sums", "mdp/utils/covariance.py")],
 ["results of fix()"])

prop("C08", "Switchboards route every output from its connection and invert exactly",
 "Output column i of a switchboard is exactly input column connections[i], for all rows; construction rejects connection indices outside the input. "
 "A switchboard is reported invertible exactly when the connections are a permutation, and then inverting an executed signal returns it exactly; a mean-inverse switchboard returns, for every input column that is routed somewhere, the mean of the output columns fed from it and zero for the others. "
 "Bidirectional switchboards route messages and inverse messages of matching width the same way and leave other values alone.",
 ["inputs", "configurations"], "all connection lists, input widths and data",
 "Tests use a few fixed connection lists; routing must be exact for every list.",
 ["mdp/hinet/switchboard.py", "bimdp/hinet/biswitchboard.py"],
 [("Switchboard.__init__/_execute/is_invertible/_inverse", "mdp/hinet/switchboard.py"), ("MeanInverseSwitchboard._inverse", "mdp/hinet/switchboard.py"), ("BiSwitchboard", "bimdp/hinet/biswitchboard.py")],
 [("connections", "source column of each output column", "mdp/hinet/switchboard.py:Switchboard")],
 ["execute/inverse results"])

prop("C09", "Rectangular switchboards tile the input grid exactly as their geometry says",
 "For every field size, spacing and channel size, output channel k of a rectangular switchboard consists of exactly the input channels of the k-th receptive field (row-major fields, row-major channels inside a field, all components of a channel in order), all inside the input; the number of output channels per axis is the largest that fits. "
 "With the strict (no unused channels) option construction fails exactly when some input channel would not be covered by any field. "
 "Converting between image, channel-grid and flat coordinates is exactly inverse, and the per-output-channel input-channel queries report exactly the channels the connections use.",
 ["configurations", "inputs"], "all channel-grid sizes, field sizes, spacings and channel dimensions",
 "Tests check a handful of small geometries by listing the connections.",
 ["mdp/hinet/switchboard.py"],
 [("Rectangular2dSwitchboard", "mdp/hinet/switchboard.py"), ("DoubleRect2dSwitchboard, DoubleRhomb2dSwitchboard", "mdp/hinet/switchboard.py"), ("ChannelSwitchboard.get_out_channel_input...", "mdp/hinet/switchboard.py"), ("CoordinateTranslator", "mdp/hinet/switchboard.py")],
 [("connections", "source column of each output column", "mdp/hinet/switchboard.py")],
 ["connections, out_channels_xy, unused_channels_xy"])

prop("C10", "Layers run their nodes on disjoint consecutive column blocks",
 "A layer gives node i exactly the consecutive columns that follow those of nodes 0..i-1 (as many as its input dimension), for training, execution and, over output columns, inversion; results are placed side by side in node order, and the layer's input and output dimensions are the sums over its nodes. "
 "Training reaches exactly the nodes that still train, each with its own block and extra arguments, and stopping closes each of them once per layer phase. "
 "A clone layer sends block after block of equal width to the one shared node, and a same-input layer sends the complete input to every node.",
 ["inputs", "configurations"], "any number of nodes, any dimensions, any mixture of trainable and non-trainable nodes",
 "Tests use two or three nodes of fixed width.",
 ["mdp/hinet/layer.py"],
 [("Layer._train/_stop_training/_execute/_inverse/_get_input_dim_from_nodes/_set_layer_dims", "mdp/hinet/layer.py"), ("CloneLayer", "mdp/hinet/layer.py"), ("SameInputLayer", "mdp/hinet/layer.py")],
 [("nodes, node_input_dims", "the layer's nodes and block widths", "mdp/hinet/layer.py:Layer")],
 ["arrays arriving at the nodes", "result arrays"])

prop("C11", "A flow wrapped as a node trains, executes and inverts like the flow",
 "A flow node exposes one training phase for each remaining phase of each trainable inner node in order; a chunk of phase (node i, phase p) reaches node i as its training data after passing through nodes 0..i-1, and closing the phase closes that node's phase. "
 "Its execute and inverse equal the flow's, it is trainable if some inner node is trainable and invertible exactly if all inner nodes are, its dimensions are the first node's input and the last node's output dimension, and setting a dimension that differs from the inner nodes' is refused. It supports exactly the dtypes that all inner nodes support, and setting its dtype sets theirs. "
 "Copying a flow node gives one with copies of the inner nodes, so training one does not change the other.",
 ["inputs", "programs"], "flows of any length with any phase counts",
 "Tests wrap two or three nodes with fixed phase counts.",
 ["mdp/hinet/flownode.py"],
 [("FlowNode._get_train_seq", "mdp/hinet/flownode.py"), ("FlowNode._execute/_inverse/is_trainable/is_invertible/_set_input_dim/_set_output_dim/_fix_nodes_dimensions", "mdp/hinet/flownode.py")],
 [("_flow", "the wrapped flow", "mdp/hinet/flownode.py:FlowNode")],
 ["calls arriving at the inner nodes", "result arrays"])

prop("C12", "Graphs stay well-formed and traversals visit what they must, once",
 "After any sequence of graph operations every edge's head and tail are nodes of the graph and each edge is listed exactly once in the graph, in its head's outgoing and in its tail's incoming edges (an edge goes from head to tail); removing a node removes exactly the edges touching it, and removing a node that is not in the graph raises a graph exception and changes nothing. "
 "Topological sorting returns every node exactly once with each edge pointing forward when the graph is acyclic and raises otherwise. "
 "Depth- and breadth-first search visit exactly the nodes reachable along (directed or undirected) edges from the root once each, parents first, breadth-first in non-decreasing distance; connected components partition the nodes.",
 ["inputs", "histories"], "all graphs (loops and parallel edges included) and all histories of operations",
 "Tests use a few small hand-drawn graphs.",
 ["mdp/graph/graph.py"],
 [("Graph.add_node/add_edge/remove_node/remove_edge/...", "mdp/graph/graph.py"), ("Graph.topological_sort/dfs/bfs/undirected_dfs/undirected_bfs/connected_components", "mdp/graph/graph.py"), ("GraphNode", "mdp/graph/graph.py")],
 [("nodes, edges, ein, eout", "adjacency structure", "mdp/graph/graph.py")],
 ["graph.nodes, graph.edges, node edge lists", "traversal results"])

prop("C13", "Extensions change classes only while active and restore them exactly",
 "Activating extensions makes exactly their methods and attributes visible on the node classes they extend, originals stay reachable, and deactivating them restores every class's attributes to exactly what they were before, whatever combination and order was used. "
 "Activating an active extension or deactivating an inactive one changes nothing; activating an unknown extension or one whose attributes conflict with another active extension raises and leaves the previously active set and the classes unchanged. "
 "A context manager or decorated function activates the extensions only for its duration, also when its body raises, and leaves extensions that were active before still active.",
 ["histories", "fault_sequences"], "all sets of extensions and classes, and all interleavings of activation, deactivation, contexts and failures",
 "Tests activate one or two extensions once.",
 ["mdp/extension.py"],
 [("activate_extension/deactivate_extension/activate_extensions/deactivate_extensions", "mdp/extension.py"), ("extension, with_extension", "mdp/extension.py"), ("_register_function/ExtensionNodeMetaclass", "mdp/extension.py")],
 [("_extensions, _active_extensions", "registry and active set", "mdp/extension.py")],
 ["class attributes", "get_active_extensions()"])

prop("C14", "Execution caching never changes results",
 "With the execution cache active, executing a cached node returns the same value as without it for any input and any node state: a value is only ever reused for the same executor, the same node content and the same input. "
 "Only the selected classes or instances (or all, when none are selected) use the cache, and stopping it or leaving its context removes it and restores normal execution. "
 "Training or changing a node after a cached execution makes later executions return the new node's result.",
 ["inputs", "histories"], "all nodes, inputs and orders of training, execution, activation and deactivation",
 "Tests count calls for a few nodes and repeat identical calls.",
 ["mdp/caching/caching_extension.py"],
 [("ExecuteCacheExtension / cache", "mdp/caching/caching_extension.py"), ("activate_caching/deactivate_caching/set_cachedir", "mdp/caching/caching_extension.py")],
 [("_cached_classes, _cached_instances, _cached_methods", "what is cached", "mdp/caching/caching_extension.py")],
 ["execute results"])

prop("C15", "Schedulers run each task exactly once and return results in order",
 "Every task handed to a scheduler is executed exactly once by the callable given with it or else by the scheduler's current callable, its result is stored exactly once, and collecting results returns them in the order the tasks were added, whatever order they complete in, and empties the store. "
 "The number of open tasks is always the number added minus the number finished, and collecting waits until it is zero. "
 "A task that raises, or adding a task when no callable is known, surfaces as an exception and never leaves the scheduler locked or its counts wrong.",
 ["schedules", "histories", "fault_sequences"], "any number of tasks, any completion order, any callable",
 "Tests run a few tasks in whatever order the machine happens to complete them.",
 ["mdp/parallel/scheduling.py", "mdp/parallel/thread_schedule.py", "mdp/parallel/process_schedule.py"],
 [("Scheduler.add_task/_process_task/_store_result/get_results/set_task_callable", "mdp/parallel/scheduling.py"), ("ResultContainer/ListResultContainer/OrderedResultContainer", "mdp/parallel/scheduling.py"), ("ThreadScheduler", "mdp/parallel/thread_schedule.py"), ("ProcessScheduler", "mdp/parallel/process_schedule.py")],
 [("_n_open_tasks, task_counter, result_container", "bookkeeping", "mdp/parallel/scheduling.py")],
 ["get_results()", "n_open_tasks", "calls arriving at the task callables"])

prop("C16", "Parallel training and execution equal the sequential ones",
 "Training or executing a parallel flow with any scheduler gives every node the same training data per phase, and the flow the same result, as the sequential flow: each chunk becomes exactly one task for the node and phase being trained, results are joined into exactly that node, and executed chunks are concatenated in order. "
 "Forking a parallel node and joining the forks after each was trained on part of the data accumulates exactly the statistics of training it on all the data, and never drops what the original had. "
 "Asking for a task or using results in the wrong state raises instead of corrupting the flow.",
 ["schedules", "inputs", "histories"], "any number of chunks and nodes, any assignment and completion order of tasks",
 "Tests compare a few flows with a sequential run for one chunking and one schedule.",
 ["mdp/parallel/parallelflows.py", "mdp/parallel/parallelnodes.py", "mdp/parallel/parallelhinet.py"],
 [("ParallelFlow.setup_parallel_training/get_task/use_results/train/execute", "mdp/parallel/parallelflows.py"), ("FlowTrainCallable, FlowExecuteCallable, NodeResultContainer, ExecuteResultContainer", "mdp/parallel/parallelflows.py"), ("ParallelExtensionNode fork/join and Parallel*Node", "mdp/parallel/parallelnodes.py"), ("ParallelFlowNode, ParallelLayer, ParallelCloneLayer", "mdp/parallel/parallelhinet.py")],
 [("_flownode, _i_train_node, _train_data_iterator", "training position", "mdp/parallel/parallelflows.py")],
 ["tasks produced", "statistics of the joined node", "results"])

prop("C17", "Bi-nodes obey the message protocol and hide it from their implementation",
 "A bi-node's method receives from a message exactly the entries whose names are its arguments (entries addressed to this node's id win and are removed from the message, others stay in it), plus the message itself exactly if it asks for it; entries addressed to other nodes are passed on untouched. "
 "Results are combined so that the node's own outgoing message overrides same-named incoming entries, everything else is forwarded, and the target is the node's own choice. "
 "A message may select another method by its name without the leading underscore; if the node has no such method a bi-node exception is raised. "
 "A coroutine method continues where it stopped until the node is reset, and the value it returns is its last result.",
 ["inputs", "programs"], "all messages, node ids, method signatures and results",
 "Tests pass a few dictionaries by hand.",
 ["bimdp/binode.py"],
 [("BiNode._extract_message_key / _get_method / _request_node_id / _combine_message / _combine_result", "bimdp/binode.py"), ("BiNode.execute/train/inverse/stop_training", "bimdp/binode.py")],
 [], ["arguments arriving at the implementation", "returned value"])

prop("C18", "Bi-flows follow targets exactly and collect results per chunk",
 "A bi-flow passes data and message node by node; a target given as a relative number or a node id moves execution to exactly that node, without target it goes on to the next node, and execution ends with exactly the values at that point at the exit target or when it leaves the flow at either end. "
 "Targets that do not exist raise a bi-flow exception, and node lookup by id gives the first node that answers to the id. In training each chunk runs up to the trained node, which is trained with what arrives there and whose results are followed like any other until its training of the chunk is over. "
 "Over several chunks results and messages are joined entry by entry: arrays concatenated, lists extended, other types added up, in chunk order; messages given by the caller and values of the nodes are not modified.",
 ["inputs", "programs"], "flows of any length, any target sequence, any messages and chunk counts",
 "Tests follow a few fixed jump sequences.",
 ["bimdp/biflow.py"],
 [("BiFlow._execute_seq/_target_to_index/_train_node_single_phase/train/execute", "bimdp/biflow.py"), ("MessageResultContainer", "bimdp/biflow.py"), ("BiFlow._request_node_id/__getitem__/__contains__", "bimdp/biflow.py")],
 [], ["sequence of calls arriving at the nodes", "results"])

prop("C19", "Polynomial expansion yields every monomial of the degree exactly once",
 "The polynomial expansion of degree n maps each sample to all monomials of total degree 1..n in the input variables, each exactly once and with coefficient one, in order of degree, starting with the inputs themselves; the quadratic expansion is the case n=2. "
 "The announced output dimension is exactly the number of columns produced, for every input dimension and degree. "
 "The general expansion concatenates its functions' results in the given order with matching dimensions, and column j of a radial basis expansion is the Gaussian of the distance to center j for its size or covariance matrix.",
 ["inputs", "configurations"], "every degree, input dimension and sample",
 "Tests check one or two degrees for fixed small dimensions.",
 ["mdp/nodes/expansion_nodes.py"],
 [("_ExpansionNode, PolynomialExpansionNode, QuadraticExpansionNode", "mdp/nodes/expansion_nodes.py"), ("expanded_dim, nmonomials", "mdp/nodes/expansion_nodes.py"), ("GeneralExpansionNode", "mdp/nodes/expansion_nodes.py"), ("RBFExpansionNode", "mdp/nodes/expansion_nodes.py"), ("comb", "mdp/utils/routines.py")],
 [], ["execute results, output_dim"])

prop("C20", "Time embedding, cutoffs and histograms place every sample where specified",
 "A time-frames node outputs at row t the rows t, t+gap, ..., t+(frames-1)*gap side by side and as many rows as fit (none for shorter inputs), and its pseudo-inverse puts every row that appears in such an output back at its place, with zeros in the other rows; a time-delay node outputs at row t the rows t, t-gap, ... with zeros before the start, for inputs of any length, and its sliding-window variant, given the rows one by one, returns the same rows. "
 "A cutoff node returns each value limited to its bounds; of the N collected values of a variable sorted by size, the adaptive variant's lower bound is the one with floor(fraction*N) values before it, its upper bound the one with floor(fraction*N) values after it. "
 "A histogram node keeps the training data, all rows in order for the fraction 1 and otherwise some of the rows in their order, whatever happens to the training arrays afterwards. "
 "None of these nodes changes the input array.",
 ["inputs", "histories"], "all arrays, gaps, frame counts, chunkings and bounds",
 "Tests use one short series.",
 ["mdp/nodes/misc_nodes.py"],
 [("TimeFramesNode, TimeDelayNode, TimeDelaySlidingWindowNode", "mdp/nodes/misc_nodes.py"), ("CutoffNode, HistogramNode, AdaptiveCutoffNode", "mdp/nodes/misc_nodes.py")],
 [], ["execute results"])

prop("C21", "Hit parade and eta statistics are exact for any chunking",
 "After any sequence of chunks a hit-parade node reports, per variable, a list of the requested number of large and one of small values, most extreme first, each with its position counted over all data seen; places not used hold a placeholder. "
 "The reported value is the sample at its position, any two positions in a list are farther apart than the minimum gap, no value within the gap after a reported position is more extreme, the most extreme value of all is in the list, and every sample that is more extreme than the last entry is in the list or has a sample at least as extreme within the gap (so for the gap 0 the list holds exactly the n most extreme). The lists do not depend on how the signal was cut into chunks. "
 "The eta-value node reports t/(2 pi) times the square root of the mean squared difference of successive samples, differences being taken inside the chunks, divided by the unbiased variance of the samples at which the differences start.",
 ["inputs", "histories"], "all signals, chunkings, list lengths and gaps",
 "Tests feed one random signal in one chunking.",
 ["mdp/nodes/misc_nodes.py"],
 [("OneDimensionalHitParade.update/get_maxima/get_minima", "mdp/nodes/misc_nodes.py"), ("HitParadeNode._train", "mdp/nodes/misc_nodes.py"), ("EtaComputerNode", "mdp/nodes/misc_nodes.py")],
 [], ["get_maxima/get_minima/get_eta"])

prop("C22", "Online nodes and flows update in stream order, once per sample",
 "An online node hands its learner the samples (or the whole batch, if batch-based) of every training call in order, each exactly once, and counts training iterations accordingly; stopping closes it like any node, and it can still be executed between updates without ending training. "
 "An online flow trains, for each incoming sample in order, node i on that sample processed by the current state of nodes 0..i-1, trainable nodes updating before their output is passed on. "
 "Circular online flows feed back their stored output for exactly the configured number of iterations.",
 ["inputs", "histories"], "any stream, any flow length, any chunking",
 "Tests use one stream and compare final numbers.",
 ["mdp/signal_node_online.py", "mdp/linear_flows_online.py"],
 [("OnlineNode.train/_get_train_seq/_train_seq/_pre_execution_checks", "mdp/signal_node_online.py"), ("OnlineFlow.train/_train_check_iterables", "mdp/linear_flows_online.py"), ("CircularOnlineFlow", "mdp/linear_flows_online.py")],
 [("_train_iteration", "number of samples seen", "mdp/signal_node_online.py")],
 ["calls arriving at the learners"])

prop("C23", "Linear feature nodes satisfy their algebraic definition",
 "A principal-component node's projection directions are orthonormal, its training outputs are uncorrelated with variances equal to the reported eigenvalues in descending order, and reconstruction from all components returns the input; a whitening node's outputs have unit covariance. "
 "Slow-feature nodes return outputs of zero mean and unit covariance ordered by slowness, whatever chunks with the same samples and derivatives they were trained on. "
 "The kept number of components is the requested one, or the smallest that reaches the requested variance fraction.",
 ["inputs"], "all training data of full rank, all dimensions",
 "Tests check single random data sets numerically.",
 ["mdp/nodes/pca_nodes.py", "mdp/nodes/sfa_nodes.py"],
 [("PCANode._stop_training/_set_output_dim/_execute/_inverse, WhiteningNode", "mdp/nodes/pca_nodes.py"), ("SFANode._train/_stop_training/_execute", "mdp/nodes/sfa_nodes.py")],
 [], ["execute/inverse results"])

prop("C24", "Classifiers' labels, probabilities and ranks agree",
 "A classifier node's ranking lists, for every sample, the labels sorted by decreasing probability (those above the threshold), executes with the selected method's result, and training data cumulated in chunks reaches the finisher as the concatenation in order with the labels aligned. "
 "A label list of the wrong length is refused before training. "
 "Counting classifiers return the empirical conditional label frequencies of everything learned.",
 ["inputs", "histories"], "all samples, label sets, thresholds and chunkings",
 "Tests use two or three labels and one chunk.",
 ["mdp/classifier_node.py", "mdp/nodes/classifier_nodes.py"],
 [("ClassifierNode.rank/_execute/label/prob", "mdp/classifier_node.py"), ("ClassifierCumulator._check_train_args/_train/_stop_training", "mdp/classifier_node.py"), ("SimpleMarkovClassifier, NearestMeanClassifier", "mdp/nodes/classifier_nodes.py")],
 [], ["label/prob/rank/execute results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
