# ------------------------------------------------------------------ nodes
prop('L01', 'Calls in the wrong training phase are refused before algorithm code runs',
     'On every node, training a node that cannot be trained or has finished training, closing a phase that was not '
     'started or is already closed, executing or inverting while phases remain, and inverting a node that is not '
     'invertible raise the documented exception. The refusal happens before any training, closing, execution or '
     'inversion code of the algorithm runs on the data and leaves the training state unchanged. The phase observers '
     'always agree with the calls made so far.',
     ['histories', 'programs'], 'every sequence of train / stop_training / execute / inverse calls, for nodes with any number of phases and any algorithm code, including calls that failed',
     'tests drive a handful of call sequences on concrete nodes; the guarantee is about every history and every node class that inherits or overrides the protocol',
     ['mdp/signal_node.py', 'mdp/signal_node_online.py', 'bimdp/binode.py', 'mdp/nodes/rbm_nodes.py', 'mdp/classifier_node.py'],
     [('phase checks of train, stop_training, execute, inverse', 'mdp/signal_node.py Node.train/stop_training/_pre_execution_checks/_pre_inversion_checks'),
      ('online variant', 'mdp/signal_node_online.py OnlineNode.train/stop_training'),
      ('message variant', 'bimdp/binode.py BiNode.train/stop_training'),
      ('redefined entry points', 'mdp/nodes/rbm_nodes.py RBMWithLabelsNode.train; mdp/classifier_node.py label/prob')],
     [('_train_phase', 'index of the current phase', 'mdp/signal_node.py'), ('_train_phase_started', 'data was seen in this phase', 'mdp/signal_node.py'),
      ('_training', 'phases remain', 'mdp/signal_node.py')],
     ['exceptions raised', 'is_training()', 'get_current_train_phase()', 'get_remaining_train_phase()'])
check('L01', 'typestate product by abstract interpretation of the protocol methods over the class hierarchy',
      'Decides every call sequence up to the fixpoint of abstract states for 0-3 phases with arbitrary failing algorithm hooks; argument values are tokens.')
prop('L02', 'The training phase advances exactly when its closing step succeeded',
     'Every training call runs the training step of the current phase exactly once on the given data, and every '
     'successful closing call runs the closing step of that phase exactly once and moves to the next phase. When a training '
     'or closing step fails, the failure reaches the caller, the phase does not advance, and the phase can still be '
     'closed later.',
     ['histories', 'fault_sequences'], 'every history of node calls in which any training or closing step may fail',
     'no test makes a closing step fail in the middle of a multi-phase history and checks what can still be done',
     ['mdp/signal_node.py', 'mdp/signal_node_online.py', 'bimdp/binode.py'],
     [('closing hook before phase update', 'mdp/signal_node.py Node.stop_training'), ('all phases closed together', 'mdp/signal_node_online.py OnlineNode.stop_training'),
      ('implicit training on execute', 'mdp/signal_node.py Node._pre_execution_checks')],
     None, ['get_current_train_phase()', 'is_training()', 'algorithm hooks called'])
check('L02', 'typestate product by abstract interpretation with failing hooks',
      'Same product as L01; decides hook order, failure propagation and the phase after every outcome.')
prop('L03', 'Dimensions and dtype are fixed once and every input is checked against them',
     'Input of the wrong rank, of a width different from the fixed input dimension, or without observations is refused '
     'with a node exception before it reaches algorithm code, and other input reaches it cast to the dtype of the node. '
     'Once the input dimension, output dimension or dtype of a node is set, setting a different value raises and leaves '
     'the old value, setting none is ignored and a successful assignment reads back. Nodes that preserve dimensions always '
     'report equal input and output dimension.',
     ['inputs', 'histories'], 'every shape and dtype of input in every training state, every order of dimension and dtype assignments, every node class',
     'tests try a few wrong shapes on untrained nodes; the guarantee covers every state and every class overriding a setter',
     ['mdp/signal_node.py', 'mdp/signal_node_online.py', 'mdp/hinet/flownode.py', 'mdp/hinet/layer.py', 'mdp/nodes'],
     [('input check', 'mdp/signal_node.py Node._check_input'), ('set-once setters', 'mdp/signal_node.py set_input_dim/set_output_dim/set_dtype'),
      ('overridden setters', '_set_input_dim/_set_output_dim/_set_dtype across mdp/nodes and hinet')],
     None, ['exceptions', 'input_dim', 'output_dim', 'dtype'])
check('L03', 'typestate product plus abstract set-once table over every setter implementation',
      'Decides shape/width/empty refusal in every protocol state and the set-once table for all 30 setter implementations; values are tokens.')
# ------------------------------------------------------------------ flows
prop('F01', 'Flow.train gives every node exactly its data, through the nodes before it',
     'Flow.train trains the nodes in order, each phase of each untrained node on every chunk of its own iterable exactly once, '
     'with its own supervised arguments and with the data passed through all nodes in front, and closes each phase after '
     'its last chunk. Untrainable or trained nodes are skipped, and missing, empty, exhausted, or badly shaped data is refused. '
     'A failing node step stops the training and is reported as a flow exception that names that node and keeps the original error.',
     ['inputs', 'histories', 'fault_sequences'], 'every mixture of nodes, phases, training arguments and iterables, any node step failing',
     'tests train a few fixed flows on arrays; the guarantee is about any node sequence, iterable kind and failing step',
     ['mdp/linear_flows.py'],
     [('training loop', 'mdp/linear_flows.py Flow._train_node'), ('iterable checks', 'mdp/linear_flows.py Flow._train_check_iterables'),
      ('error wrapper', 'mdp/linear_flows.py Flow._propagate_exception'), ('train', 'mdp/linear_flows.py Flow.train')],
     None, ['calls received by the nodes', 'exceptions'])
check('F01', 'abstract interpretation of the training code over contract nodes with data provenance',
      'Flows of up to 3 nodes with 0-2 phases; chunk values are tokens with provenance; every node step may fail.')
prop('F02', 'Flows are lists of nodes: each list operation takes full effect or none',
     'Flow, OnlineFlow and CircularOnlineFlow support indexing, slicing, assignment, deletion, +, +=, append, extend, insert, '
     'pop, contains, len and iteration with the result the same operation has on a list of the nodes. An operation that '
     'would join nodes of different dimensions, or put in something that is not a suitable node, raises and leaves '
     'the flow as it was. The bookkeeping of online flows (training arguments, output node, container type) always matches the nodes held.',
     ['histories', 'inputs'], 'every sequence of container operations on flows of any length, with fitting and unfitting nodes',
     'tests apply each operation once to one flow; atomicity needs every operation in every state with every unfit value',
     ['mdp/linear_flows.py', 'mdp/linear_flows_online.py'],
     [('container protocol', 'mdp/linear_flows.py Flow.__setitem__/__delitem__/__add__/__iadd__/append/extend/insert/pop'),
      ('consistency check', 'mdp/linear_flows.py Flow._check_nodes_consistency'),
      ('online variants', 'mdp/linear_flows_online.py OnlineFlow, CircularOnlineFlow')],
     [('flow', 'the node sequence', 'mdp/linear_flows.py'), ('output_node_idx', 'position of the output node', 'mdp/linear_flows_online.py')],
     ['len', 'indexing', 'exceptions'])
check('F02', 'abstract interpretation of every container operation against list semantics',
      'Every operation on flows of 0-3 nodes, all positions and slices, fitting and unfitting values; state compared before and after refusals.')
prop('F03', 'Flow execution is the composition of its nodes in both directions',
     'Executing a flow applies each node once, in order, to the result of the one before, up to the requested node, chunk by '
     'chunk with the results joined in order; inverse applies the inverses in reverse order from the end of the flow. Calling the flow is '
     'executing it, the input is never skipped or reused, and a failing node is reported as a flow exception naming that node.',
     ['inputs', 'fault_sequences'], 'flows of any node kinds, arrays and iterables, any node number, any failing node',
     'tests compare numbers for one or two flows and never let an inner node fail on a later chunk',
     ['mdp/linear_flows.py', 'mdp/linear_flows_online.py'],
     [('execute', 'mdp/linear_flows.py Flow.execute/_execute_seq'), ('inverse', 'mdp/linear_flows.py Flow.inverse/_inverse_seq'),
      ('circular', 'mdp/linear_flows_online.py CircularOnlineFlow.execute/_inverse_seq')],
     None, ['result', 'exceptions'])
check('F03', 'abstract interpretation with data provenance terms', 'Result terms compared with the composition term on every path.')
prop('F04', 'Checkpoint functions run once, right after their node has been trained',
     'CheckpointFlow.train behaves as Flow.train and calls the checkpoint function given for a node exactly once with '
     'that node, after its last training chunk was processed and its earlier phases were closed, and before anything is done for the next node. A number of checkpoints '
     'different from the number of nodes is refused, nodes without a function are passed over, and a dictionary '
     'returned by a checkpoint is added to the attributes of the flow.',
     ['inputs', 'fault_sequences'], 'every mixture of nodes and checkpoint functions, any step or checkpoint failing',
     'tests use one flow and two checkpoint functions', ['mdp/linear_flows.py'],
     [('checkpoint loop', 'mdp/linear_flows.py CheckpointFlow.train'), ('checks', 'mdp/linear_flows.py CheckpointFlow._train_check_checkpoints')],
     None, ['calls of the checkpoint functions'])
check('F04', 'abstract interpretation over contract nodes and checkpoint hooks', 'Same engine as F01 with checkpoint hooks.')
prop('F05', 'Online flows train every node on every chunk, each on the previous output',
     'OnlineFlow.train passes each chunk through the flow once, training each untrained node on the output of the node in front '
     '(after that one saw the chunk) with its own arguments; online nodes stay open and a last batch node is closed at the end only. '
     'CircularOnlineFlow.train does the same for the set number of iterations, feeding the output back, starting from the stored input when '
     'input is ignored, and stores the last output. Empty data and wrong arguments are refused, a failing node stops training and is named in the flow exception.',
     ['inputs', 'histories', 'fault_sequences'], 'every mixture of online, fixed, trained and final batch nodes, iterables and arrays, iterations and failing steps',
     'tests train a couple of online flows on random arrays', ['mdp/linear_flows_online.py'],
     [('online loop', 'mdp/linear_flows_online.py OnlineFlow._train_nodes'), ('circular loop', 'mdp/linear_flows_online.py CircularOnlineFlow._train_nodes')],
     [('_stored_input', 'the input of the next internal iteration', 'mdp/linear_flows_online.py')], ['calls received by the nodes', 'get_stored_input()'])
check('F05', 'abstract interpretation of the online training code over contract nodes with data provenance',
      'Flows of 1-3 nodes; one recorded finding (multi-phase last node).')
# -------------------------------------------------------------- scheduling
prop('S01', 'The scheduler lock is always released and guards every shared write',
     'Every scheduler takes its lock at most once per thread, releases it only when it holds it, and never sleeps, waits for a '
     'slave process or returns to the caller while it still holds it, also when a task, fork, copy, result container, thread start or pipe '
     'fails. Scheduler state that is changed after construction is changed only with the lock held.',
     ['schedules', 'fault_sequences'], 'every interleaving of the calling thread with the worker threads, every failing step',
     'a leaked lock or an unguarded write shows only under one schedule or one failure, and as a hang, not a wrong result',
     ['mdp/parallel/scheduling.py', 'mdp/parallel/thread_schedule.py', 'mdp/parallel/process_schedule.py'],
     [('submission', 'mdp/parallel/scheduling.py Scheduler.add_task'), ('collection', 'mdp/parallel/scheduling.py Scheduler._store_result/get_results'),
      ('threads', 'mdp/parallel/thread_schedule.py ThreadScheduler._process_task/_task_thread'),
      ('processes', 'mdp/parallel/process_schedule.py ProcessScheduler._process_task/_task_thread')],
     [('_lock', 'mutual exclusion of scheduler state', 'mdp/parallel/scheduling.py'), ('_n_open_tasks', 'tasks not finished', 'mdp/parallel/scheduling.py')],
     ['deadlock', 'lost updates'])
check('S01', 'lock typestate and lockset analysis by abstract interpretation of a cooperative thread model',
      'Every operation of the three schedulers with every failing step; at most 2 workers and 3 tasks; switches at sleeps and operation boundaries, lockset rule between them.')
prop('S02', 'Schedulers run each accepted task once, count it until done and report failures',
     'A scheduler starts each accepted task exactly once, in the order of submission, with no more tasks running at a time than '
     'there are workers. n_open_tasks is the number of accepted tasks whose result is not stored. get_results waits for all of them, returns '
     'each result once and leaves the scheduler empty. A task that fails is closed and reported by an exception, never waited for, and '
     'leaves the scheduler usable.',
     ['histories', 'schedules', 'fault_sequences'], 'every sequence of submissions and collections, worker order and failing step',
     'tests run a few tasks that all succeed',
     ['mdp/parallel/scheduling.py', 'mdp/parallel/thread_schedule.py', 'mdp/parallel/process_schedule.py'],
     [('accounting', 'mdp/parallel/scheduling.py Scheduler.add_task/_store_result/get_results'),
      ('free worker', 'mdp/parallel/thread_schedule.py ThreadScheduler._process_task'),
      ('slaves', 'mdp/parallel/process_schedule.py ProcessScheduler._process_task/_task_thread')],
     [('n_open_tasks', 'accepted tasks without stored result', 'mdp/parallel/scheduling.py'), ('task_counter', 'number of the next task', 'mdp/parallel/scheduling.py')],
     ['n_open_tasks', 'get_results()', 'exceptions'])
check('S02', 'abstract interpretation of a cooperative thread model with failing steps, compared with a task ledger',
      'Operation sequences of up to 4 steps, 1-2 workers, both thread orders; tasks are tokens.')
prop('S03', 'Every task runs on a fresh fork of the callable in force when it was added',
     'Each task is executed by a fork of the callable given with it, or of the callable last set when it was added, and no two tasks share '
     'one fork. This holds in the calling thread, in worker threads and in slave processes, with caching of callables on or off '
     'and after any changes of the callable. Plain functions are accepted as callables in every place.',
     ['histories', 'schedules'], 'every order of callable changes and task submissions over every worker',
     'tests set the callable once before the first task',
     ['mdp/parallel/scheduling.py', 'mdp/parallel/thread_schedule.py', 'mdp/parallel/process_schedule.py'],
     [('callable of the task', 'mdp/parallel/scheduling.py Scheduler.add_task/set_task_callable'),
      ('caching', 'mdp/parallel/process_schedule.py ProcessScheduler._task_thread, _process_run')],
     None, ['results of the tasks'])
check('S03', 'provenance analysis of callables by abstract interpretation of the scheduler and slave code',
      'All orders of up to 4 operations, 1-2 workers, both caching modes, and the slave loop on messages with and without callable.')
prop('S04', 'Result containers return every result once, in task order where promised',
     'A list container returns the results in order of arrival, an ordered container and an execution container in the order of task numbers, '
     'whatever the arrival order. Training and execution containers join each forked flow node exactly once into the one they return. '
     'After the results are collected the container is empty and can be used again with the same guarantees.',
     ['schedules', 'histories'], 'every arrival order of results and repeated use of a container',
     'tests use the order in which a local scheduler happens to deliver',
     ['mdp/parallel/scheduling.py', 'mdp/parallel/parallelflows.py'],
     [('ordering', 'mdp/parallel/scheduling.py OrderedResultContainer.get_results'), ('joining', 'mdp/parallel/parallelflows.py TrainResultContainer, ExecuteResultContainer')],
     None, ['get_results()'])
check('S04', 'abstract interpretation of the containers on all arrival orders', 'All permutations of up to 3 (thorough 4) results, two rounds of use.')
# ---------------------------------------------------------------- parallel
prop('P02', 'Parallel training and execution of a flow use every chunk exactly once',
     'With a scheduler, ParallelFlow.train closes each training phase of each node after exactly the chunks given for that node, each trained '
     'once on a fork that is joined once; phases that cannot be forked are trained locally on all chunks. execute returns the chunk results '
     'in order, up to nodenr, each chunk executed on its own fork. Schedulers given in a sequence serve their node and are shut down once; checkpoints run '
     'after their node. Empty data is refused, failures reach the caller, and the flow can then be used again.',
     ['inputs', 'schedules', 'fault_sequences', 'histories'], 'every mixture of forkable and local phases, data kinds, result orders, schedulers and failing steps, and the manual task interface',
     'tests train a few flows whose steps all succeed with one scheduler and compare numbers',
     ['mdp/parallel/parallelflows.py'],
     [('training loop', 'mdp/parallel/parallelflows.py ParallelFlow.train/_next_train_phase/use_results'), ('local training', 'mdp/parallel/parallelflows.py ParallelFlow._local_train_phase'),
      ('execution', 'mdp/parallel/parallelflows.py ParallelFlow.execute/setup_parallel_execution'), ('checkpoints', 'mdp/parallel/parallelflows.py ParallelCheckpointFlow')],
     [('_i_train_node', 'node in training', 'mdp/parallel/parallelflows.py'), ('_next_task', 'buffered task', 'mdp/parallel/parallelflows.py')],
     ['data of each training phase', 'results', 'is_parallel_training', 'task_available', 'exceptions'])
check('P02', 'abstract interpretation of flow, task callables and result containers over contract flow nodes and schedulers',
      'Flows of 1-3 nodes with 0-2 phases, 0-3 chunks, both result orders, every single failing step; compared with the multiset of chunks.')
# ------------------------------------------------------------------ extensions
prop('E01', 'Extensions are injected completely and removed without a trace',
     'While an extension is active, each attribute registered for a node class is found on that class and on its subclasses without their own one, and the hidden '
     'original is available with the _non_extension_ prefix. Deactivation in any order, or an activation that fails, leaves every class and every other active '
     'extension as it was before; name collisions and unknown names are refused. The set-up and tear-down functions run once per activation and deactivation. '
     'The decorator and the context manager activate their extensions for the body and deactivate exactly what they activated, however the body ends.',
     ['histories', 'programs', 'fault_sequences'], 'every class hierarchy, placement of own and registered attributes, order of activations and failing set-up, tear-down or body',
     'tests activate one or two extensions on a few classes in one order and compare single attributes',
     ['mdp/extension.py'],
     [('injection', 'mdp/extension.py activate_extension'), ('restoration', 'mdp/extension.py deactivate_extension'),
      ('scoped use', 'mdp/extension.py with_extension, extension'), ('registration', 'mdp/extension.py ExtensionNodeMetaclass.__new__, extension_method')],
     [('_extensions', 'registered attributes', 'mdp/extension.py'), ('_active_extensions', 'active extensions', 'mdp/extension.py')],
     ['class attributes', 'get_active_extensions()', 'exceptions'])
check('E01', 'abstract interpretation of the extension code on model class hierarchies',
      'Chains of 2 (thorough: 3) classes, two extensions on every subset of the classes, all activation orders, one failing hook; attribute values are tokens.')
prop('P01', 'Forking a node, training the forks and joining them equals training in one go',
     'For every node that can be forked, forks of an untrained or partly trained node that are trained on parts of the data and joined back leave '
     'the node with the same training result as training it directly on all of the data, whatever the order of the joins and whether forks are '
     'joined at once or one after the other. This holds for every constructor option, for labelled data and for nested nodes. A node '
     'that cannot guarantee it refuses to fork with the documented exception.',
     ['schedules', 'inputs', 'programs'], 'every node class that defines or inherits a fork, every option, every data and label content, several fork/join schedules',
     'tests compare a few parallel flows numerically; a class that inherits an unsuitable fork, or an accumulator that one schedule leaves out, needs a specific node, option and schedule',
     ['mdp/parallel/parallelnodes.py', 'mdp/parallel/parallelclassifiers.py', 'mdp/parallel/parallelhinet.py', 'mdp/nodes', 'mdp/utils/covariance.py'],
     [('default fork from constructor arguments', 'mdp/parallel/parallelnodes.py ParallelExtensionNode._default_fork'), ('joins', 'mdp/parallel/parallelnodes.py _join, _join_covariance'),
      ('classifier joins', 'mdp/parallel/parallelclassifiers.py'), ('nested nodes', 'mdp/parallel/parallelhinet.py')],
     [('accumulators of each node class', 'what a training phase collects', 'mdp/nodes')], ['attributes of the joined node', 'exceptions of fork and join'])
check('P01', 'abstract interpretation over uninterpreted pure terms, serial state compared with joined state',
      'Real code of each node and parallel class; two chunks, four schedules, 12 classes with options plus nested nodes; numerical operations are uninterpreted, sums are compared as multisets.')
# ------------------------------------------------------------------ effects
prop('N03', 'Operations never modify the data, arguments or defaults they were given',
     'train, execute, inverse and all other public operations of nodes, flows and accumulators, and the exported functions, leave the arrays, lists, dictionaries and messages '
     'given by the user unchanged, also those given to the constructor and used later. Only functions documented to work in place, the overwrite options that '
     'the caller sets, and the message handed directly to a BiNode (which consumes it) are exceptions. Instances never change class variables, module '
     'variables or default values, so no two objects share state.',
     ['inputs', 'histories'], 'every operation of every class, whatever the data, the options and the earlier operations',
     'tests rarely look at their arguments afterwards; a view that is changed in place shows only for one dtype, option or later phase',
     ['mdp/nodes', 'mdp/signal_node.py', 'mdp/hinet', 'mdp/utils', 'bimdp/biflow.py', 'bimdp/nodes', 'mdp/linear_flows.py'],
     [('data of operations', 'mdp/nodes _train/_execute/_inverse of every class'), ('constructor arguments', 'mdp/nodes __init__ of every class'),
      ('messages', 'bimdp/biflow.py BiFlow._execute_seq, _train_node_single_phase')],
     None, ['arguments after the call', 'class variables', 'results of later calls with the same arguments'])
check('N03', 'interprocedural may-alias and side-effect analysis over all public operations',
      'Flow-sensitive locals, flow-insensitive heap, every program call followed with its argument locations; library functions by a table of their effects.')
prop('N04', 'Executing, inverting and labelling leave a trained node unchanged',
     'Executing, inverting or calling a trained node, and labelling with a classifier, never change the node, the objects it holds or the arrays in its attributes; '
     'only missing values may be computed and kept. Therefore the results do not depend on earlier executions. The exceptions are the documented ones: '
     'TimeDelaySlidingWindowNode, pending message targets of a BiFlowNode and copies requested from a CloneBiLayer.',
     ['inputs', 'histories'], 'every class, every data and every sequence of executions',
     'tests execute a node once after training; a change of the state shows only in a second execution with particular data',
     ['mdp/nodes', 'mdp/signal_node.py', 'mdp/classifier_node.py', 'mdp/hinet', 'bimdp/nodes', 'mdp/linear_flows.py'],
     [('execution', 'mdp/nodes _execute of every class'), ('inversion', 'mdp/nodes _inverse of every class'), ('classification', 'mdp/nodes _label/_prob/_rank')],
     None, ['attributes after the call', 'results of repeated calls'])
check('N04', 'interprocedural may-alias and side-effect analysis: effects of execution on the trained heap',
      'Heap built from constructor, train and stop_training; every store or in-place change reachable from the node during execute, inverse, label, prob, rank.')
# --------------------------------------------------------------- hierarchical networks
prop('H01', 'A layer gives every node its own columns and assembles the results in order',
     'Training, executing and inverting a Layer applies node i to block i of the columns, with the blocks laid out one after the other by the dimensions of the nodes, and puts its '
     'result into block i of the output. A SameInputLayer gives the whole data to every node, a CloneLayer applies its one node to every block. '
     'Each node that still trains gets exactly its own phases, additional arguments reach every node, and the dimensions, dtype, invertibility and trainability of the layer follow from its nodes.',
     ['inputs', 'programs'], 'every number of nodes, dimensions, training phases and mix of trained, untrained and invertible nodes',
     'tests use layers of two or three nodes with small fixed dimensions; an offset that is wrong for unequal input and output dimensions or for nodes that finish early is not seen',
     ['mdp/hinet/layer.py'],
     [('columns and blocks', 'mdp/hinet/layer.py Layer._train/_execute/_inverse'), ('shared input', 'mdp/hinet/layer.py SameInputLayer'), ('shared node', 'mdp/hinet/layer.py CloneLayer'),
      ('derived attributes', 'mdp/hinet/layer.py Layer.__init__, _check_props, _get_output_dim_from_nodes')],
     None, ['results of the layer', 'calls of the nodes', 'dimensions', 'exceptions'])
check('H01', 'abstract interpretation with symbolic column ranges over contract nodes',
      'Layers of 1-3 nodes with symbolic dimensions, 0-2 phases, finished, untrainable, late-dimension and non-invertible nodes; column ranges are compared as linear terms.')
prop('H02', 'A FlowNode trains, executes, inverts and copies exactly like its flow',
     'A FlowNode runs the training phases of its nodes in order, each on the data executed by the nodes before it, skips phases done beforehand and closes each phase once. '
     'Executing and inverting it is executing and inverting the flow, and its dimensions become those of its first and last node as soon as they are known and never contradict them. '
     'It is trainable or invertible when its nodes allow it. A copy shares no node with the original and leaves the original as it was.',
     ['inputs', 'programs', 'histories'], 'every mix of trained, half trained, untrained, untrainable and non-invertible nodes with known or unknown dimensions',
     'tests wrap a few standard flows; half trained nodes, nodes that learn their dimension late or a failing copy need a particular combination',
     ['mdp/hinet/flownode.py'],
     [('training sequence', 'mdp/hinet/flownode.py FlowNode._get_train_seq'), ('dimensions', 'mdp/hinet/flownode.py _set_input_dim/_set_output_dim/_fix_nodes_dimensions'),
      ('copy', 'mdp/hinet/flownode.py FlowNode.copy')],
     [('_pretrained_phase', 'phases done before wrapping', 'mdp/hinet/flownode.py')], ['calls of the nodes', 'dimensions', 'nodes of original and copy', 'exceptions'])
check('H02', 'abstract interpretation of the node life cycle over contract nodes',
      'Flows of 1-3 contract nodes with 0-2 phases, earlier training, known and late dimensions; every operation order of the life cycle, failing copies included.')
# --------------------------------------------------------------- messages
prop('B01', 'A BiNode gives each method the message entries meant for it, passes on the rest',
     'execute, train and stop_training of a BiNode call the method that the message selects with the entries named like its arguments; entries addressed to this node take '
     'precedence and are removed, those for other nodes stay. The message returned holds the remaining entries updated with the result of the method, the target is the one '
     'of the result, else of the message or the stored stop result of this phase, else -1 for an inverse. Training marks, checks and closes its phases like an ordinary node, '
     'and missing methods, missing data and unsuitable arguments are refused.',
     ['inputs', 'programs'], 'every combination of plain, node specific and foreign entries, every form of result and every signature',
     'tests check single messages; which of several entries wins, and what remains in the message, depends on their combination',
     ['bimdp/binode.py'],
     [('entries of this node', 'bimdp/binode.py BiNode._get_msg_id_keys/_extract_message_key/_extract_method_args'), ('method and target', 'bimdp/binode.py BiNode._get_method'),
      ('combination with the result', 'bimdp/binode.py BiNode._combine_result'), ('stored stop results', 'bimdp/binode.py BiNode.stop_training')],
     [('_stop_result', 'stored message and target per phase', 'bimdp/binode.py')], ['arguments of the methods', 'returned message and target', 'exceptions'])
check('B01', 'abstract interpretation of the message handling compared with the documented protocol',
      '320 entry combinations x 5 signatures x 6 forms of result (quick: a sample of them; thorough: all), stop results for 1-3 phases; values are tokens.')
prop('B02', 'BiFlow.execute follows targets and carries messages as documented',
     'BiFlow.execute starts each chunk at its target (default: the first node), passes data and message from node to node, and goes where a result points: -1, 1 and 0 relative to the '
     'node, a node id absolutely, none to the next node; beyond the end or at the exit target it stops. Data are returned joined over the chunks in order, messages entry by entry. '
     'Every chunk has its own copy of the message, all bi-nodes are reset after each chunk. Targets outside the flow, unknown ids, data for some chunks only and results of invalid form are refused.',
     ['inputs', 'programs'], 'every mix of bi-nodes and plain nodes, every form of data, message and target, every jump forwards, backwards or to itself',
     'tests follow a few fixed routes; a wrong route or a leaked message needs a particular combination of target, data and message',
     ['bimdp/biflow.py'],
     [('routing', 'bimdp/biflow.py BiFlow._execute_seq, _target_to_index'), ('joining of chunks', 'bimdp/biflow.py BiFlow.execute, MessageResultContainer'),
      ('resets', 'bimdp/biflow.py BiFlow.bi_reset')],
     None, ['calls of the nodes', 'joined data and message', 'exceptions'])
check('B02', 'abstract interpretation of the routing over scripted contract nodes',
      'Flows of 1-3 nodes with all scripted results of one jump (and samples of two), 0-2 chunks, data, messages and targets in every documented form; the calls are compared with the rules.')
prop('B03', 'BiFlow.train gives each node its data, messages and stop messages',
     'BiFlow.train trains the nodes in order and each phase on all its chunks: a chunk with its message and target is executed up to the node in training and arrives there with what the '
     'earlier nodes made of it. After the chunks of a phase the node is stopped once with its stop message; a result of stop_training starts an '
     'execution at its target that must end at the end of the flow or the exit target. All bi-nodes are reset after each chunk and each phase. Checkpoint functions run after each node as in a CheckpointFlow.',
     ['inputs', 'programs', 'histories'], 'every mix of nodes, phases, data, messages, stop messages and results of stop_training',
     'tests train a few fixed flows; a message that reaches the wrong phase or a missing reset shows only with several phases, chunks and a stop result',
     ['bimdp/biflow.py'],
     [('training', 'bimdp/biflow.py BiFlow.train, _train_node_single_phase'), ('stop result', 'bimdp/biflow.py BiFlow._stop_training_hook/_train_node_single_phase'),
      ('checkpoints', 'bimdp/biflow.py BiCheckpointFlow.train')],
     None, ['calls of the nodes', 'exceptions'])
check('B03', 'abstract interpretation of the training over scripted contract nodes',
      'Flows of 1-3 nodes with 0-2 phases, 0-2 chunks, scripted results of execute, train and stop_training; data, messages and stop messages in every documented form.')
# --------------------------------------------------------------- library wide
prop('U01', 'Every name, attribute, call and message in the library resolves',
     'No path of a library function uses a name that is not defined or a local variable before it is assigned. Attributes of self, of library objects, modules and '
     'classes exist; calls of library functions, methods and classes pass arguments that the signature accepts; messages can be formatted with the values they get; what is raised is an exception. '
     'So a rarely used option, branch or error case ends in its documented result or exception, never in a NameError, UnboundLocalError, AttributeError or TypeError of the library itself.',
     ['inputs', 'programs'], 'every branch of every function, whatever options and data lead there',
     'error branches, verbose output and rare options are hardly run by tests; an unresolved name there shows only when the branch is taken',
     ['mdp', 'bimdp'],
     [('all functions', 'mdp, bimdp: every module except tests')],
     None, ['exceptions'])
check('U01', 'whole-program name, attribute and call resolution with path-correlated definite assignment',
      'All functions of the library; objects whose class the source determines (self, constructor results, attributes with one class), otherwise names against all known classes.')
prop('U02', 'Every operation of a node finds the attributes it needs',
     'After construction with any combination of options, one or more training calls and the end of every phase, every public operation of a node finds the attributes it reads: none is missing '
     'because a branch did not set it or an earlier step removed it, and none that it computes with is still the None placeholder of the constructor. The same holds for the helper classes, '
     'whose accumulators can be used again after they were fixed. So no combination of options and calls ends in an AttributeError or in a TypeError about None.',
     ['inputs', 'histories'], 'every combination of constructor options, every number of training calls and phases, every operation of every class',
     'tests construct nodes with a few sets of options and call the usual operations; an attribute set in one branch only is missed in the others',
     ['mdp', 'bimdp'],
     [('attributes of nodes', 'mdp/nodes, mdp/hinet, mdp/parallel, bimdp: every Node subclass'), ('accumulators', 'mdp/utils/covariance.py'),
      ('two paths that both set an attribute', 'mdp/nodes/classifier_nodes.py KMeansClassifier._stop_training; mdp/nodes/xsfa_nodes.py; mdp/nodes/gsfa_nodes.py')],
     None, ['exceptions of train, stop_training, execute, inverse and the other operations'])
check('U02', 'definite assignment of attributes over the life of an object by abstract interpretation of each class',
      '95 node classes and 71 helper classes; options are symbolic and correlated over the life of the object; attributes set by other objects are assumed present, loops run at least once.')
prop('N07', 'Random results depend only on the state of the numpy generator',
     'Every random number in training, execution, inversion or an exported function is drawn from the global generator of numpy; an online node draws from the generator it was given '
     'and hands it on to the nodes inside it. No operation reseeds a generator, makes one of its own (unless an online node was given none) or uses another source such as the random module, '
     'the time or object ids. So the same calls after the same seed give the same results.',
     ['inputs', 'histories'], 'every operation of every class and every source of chance reachable from it',
     'tests with random data rarely repeat a run with the same seed; another source in one branch or option is not noticed',
     ['mdp/nodes', 'mdp/signal_node_online.py', 'mdp/hinet', 'mdp/utils/routines.py'],
     [('draws', 'mdp/nodes, mdp/utils: calls of numx_rand, numx.random, numx_rng'), ('generator of online nodes', 'mdp/signal_node_online.py OnlineNode.set_numx_rng/_check_input'),
      ('handing on', 'mdp/hinet/layer_online.py, flownode_online.py, mdp/nodes/sfa_nodes_online.py _set_numx_rng')],
     [('_numx_rng', 'generator of the node', 'mdp/signal_node_online.py')], ['results of repeated runs'])
check('N07', 'call-graph reachability of sources of chance and may-alias analysis of the generators',
      'All node classes and exported functions of mdp and mdp.utils; user functions (noise_func, expansion functions) and set order are not followed.')
prop('N06', 'Saved objects are complete pickles and every written file is closed in time',
     'Node.save and Flow.save write exactly one pickle of the object itself with the requested protocol, any protocol included, to the named file, or return the pickle for filename None; copy returns a deep '
     'copy; neither changes the object. A checkpoint saves its node to its file, after finishing the training when asked to, and an earlier file is not touched when that fails. '
     'Every file the toolkit opens (saves, crash dumps, histories, snapshots, pages) is opened in the mode its contents need, is not used after it was closed, and is closed when the operation returns, '
     'for saved objects also when it fails.',
     ['inputs', 'fault_sequences'], 'every protocol, filename and option, and a failure of any file operation or of the pickling',
     'tests save with one protocol and never fail to write; an open file, a wrong mode or an overwritten checkpoint shows in rare options and after failures',
     ['mdp/signal_node.py', 'mdp/linear_flows.py', 'mdp/nodes/misc_nodes.py', 'mdp/hinet/htmlvisitor.py', 'mdp/utils/slideshow.py', 'bimdp/inspection', 'bimdp/hinet'],
     [('save and copy', 'mdp/signal_node.py Node.save/copy; mdp/linear_flows.py Flow.save/copy; mdp/nodes/misc_nodes.py NoiseNode.save'),
      ('checkpoints and crash dumps', 'mdp/linear_flows.py CheckpointSaveFunction, CrashRecoveryException.dump'),
      ('histories, snapshots and pages', 'mdp/nodes/misc_nodes.py HistogramNode; bimdp/inspection/utils.py, facade.py, tracer.py; mdp/utils/slideshow.py; mdp/hinet/htmlvisitor.py')],
     None, ['files written', 'returned pickle', 'open files'])
check('N06', 'typestate of file handles on all paths and value flow of save, copy and checkpoint operations',
      'Every function that opens a file or gets an open one from another function; each file operation and other call may fail; loops at most once. Modes and contents are compared where constants determine them.')

prop('N08', 'Every option a constructor or an operation accepts reaches the code it controls',
     'A value given for a parameter of a constructor, method or function has an effect: it is stored where other code reads it, computed with, or handed on to a callee that uses it. '
     'A class that accepts a parameter of its base class hands it to the base class, each one under its own name, also when the next class of a multiple inheritance has another signature. '
     'Only parameters documented as ignored (kept for a common interface or for compatibility) are exempt.',
     ['inputs', 'configurations'], 'every parameter of every constructor, method and function and every value of it',
     'tests use the default of most options; an option that is dropped on the way still gives a working object',
     ['mdp', 'bimdp'],
     [('constructors', 'every __init__ in mdp/nodes, mdp/hinet, mdp/parallel, bimdp'), ('options of operations', 'train, stop_training, execute, inverse and helper functions'),
      ('handing on', 'super().__init__ and other calls of the base version; mdp/nodes/ica_nodes.py TDSEPNode; bimdp/parallel/parallelbiflow.py train')],
     None, ['effects of the options'])
check('N08', 'interprocedural def-use analysis of every parameter and binding of the arguments of base calls',
      'All functions of mdp and bimdp; flow-insensitive inside a function; calls that leave the library count as a use; that the effect is the documented one is not decided.')

# ------------------------------------------------- beyond static analysis
prop('X01', 'Learned projections are optimal and inverses reconstruct the data',
     'After training, PCA/FDA/SFA/ICA/CCIPCA and related nodes give the projection that optimises their documented criterion on the training data (variance, separation, slowness, independence), '
     'with the documented normalisation and order. The inverse of an invertible node reconstructs its input as far as the retained dimensions allow.',
     ['inputs'], 'every training set and option', 'tests use a few random data sets', ['mdp/nodes'],
     [('eigenproblems', 'mdp/utils/symeig_subst.py, mdp/nodes/pca_nodes.py, sfa_nodes.py, fda_nodes.py, ica_nodes.py')], None, ['results of execute and inverse'])
na('X01', 'floating point optimality and reconstruction error depend on run-time data; no sound static bound is in reach of dataflow, typestate or resolution analyses')
prop('X02', 'Training results do not depend on how the data are cut into chunks',
     'For batch nodes whose documentation promises it, training on one array and on any partition of it into chunks gives the same trained node up to rounding.',
     ['inputs', 'schedules'], 'every data set and every partition', 'tests use a few partitions', ['mdp/nodes', 'mdp/utils/covariance.py'],
     [('accumulation', 'mdp/utils/covariance.py, mdp/nodes/*._train')], None, ['trained parameters'])
na('X02', 'equality up to rounding of sums over arbitrary partitions is a statement about floating point values; the symbolic part that is decidable (fork and join give the same terms) is claimed as P01')
