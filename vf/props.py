"""The property list: `python3 -m vf.props' writes properties.jsonl and MANIFEST.json from it."""
import json, os
from . import checks

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=["public API of the library, called by the driver's own blocks and threads"], hook_needed=None),
                  _tech=tech, _note=note))


FW = "lib/Framework/"
CTRL = ("The driver links the repository's own objects, compiled with -fsanitize=thread instrumentation, against a controlled scheduler that "
        "serialises all threads, picks every context switch from the seed and runs a virtual clock. ")

prop("P01", "Stream data arrives exactly once, in order and unaltered",
     "Every byte an output produces (by filling the offered buffer, posting its own buffers or forwarding a received one) is delivered exactly once, in production order and unaltered, "
     "to every input connected to it, whatever buffer management, element size, thread pool, back-pressure and multiplicity of connections is in use. "
     "Inputs fed by several outputs receive each source's data in that source's order, chunk by chunk; connections made or removed while running carry an ordered selection without repeats. "
     "What a block holds a reference to stays unaltered, counters of consumed and produced elements match what was consumed and produced.",
     ["schedules", "inputs", "configurations", "histories"],
     "every graph of blocks, every way its blocks may consume and produce, every interleaving of the worker threads and of live topology changes",
     "the tests run a few fixed graphs with fixed data under whatever schedule the machine gives; data races, buffer wrap-around corner cases and partial consumption are sampled once",
     [FW + "WorkerActor.cpp", FW + "InputPort.cpp", FW + "OutputPort.cpp", FW + "BufferAccumulator.cpp", FW + "BufferManager.cpp", FW + "Builtin/", "include/Pothos/Framework/InputPortImpl.hpp", "include/Pothos/Framework/OutputPortImpl.hpp"],
     [("post-work consume/produce and delivery to subscribers", FW + "WorkerActor.cpp"), ("input accumulation and contiguity", FW + "BufferAccumulator.cpp"), ("buffer recycling", FW + "ManagedBuffer.cpp")],
     "TLA+ spec of stream ports (Streams.tla), TLC exhaustive on a small graph; traces of the real runtime validated by TLC",
     CTRL + "Random graphs with random port usage; each work call's view and decisions are logged and TLC decides whether the specification admits the history. Bounded by the sampled seeds.")

prop("P02", "Labels stay attached to the element they were posted on",
     "A label posted on an element of an output stream is shown to every connected input exactly on that element (indices and widths rescaled when element sizes differ), in order, at every work call in which the element is visible, "
     "until the element is consumed or the label is removed. "
     "Labels of consumed elements are handed to label propagation exactly once, before anything produced by that work call becomes visible downstream; by default they are forwarded to every output at the same relative position.",
     ["schedules", "inputs", "configurations", "histories"],
     "every label placement, consumption pattern, element size, buffer splitting and interleaving",
     "tests place a handful of labels in one buffer with one consumption pattern",
     [FW + "WorkerActor.cpp", FW + "InputPort.cpp", FW + "OutputPort.cpp", FW + "Label.cpp", FW + "Block.cpp"],
     [("label accounting per work call", FW + "WorkerActor.cpp"), ("default propagation", FW + "Block.cpp"), ("width/index scaling", FW + "Label.cpp")],
     "TLA+ spec of labels on streams (Streams.tla), TLC exhaustive on a small graph; traces of the real runtime validated by TLC",
     CTRL + "As P01 with labels posted, removed and propagated at random.")

prop("P03", "Messages arrive exactly once, in order, under back-pressure",
     "Every message posted on an output port is received exactly once by every input connected to it, in the order one poster posted them, with the value that was posted; peeking does not remove. "
     "A block whose output has too many of its messages outstanding is not asked to work until receivers take them, and is asked again when they do. "
     "Connections made or removed while running deliver an ordered selection. Message counters match what was posted and popped.",
     ["schedules", "inputs", "configurations", "histories"],
     "every graph, every pattern of posting, peeking and popping, every interleaving of workers and live topology changes",
     "tests post a few messages through one edge; the token counting and queue overflow behaviour only shows with many messages and slow receivers",
     [FW + "WorkerActor.cpp", FW + "InputPort.cpp", FW + "OutputPort.cpp", FW + "WorkerActorPortAllocation.cpp"],
     [("message queues of an input", FW + "InputPort.cpp"), ("tokens", FW + "OutputPort.cpp")],
     "TLA+ spec of message queues and tokens (Messages.tla), TLC exhaustive on a small graph; traces of the real runtime validated by TLC",
     CTRL + "Random graphs posting up to 50 messages per block. Bounded by the sampled seeds.")

prop("P04", "Signals, slots, probes and calls",
     "Every emission of a signal calls every connected slot exactly once, with the emitted arguments, in emission order, in the receiving block's own context; a signal connected to an ordinary input arrives there as a message with the arguments. "
     "A probe trigger calls the probed method once with the trigger's arguments and emits its result once. "
     "A call on a block from any thread runs the method once and returns its result to that caller.",
     ["schedules", "inputs", "configurations", "histories"],
     "every graph of signals, slots and probes, every interleaving of emitters, workers, external callers and live topology changes",
     "tests emit one signal through one connection",
     [FW + "WorkerActor.cpp", FW + "Block.cpp", FW + "BlockRegistry.cpp", FW + "InputPort.cpp", FW + "OutputPort.cpp"],
     [("slot dispatch and probes", FW + "WorkerActor.cpp"), ("signal emission", FW + "Block.cpp")],
     "TLA+ spec of signal and slot queues (Messages.tla), TLC exhaustive on a small graph; traces of the real runtime validated by TLC",
     CTRL + "Random signal/slot graphs including cycles (within the back-pressure limit). Bounded by the sampled seeds.")

prop("P05", "Buffers are never handed out while someone still uses them, and always come back",
     "A buffer manager (generic or circular) never offers memory that overlaps what a live reference still covers; copies, moves, assignments (also to itself) and cuts of a reference keep it alive exactly as long as one of them exists, in whichever threads they are dropped; "
     "once every reference into a buffer is gone the manager can hand the whole of it out again, exactly once, in its fixed order. The two mappings of circular memory show the same bytes, so a chunk that wraps is contiguous. Chunks may outlive their manager.",
     ["schedules", "inputs", "histories"],
     "every sequence and interleaving of taking, copying, cutting and dropping references, for every buffer count and size",
     "tests take and return a few buffers from one thread; premature reuse or a lost buffer needs a specific history",
     [FW + "BufferManager.cpp", FW + "ManagedBuffer.cpp", FW + "SharedBuffer.cpp", FW + "SharedBufferUnix.cpp", FW + "BufferChunk.cpp", FW + "Builtin/GenericBufferManager.cpp", FW + "Builtin/CircularBufferManager.cpp", "include/Pothos/Framework/BufferChunk.hpp", "include/Pothos/Framework/ManagedBuffer.hpp"],
     [("reference counts and return of a buffer", FW + "ManagedBuffer.cpp"), ("front/pop", FW + "Builtin/GenericBufferManager.cpp"), ("front/pop around the ring", FW + "Builtin/CircularBufferManager.cpp")],
     "TLA+ spec of buffer managers and references (Buffers.tla), TLC exhaustive for small managers; histories of the real classes validated by TLC",
     CTRL + "Managers of 1-4 buffers, histories of up to 160 operations, with references dropped by two other threads. Bounded by the sampled seeds.")

prop("P06", "A buffer accumulator is one byte stream",
     "Whatever chunks are pushed into an accumulator (adjacent, overlapping in memory, from different buffers, from pools that wrap), what its front shows is always a non-empty beginning of the bytes pushed and not yet popped, in order and unaltered; "
     "after require(n), with n bytes available, the front shows at least n contiguous bytes; the count of bytes available is exact, and the accumulator keeps what it shows alive and lets go of what was popped.",
     ["inputs", "histories"],
     "every sequence of pushes, requirements and pops of every size",
     "tests push a few chunks of fixed sizes; the merging and copying paths depend on exact addresses and sizes",
     [FW + "BufferAccumulator.cpp", FW + "BufferChunk.cpp", "include/Pothos/Framework/BufferAccumulator.hpp"],
     [("merge of adjacent chunks, copy into the contiguous pool", FW + "BufferAccumulator.cpp")],
     "TLA+ spec of the accumulator as a byte sequence (Buffers.tla), TLC exhaustive for small streams; histories of the real class validated by TLC",
     CTRL + "Two accumulators fed by managed, shared and own memory; histories of up to 160 operations. Bounded by the sampled seeds.")

prop("P07", "A block's code runs in one thread at a time",
     "activate, deactivate, prepare, work, propagateLabels, slots, buffer manager callbacks and registered calls of one block never run concurrently with each other, whichever worker threads, external callers and topology commits are active; "
     "everything that was delivered to the block before it is given a turn is visible in that turn.",
     ["schedules", "configurations"],
     "every interleaving of workers, external callers, commits, thread pool choices",
     "overlap of two threads inside one block needs a specific interleaving; tests do not detect overlap",
     [FW + "ActorInterface.hpp", FW + "WorkerActor.cpp", FW + "ThreadEnvironment.cpp", FW + "Block.cpp"],
     [("acquire/release protocol", FW + "ActorInterface.hpp"), ("one thread per task", FW + "ThreadEnvironment.cpp")],
     "TLA+ specs of the execution context (Actor.tla) and of the acquire protocol (ActorLock.tla, safety and liveness by TLC); traces of user code entered and left validated by TLC",
     CTRL + "The lock protocol model is exhaustive for 2 callers and 1-2 producers; the code is sampled by seeds.")

prop("P08", "Deliverable work is always done; an idle topology has nothing left to do",
     "Whenever a block can work (enough input elements to meet the reserve or a message or slot call pending, and output space), it is eventually given a turn, with every thread pool size and yield mode and after live changes; "
     "waitInactive only reports inactivity when nothing deliverable is left, and then everything that blocks were willing to consume has been consumed.",
     ["schedules", "configurations", "histories"],
     "every schedule, thread pool configuration, buffer configuration and graph",
     "a lost wake-up or a stalled buffer pool depends on timing and on exact buffer fill levels",
     [FW + "ActorInterface.hpp", FW + "ThreadEnvironment.cpp", FW + "WorkerActor.cpp", FW + "OutputPort.cpp", FW + "BufferAccumulator.cpp", FW + "Topology.cpp"],
     [("change flag and wake-up", FW + "ActorInterface.hpp"), ("idle detection", FW + "Topology.cpp")],
     "TLA+ liveness of the acquire protocol (ActorLock.tla) by TLC; quiescence condition of Streams.tla and Messages.tla checked on traces of the real runtime",
     CTRL + "Liveness is decided in the code as quiescence: every run must become idle within a virtual time limit with nothing deliverable left.")

prop("P09", "Thread pools run exactly their blocks, always, within their limits",
     "Every block runs in threads of the thread pool it was given, or of the topology's pool, and of no other once setThreadPool has returned; every block of a pool keeps getting turns whatever the number of threads, yield mode, and other blocks joining and leaving; "
     "a pool never uses more threads than asked for (or than it has blocks); when a pool and its users are gone its threads end.",
     ["schedules", "configurations", "histories"],
     "every pool configuration, every assignment and reassignment of blocks while running, every interleaving",
     "tests create a few pools and look at no thread identity; starvation and lost tasks depend on timing",
     [FW + "ThreadEnvironment.cpp", FW + "ThreadPool.cpp", FW + "Block.cpp", FW + "Topology.cpp"],
     [("task registration and handle rotation", FW + "ThreadEnvironment.cpp")],
     "TLA+ specs of pools as seen by the user (Pools.tla) and of the task list protocol (ThreadEnv.tla, by TLC); traces of the real runtime validated by TLC",
     CTRL + "Affinity and priorities are set but their effect in the operating system is not observed. Bounded by the sampled seeds.")

prop("P11", "Block life cycle follows the committed topology",
     "After commit() returns, exactly the blocks taking part in a committed connection are active: each was activated exactly once, before any of its prepare, work or slots ran, and is deactivated exactly once when it leaves the graph or the topology is destroyed; "
     "nothing but calls runs in an inactive block, nothing at all in a destroyed one, and isActive() tells the state. A block whose activation failed stays inactive and commit() reports it.",
     ["schedules", "histories", "faults"],
     "every sequence of connects, disconnects and commits, including failing activations, with workers and callers running",
     "tests build one graph, run it and drop it",
     [FW + "WorkerActor.cpp", FW + "TopologyCommit.cpp", FW + "Topology.cpp", FW + "Block.cpp"],
     [("activation state", FW + "WorkerActor.cpp"), ("diff of old and new flows", FW + "TopologyCommit.cpp")],
     "TLA+ spec of the block life cycle (Actor.tla), TLC exhaustive for two blocks; traces of the real runtime validated by TLC",
     CTRL + "Bounded by the sampled seeds.")

prop("P23", "Exceptions thrown by user code are contained and reported",
     "An exception thrown by work(), propagateLabels() or a slot does not stop, wedge or corrupt the block or its neighbours: what was consumed, produced and posted before the throw counts, everything else continues. "
     "An exception thrown by a called method reaches exactly its caller with its message; one thrown by activate() or deactivate() makes commit() throw naming the error, and leaves the rest of the topology running.",
     ["schedules", "faults", "histories"],
     "an exception at any user callback, in any schedule",
     "tests throw in one place once",
     [FW + "WorkerActor.cpp", FW + "Block.cpp", FW + "TopologyCommit.cpp", FW + "BlockRegistry.cpp", "lib/Proxy/"],
     [("catch around work and slots", FW + "WorkerActor.cpp"), ("commit error collection", FW + "TopologyCommit.cpp")],
     "the specifications Streams, Messages and Actor with throwing user code; traces of the real runtime validated by TLC",
     CTRL + "Exceptions from prepare() are not covered: the runtime documents no handling for them.")

prop("P10", "The committed graph is exactly what was described, however it is nested",
     "After commit() returns without error, data posted at a block's output reaches exactly those block inputs that the described connections lead to, once each: directly, through the ports of nested topologies to any depth, through pass-through connections, "
     "and with the same block or topology appearing in several connections. Later changes anywhere in the hierarchy take effect at the next commit, and nothing else changes; a commit that is refused because the description is contradictory changes no connection.",
     ["inputs", "histories", "configurations"],
     "every hierarchy of topologies, every sequence of connects, disconnects and commits on any of them",
     "tests commit a few hand-made hierarchies; flattening and diffing of connections depends on the whole shape and on the history",
     [FW + "Topology.cpp", FW + "TopologyCommit.cpp", FW + "TopologySquashFlows.cpp", FW + "TopologyDomainFlows.cpp", FW + "TopologyImpl.hpp"],
     [("flattening of nested flows", FW + "TopologySquashFlows.cpp"), ("difference of old and new flows, pass-through", FW + "TopologyCommit.cpp")],
     "TLA+ spec of described and committed connections (Topo.tla), TLC exhaustive for small hierarchies; histories of the real classes validated by TLC",
     CTRL + "Random hierarchies of up to three topologies; after every commit a probe message is posted at every output and the set of receivers is compared with the specification's flattening. Bounded by the sampled seeds.")

prop("P12", "Connecting and disconnecting is atomic, and the views of a topology are truthful",
     "connect() and disconnect() either take effect or throw and change nothing: neither the description, nor port lists of blocks and topologies, nor what runs. Exactly the connections made and not unmade are described; ports of a topology exist as long as a connection uses them; "
     "the same connection cannot exist twice. Dumps of the topology (described, rendered, flattened) and its statistics show exactly the connections and blocks there are. A block is kept alive exactly as long as a described or committed connection uses it.",
     ["inputs", "histories", "faults"],
     "every sequence of valid and invalid connects, disconnects, disconnectAll and commits",
     "tests check a few error messages and never look at the state left behind",
     [FW + "Topology.cpp", FW + "TopologyDumpJSON.cpp", FW + "TopologyStatsJSON.cpp", FW + "TopologyImpl.hpp", FW + "WorkerActorPortAllocation.cpp"],
     [("connect/disconnect", FW + "Topology.cpp"), ("automatic ports", FW + "WorkerActorPortAllocation.cpp"), ("dump", FW + "TopologyDumpJSON.cpp")],
     "TLA+ spec of described connections and port lists (Topo.tla), TLC exhaustive for small hierarchies; histories of the real classes validated by TLC",
     CTRL + "Random histories with a third of invalid requests. Bounded by the sampled seeds.")

prop("P13", "The plugin registry is an atomic tree of plugins that keeps its handlers informed",
     "add, remove, get, empty, exists, list and dump behave, from any number of threads, as if each took effect at one moment: adding to an occupied path and removing or getting from an empty one throw and change nothing, what was added is found until removed, lists are in the order of first addition. "
     "Every event handler above a plugin is told of its addition and removal once, the nearest first; a handler added later is told of what is already there; a handler that throws or calls back into the registry harms nobody. "
     "A path is valid exactly if it is a slash or slash-separated non-empty names of letters, digits, '_' and '-'; joins concatenate names.",
     ["schedules", "inputs", "histories"],
     "every interleaving of registry calls from several threads, every tree and handler placement",
     "tests add and remove a few plugins from one thread",
     ["lib/Plugin/Registry.cpp", "lib/Plugin/Path.cpp", "lib/Plugin/Plugin.cpp", "include/Pothos/Plugin/Registry.hpp"],
     [("tree under a reader/writer lock", "lib/Plugin/Registry.cpp"), ("event handlers", "lib/Plugin/Registry.cpp")],
     "TLA+ spec of the registry (Registry.tla) with explicit linearization points, TLC exhaustive for two threads; histories of the real registry validated by TLC",
     CTRL + "Up to three threads. Loading and unloading of shared libraries is not driven. Bounded by the sampled seeds.")

prop("P19", "Ring deque and ordered queue keep every element, in order",
     "A RingDeque shows exactly the elements pushed and not popped, in deque order, through any sequence of pushes and pops at both ends, growth and shrinking of the capacity, clear, copies and moves (also to itself); every element is destroyed exactly once, and none is used after that. "
     "An OrderedQueue releases elements in index order whatever order they are returned in, each exactly once.",
     ["inputs", "histories"],
     "every sequence of operations, every capacity and wrap position",
     "tests walk one or two sequences; wrap-around, growth at a wrapped position and moved-from states need specific histories",
     ["include/Pothos/Util/RingDeque.hpp", "include/Pothos/Util/OrderedQueue.hpp"],
     [("ring indexes", "include/Pothos/Util/RingDeque.hpp"), ("order of release", "include/Pothos/Util/OrderedQueue.hpp")],
     "TLA+ spec of the containers as sequences (Queues.tla), TLC exhaustive for small capacities; histories of the real templates validated by TLC",
     "Elements detect use before construction, after destruction and double destruction. Bounded by the sampled seeds.")

prop("P20", "Spin locks exclude what they must, admit what they may, and never lose a release",
     "At most one thread holds a SpinLock; a SpinLockRW is held by one writer or by any number of readers. A try succeeds only when allowed, and does succeed when nobody is in the way; a lock request is granted once the holders release, whatever tries and requests happened in between.",
     ["schedules"],
     "every interleaving of lock, try and release by several threads",
     "tests lock and unlock without contention",
     ["include/Pothos/Util/SpinLock.hpp", "include/Pothos/Util/SpinLockRW.hpp"],
     [("atomic word", "include/Pothos/Util/SpinLockRW.hpp")],
     "TLA+ spec of the lock word protocol (SpinLocks.tla, safety and liveness by TLC); traces of holders of the real locks validated by TLC",
     CTRL + "Two to four threads of six operations each; every atomic access is a scheduling point. Weak memory effects are not explored.")

prop("P14", "An Object owns its value: shared while referred to, destroyed exactly once",
     "Copies of an Object share one value and moves hand it over, leaving the source null; assignment (also to itself, and from inside the value being replaced) makes the target refer to the assigned value. "
     "A value lives as long as some Object refers to it and is destroyed exactly once, when the last reference is gone, in whichever threads the references are dropped. "
     "unique() is true exactly when there is one reference, ref() gives writable access only then and only to the exact type, extract() gives the value itself and throws for any other type or a null Object.",
     ["schedules", "inputs", "histories"],
     "every sequence and interleaving of making, copying, moving, assigning, containing and dropping Objects",
     "tests copy and extract a few Objects in one thread; a lost or doubled reference shows only at the end of a specific history",
     ["lib/Object/Object.cpp", "include/Pothos/Object/Object.hpp", "include/Pothos/Object/ObjectImpl.hpp"],
     [("reference count of ObjectContainer", "lib/Object/Object.cpp")],
     "TLA+ spec of shared values (Objects.tla), TLC exhaustive for two threads and three values; histories of the real class validated by TLC",
     CTRL + "Values log their own destruction. One to three threads, histories of up to 60 operations. Bounded by the sampled seeds.")

prop("P24", "Conversions, comparisons and texts of values are faithful or refused",
     "Converting a number Object (or a vector, list or set of them) to another number type gives the same number, truncated toward zero for integers, or throws a range error when the type cannot hold it (also when an imaginary part would be lost, or it is not a number); never another number. "
     "Comparisons of numbers agree with the order of the numbers whatever their types, strings compare like strings, equal strings hash equally; objects that have no conversion or comparison are refused with an error. "
     "toString of an integer is its decimal text. Converters registered as plugins are used, directly if there is a direct one and else through one type in between, exactly while they are registered, and canConvert() says whether convert() will find one.",
     ["inputs", "histories"],
     "every value of every number type and every target type, every history of registering and removing converters",
     "tests convert a few values per type; the boundaries of each pair of types are where it breaks",
     ["lib/Object/Builtin/", "lib/Object/Convert.cpp", "lib/Object/Compare.cpp", "lib/Object/Hash.cpp", "lib/Object/ToString.cpp", "include/Pothos/Object/"],
     [("range check", "lib/Object/Builtin/ConvertCommonImpl.hpp"), ("converter lookup", "lib/Object/Convert.cpp"), ("numeric compare", "lib/Object/Compare.cpp")],
     "TLA+ spec of numbers as decimal sequences, ranges, order and converter paths (Values.tla), its laws checked by TLC; calls of the real library validated by TLC",
     "Values are drawn around every type's limits and at random; 15 number types. Claimed for numbers a double represents exactly where the library compares through double; "
     "infinities and vector conversions that need SIMD dispatch are not covered. Bounded by the sampled seeds.")

prop("P15", "A callable calls its function once, with the bound values and the arguments in their places",
     "However a callable was built (function, method, function object, constructor), copied, bound and unbound, calling it enters its function exactly once, with each bound value in the position it was bound to and the arguments of the call, in order, in the others, "
     "each converted to the type of its parameter, and gives back the result or the exception of that function. Too few arguments, or a value that does not convert, is an argument error and the function is not entered; calling a null callable is an error. "
     "The reported number and types of the arguments are those still open. Binding on one callable never shows in another that it was copied from or to. Nothing passed or returned is leaked or used after its end.",
     ["inputs", "histories"],
     "every order of binding, unbinding, copying and calling, every mix of argument types",
     "tests bind and call a handful of functions",
     ["lib/Callable/", "include/Pothos/Callable/", "lib/Object/"],
     [("bound arguments", "lib/Callable/Callable.cpp"), ("argument conversion", "include/Pothos/Callable/CallableImpl.hpp")],
     "TLA+ spec of callables (Calls.tla), all histories checked by TLC; histories of the real callables validated by TLC",
     "Up to five parameters, eighteen signatures, positions to six. Bounded by the sampled seeds.")

prop("P16", "A call on a managed class runs the last registered function that takes its arguments",
     "A method, static method or constructor called through a proxy runs the function last registered under that name whose parameters take the arguments (same number, each one converting), once, on that object and with those values; failing that the opaque one of that name, "
     "failing that the one for any name. Where the class has none, or only one for any name, its base classes are asked first, in order, and see the part of the object that is theirs. When nothing takes the arguments the caller gets an error and nothing runs; an exception of the function reaches the caller with its message. "
     "Objects made by value, by pointer and shared act alike, and a deleted one is destroyed exactly once. Fields read back what was written. Registering a class is all or nothing: it, and the conversions its one-argument constructors bring, are there from a commit that succeeds to the unload, and lookups tell so.",
     ["inputs", "histories"],
     "every set of overloads, bases and registrations, every mix of argument types",
     "tests call one class with a few fixed overloads",
     ["lib/Managed/", "include/Pothos/Managed/", "lib/Proxy/", "lib/Object/Convert.cpp"],
     [("overload resolution", "lib/Managed/Builtin/ManagedHandle.cpp"), ("registration", "lib/Managed/Class.cpp"), ("lookup by type", "lib/Managed/Registry.cpp")],
     "TLA+ spec of managed classes (Managed.tla), every registration of three classes checked by TLC; histories of the real registry and proxies validated by TLC",
     "Four classes with two levels of bases and multiple inheritance; eighteen signatures. Calls on a class whose base class is not registered are not claimed. Bounded by the sampled seeds.")

prop("P21", "A data type means what its name says, and its text gives it back",
     "Every recognized name of a data type, in any case and with any dimension, and every native C++ type, gives the element type it names: its canonical name, size of an element and of the whole, and whether it is integer, floating point, signed, complex, custom or nothing. "
     "Names that are not recognized are an error. The markup text of a type, and its archive, give the same type again; two types are equal exactly when element type and dimension are.",
     ["inputs"],
     "every name, spelling, dimension and pair of types",
     "tests try a few names",
     ["lib/Framework/DType.cpp", "include/Pothos/Framework/DType.hpp"],
     [("names", "lib/Framework/DType.cpp"), ("equality", "include/Pothos/Framework/DType.hpp")],
     "TLA+ table of names and their meaning (DTypes.tla), checked for round trip and uniqueness over all names by TLC; histories of the real class validated by TLC",
     "Malformed dimensions are not claimed. Bounded by the sampled seeds.")

prop("P22", "A topology described in JSON is built as described, or not at all",
     "Making a topology from JSON constructs each described block once, in order, with its arguments, makes the calls listed for it, in order, with theirs, and connects exactly what is listed, the topology's own ports included: messages sent from any block arrive exactly where the description says. "
     "Arguments are evaluated with the global variables and the variables of that block, each defined from those before it and nearer ones hiding others; a string that is not an expression stands for itself. "
     "A description with an error anywhere (bad text, missing fields, unknown block types, calls, ids or thread pools, wrong arguments) throws, and no block is left. The description that a topology gives of itself names exactly its blocks and connections.",
     ["inputs", "histories"],
     "every description: blocks, variables, arguments, calls, connections, and every place for an error",
     "tests build two fixed topologies",
     ["lib/Framework/TopologyMakeJSON.cpp", "lib/Framework/TopologyDumpJSON.cpp", "lib/Framework/BlockRegistry.cpp", "lib/Framework/Topology.cpp", "lib/Framework/TopologySquashFlows.cpp", "lib/Util/EvalEnvironment.cpp"],
     [("construction", "lib/Framework/TopologyMakeJSON.cpp"), ("description given", "lib/Framework/TopologyDumpJSON.cpp"), ("factories", "lib/Framework/BlockRegistry.cpp")],
     "TLA+ spec of what a description means, step by step (MakeTopo.tla on Eval.tla), all small descriptions checked by TLC; constructions by the real library and the deliveries in what was built validated by TLC",
     "Up to four blocks of three types, one level of nesting. Thread pools are only checked to be known. The flat description is not claimed where one sub-topology passes straight through into another. Bounded by the sampled seeds.")

prop("P25", "An expression has the value it denotes, whatever it is nested in",
     "Evaluating an expression of numbers, truth values, strings, lists, maps, operators and named constants gives its mathematical value, however it is nested, spaced and quoted: brackets, commas, quotes and backslashes inside strings are text; constants have the value last registered for them until they are removed, whether given as an expression or an object. "
     "Text that is not an expression (unbalanced, unknown names, wrong types) throws; it never gives a value, changes constants or crashes.",
     ["inputs", "histories"],
     "every expression, nesting and text",
     "tests evaluate some twenty fixed expressions",
     ["lib/Util/EvalEnvironment.cpp", "lib/Util/EvalEnvironmentListParsers.cpp", "include/Pothos/Util/EvalEnvironment.hpp", "lib/Util/Builtin/MupOctalValReader.cpp"],
     [("containers and constants", "lib/Util/EvalEnvironment.cpp"), ("splitting", "lib/Util/EvalEnvironmentListParsers.cpp")],
     "TLA+ semantics of expressions (Eval.tla); TLC shows that evaluating the lists first, under temporary names in one shared table, gives that value for every small expression (MCEval); evaluations by the real library validated by TLC",
     "Integer values to 1e8; the arithmetic itself is done by muparserx, which is not part of the repository. Bounded by the sampled seeds.")

prop("P18", "What is serialized comes back the same, and damaged archives are refused",
     "Every serializable value (all number types at all magnitudes, strings with any bytes, vectors, sets, maps, nested Objects, data types, buffers, labels, packets, proxies, user types and polymorphic pointers) is read back equal, "
     "consuming exactly the bytes that were written for it; the bytes are those of the documented portable format (version number, LEB128 integers, reproducible type hashes), so that any other process can read them. "
     "An archive that ends early or names an unknown type makes deserialization throw; it never gives a value, hangs or crashes. Saving a type without serialization throws.",
     ["inputs", "faults"],
     "every value, every nesting, every point at which an archive may be cut off",
     "tests write and read some random positive numbers and a few containers",
     ["lib/Archive/", "include/Pothos/Archive/", "lib/Object/Serialize.cpp", "lib/Object/Builtin/Serialize.cpp", "lib/Framework/BufferChunk.cpp", "lib/Framework/Label.cpp", "lib/Framework/Packet.cpp", "lib/Framework/DType.cpp", "lib/Proxy/Proxy.cpp"],
     [("number encodings", "include/Pothos/Archive/Numbers.hpp"), ("type registry", "lib/Archive/ArchiveEntry.cpp"), ("stream reading", "lib/Archive/StreamArchiver.cpp")],
     "TLA+ spec of the archive format as an encoder of value trees (Archive.tla), decodability proved by TLC for all numbers of a width; archives of the real library validated by TLC",
     "Random trees of depth up to three over all builtin types; cuts at random points. Archives that are altered rather than cut are not claimed to be detected. Bounded by the sampled seeds.")

prop("P17", "A remote proxy acts as the object it stands for, and a lost connection is an error, not a hang",
     "Every operation on a proxy whose object lives behind a connection (making values, finding classes, calling, comparing, hashing, converting, texts) is carried out exactly once, on the object the proxy stands for, with the values that were passed, "
     "and its result or error message reaches the thread that asked and no other, however many threads share the connection. Values travel by value and arrive unchanged; an operation that fails, or a value that cannot travel, harms that call only. "
     "The remote object lives as long as some proxy or other remote object refers to it and is destroyed once, after that. When the connection breaks, at any byte in either direction, every operation under way and every later one throws; none hangs, "
     "none reports a result it did not get, and the other connections go on.",
     ["schedules", "inputs", "faults", "histories"],
     "every sequence and interleaving of operations by several threads over several connections, and every point at which a connection may break",
     "tests make a few calls one after the other over a healthy local connection",
     ["lib/Remote/RemoteProxy.cpp", "lib/Remote/RemoteProxyHandle.cpp", "lib/Remote/RemoteProxyDatagram.cpp", "lib/Remote/ServerHandler.cpp", "lib/Remote/Client.cpp", "lib/Remote/Server.cpp", "include/Pothos/Remote/"],
     [("request and reply matching, shared by the threads of a client", "lib/Remote/RemoteProxy.cpp"), ("objects by id, dispatch of actions", "lib/Remote/ServerHandler.cpp"), ("datagram framing", "lib/Remote/RemoteProxyDatagram.cpp")],
     "TLA+ specs of remote objects (Remote.tla) and of the reply matching protocol (Transact.tla), TLC exhaustive for two threads; histories of the real client and handler validated by TLC",
     CTRL + "Client and handler run in one process over in-memory pipes that break at a chosen byte; up to three client threads, two connections. Sockets, spawning of server processes and DNS are not driven. Bounded by the sampled seeds.")

prop("P26", "Connections between memory domains fit, or go through a copier",
     "When a commit succeeds, a connection whose two ends accept each other's memory domain is direct, and any other goes through exactly one copier, which is shared by what has the same problem and stays the same as long as it is needed, so that commits lose nothing that is under way. "
     "Every item sent arrives once at each connected input, in order. An output writes into the buffers of a manager that it provides for its peers, or else of one that a connected input provides, whatever the order and time at which connections were made; ordinary memory is used only when nobody provides any, and no manager serves two outputs at once. "
     "A commit that cannot satisfy two inputs that insist on memory of their own is refused and changes nothing.",
     ["configurations", "histories", "schedules"],
     "every graph of ports in every combination of domains, buffer modes and edits of a running topology",
     "tests connect a few blocks in the default domain",
     [FW + "TopologyDomainFlows.cpp", FW + "TopologyCommit.cpp", FW + "WorkerActor.cpp", FW + "OutputPort.cpp"],
     [("copiers", FW + "TopologyDomainFlows.cpp"), ("choice of buffer managers", FW + "TopologyCommit.cpp")],
     "TLA+ spec of domains, copiers and managers (Domains.tla), TLC exhaustive for all graphs of 2x2 ports; histories of the real runtime validated by TLC",
     CTRL + "The copier block is not part of this repository: the driver registers one. Blocks that refuse ordinary memory are not driven: no copier can help them. Bounded by the sampled seeds.")

prop("P27", "A topology spans processes as if they were one",
     "When a commit succeeds, blocks of the same process are connected directly, and what an output sends to another process goes through exactly one pair of network blocks: the sending one in the process of the output, the receiving one in the process of the inputs, however many inputs there are. "
     "One of the two binds, at a machine that the other can find (not at the local one when the other is elsewhere), and the other connects to the address and port where it listens. "
     "A pair is kept from commit to commit as long as its output has something connected in that process, so flows that stay lose nothing, and is released afterwards. Every item sent arrives once at each connected input, in order, also through hierarchies in any process. "
     "A commit that cannot make its network blocks is refused and changes nothing; a later one can succeed. Everything in other processes is released with the topology.",
     ["configurations", "histories", "schedules"],
     "every placement of blocks in processes and every history of edits, commits and failures",
     "tests connect blocks of one process",
     [FW + "TopologyNetworkFlows.cpp", FW + "TopologyCommit.cpp", FW + "TopologySquashFlows.cpp", "lib/Remote/RemoteProxy.cpp", "lib/Proxy/Environment.cpp"],
     [("network flows", FW + "TopologyNetworkFlows.cpp"), ("commit of the parts", FW + "TopologyCommit.cpp")],
     "TLA+ spec of placements and network pairs (Processes.tla), TLC exhaustive for small graphs with traffic; histories of the real runtime validated by TLC",
     CTRL + "Processes are emulated by threads with real remote handlers on in-memory pipes and an identity of their own; the network blocks are not part of this repository: the driver registers stand-ins. Real sockets are not driven. Bounded by the sampled seeds.")


def main():
    for p in P:
        for w in p["anchors"]["files"] + [x["where"] for x in p["anchors"]["mechanism"]]:
            assert os.path.exists(os.path.join("/repo", w)), (p["id"], w)
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    P.sort(key=lambda p: p["id"])
    m = dict(version=1, setup_cmd="python3 -m vf.build --all", checks=[], not_applicable=[])
    for p in P:
        i = p["id"]
        if i in checks.CHECKS:
            m["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                                    technique=p["_tech"], level="model_checking", level_note=p["_note"]))
        else:
            m["not_applicable"].append(dict(property=i, reason=p["_note"]))
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
