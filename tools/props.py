HEAP = R+"ringbufferheap.tcc"
p("P01", "A stream delivers exactly what was sent, in order",
  "For every element type, queue capacity and mix of send calls (push, insert, allocate+send, allocate_range+send_range, allocate_s) and receive calls (pop, pop_range, pop_s, peek+recycle, peek_range+recycle), the receiver obtains exactly the sequence of values the sender released: same values, same order, nothing lost, duplicated, invented or altered. This holds however often the queue wraps around, fills up or runs empty.",
  ["inputs", "histories"], "every element type (scalar, small class, large class/array), every capacity, every history of send and receive calls that does not block",
  "Repository tests send 0..N ascending integers through one or two calls; none mixes the calls, and none of the queue tests is among the ones that run here.",
  [HEAP, R+"ringbufferheap_lessabstract.tcc", R+"fifo.hpp", R+"autorelease.tcc", "src/pointer.cpp", R+"bufferdata.tcc"],
  [("ring store indexed by read/write pointer", HEAP), ("wrap counters", "src/pointer.cpp")],
  ["values returned by FIFO pop/peek/pop_range/peek_range"],
  [("read/write pointers", "next slot to read / write and wrap count", R+"pointer.hpp")])
p("P02", "A signal arrives with exactly the element it was sent with",
  "A signal passed to push, send or an allocate_s handle is received with exactly that element, whichever receive call (pop, pop_range, pop_s, peek, peek_range) is used; insert and send_range deliver theirs with the last element of the range, and every element sent without a signal is received with none.",
  ["inputs", "histories"], "every element type, every placement of system and user-defined signals in every history of send/receive calls",
  "Tests only look at one eof on the final element of a stream read with pop.",
  [HEAP, R+"ringbufferheap_lessabstract.tcc", R+"autorelease.tcc", R+"autoreleasebase.hpp", "src/signal.cpp", R+"bufferdata.tcc"],
  [("parallel signal ring", R+"database.tcc"), ("signal written before pointer increment", HEAP)],
  ["signal out-parameters and .sig accessors of receive calls"])
p("P03", "Queue occupancy is always reported exactly",
  "At every quiescent point size() is the number of elements released but not yet consumed, space_avail() is capacity() minus size(), and both stay within 0..capacity(). A queue of capacity n accepts exactly n elements without blocking when empty, whatever its position in the ring.",
  ["histories", "inputs"], "every capacity >= 1, every history of single and range operations, across any number of wraps",
  "No test inspects size or space_avail after a history; the full-versus-empty distinction at equal indices depends on wrap counts no test reaches on purpose.",
  [R+"ringbufferheap_abstract.tcc", "src/pointer.cpp", HEAP],
  [("wrap indicator comparison", R+"ringbufferheap_abstract.tcc"), ("incBy wrap rule", "src/pointer.cpp")],
  ["FIFO::size", "FIFO::space_avail", "FIFO::capacity"])
p("P04", "Peeking never consumes; recycle consumes exactly from the head",
  "peek and peek_range expose the current head elements in order, writable in place, without changing what is queued; after unpeek the same elements are still there, including any modification made through the reference. recycle(n) removes exactly the n oldest elements (all remaining ones when the stream is closed with fewer), and an out-of-range index into a peeked range is rejected with an exception.",
  ["histories", "inputs"], "every interleaving of peek, unpeek, peek_range, recycle with sends and pops, every window position relative to the ring end",
  "Tests peek one fixed pattern (five elements, recycle two) starting at index 0.",
  [HEAP, R+"autorelease.tcc", R+"fifo.hpp"],
  [("local_peek / local_peek_range", HEAP), ("modular index in the range handle", R+"autorelease.tcc")],
  ["references returned by peek/peek_range", "size() before and after"])
p("P05", "Allocated slots become visible only when sent; cancelling leaves no trace",
  "A slot obtained with allocate, allocate_range or allocate_s is not visible to the receiver until send, send_range or the end of the handle's scope, and then carries exactly what was written into it. Cancelling an allocation with deallocate leaves every queued element, their signals and the occupancy untouched, and send or send_range without an outstanding allocation does nothing.",
  ["histories", "inputs"], "every history mixing allocate/send/deallocate/allocate_s with other operations and any number of queued elements",
  "No test calls deallocate, or send without allocate.",
  [HEAP, R+"fifo.hpp", R+"autorelease.tcc"],
  [("allocate_called flag", R+"fifoabstract.tcc"), ("deallocate", HEAP)],
  ["receiver-side contents and size() after allocate / deallocate / stray send"])
p("P06", "A closed stream drains completely and then reports closed",
  "After the sender closes a stream, every element already released is still delivered in order; only once it is empty do pop, pop_s, pop_range and peek raise the closed-port exception, peek_range on fewer remaining elements than asked for raises the no-more-data exception, and recycle returns without effect. No receive call on a closed stream blocks, and closing never discards or alters queued elements.",
  ["histories", "inputs"], "every queue content at the moment of closing, every following history of receive calls",
  "The peekrange test ends one stream in one state; nothing closes a stream at other fill levels or tries each receive call.",
  [HEAP, R+"ringbufferheap_abstract.tcc", R+"portexception.hpp"],
  [("is_valid flag and re-check of size", HEAP)],
  ["exceptions thrown by receive calls after invalidate()"])
p("P07", "Every streamed object is constructed and destroyed exactly once",
  "For class-typed elements each object the queue constructs is destroyed exactly once when it is popped, recycled or its allocation is cancelled, no queued object is destroyed early, and memory the queue allocated for consumed elements is released. Values held by such objects (strings, vectors, owned pointers) are intact when received.",
  ["histories", "inputs"], "small and large class element types, every history of sends, receives, recycles and cancellations that ends with the queue empty",
  "Tests check one object through one pop; leaks, double destruction and destruction of the wrong slot need counting over whole histories.",
  [HEAP, R+"fifo.hpp", R+"bufferdata.tcc", "src/schedule.cpp"],
  [("placement new / explicit destructor calls", HEAP), ("deferred deletion of recycled external objects", "src/schedule.cpp")],
  ["construction/destruction ledger of instrumented element types", "allocator live bytes"])
p("P08", "Resizing a queue never changes the stream it carries",
  "Changing a queue's capacity while it holds data leaves the queued elements, their order, their signals, the closed state and the transfer statistics unchanged, and afterwards the queue has the requested capacity and behaves like any other queue of that size. A resize that cannot be done because the stream was closed or the application is finishing leaves the queue as it was.",
  ["histories", "inputs"], "every element type, every fill level and ring position that admits a resize, any number of resizes inside any history",
  "The only dynamic-allocation test streams one million integers and prints them; nothing checks content, signals or object state across a resize.",
  [R+"datamanager.tcc", R+"bufferdata.tcc", R+"ringbuffer.tcc"],
  [("copyFrom", R+"bufferdata.tcc"), ("resize handshake", R+"datamanager.tcc")],
  ["stream contents, signals, statistics and capacity after FIFO::resize"])
p("P09", "One sender, one receiver and a resizer may interleave in any way",
  "With one thread sending, one thread receiving and the allocator resizing the same queue, under every interleaving of their steps the receiver obtains exactly the sent sequence with its signals, references obtained from peek or allocate stay valid until released, what size() and space_avail() tell the sender or the receiver was true at some moment of the call, and every operation that can eventually proceed does complete.",
  ["schedules", "histories"], "every (sequentially consistent) interleaving at basic-block granularity of generated sender, receiver and resizer programs, every capacity and element type",
  "Operating-system scheduling on idle hardware explores a handful of interleavings; none of the queue tests runs here.",
  [R+"datamanager.tcc", HEAP, R+"ringbufferheap_abstract.tcc", R+"threadaccess.hpp"],
  [("per-side access flags versus resizing flag", R+"datamanager.tcc"), ("re-check of size after closed test", HEAP)],
  ["received sequence; progress of each thread under a fair schedule"])
p("P10", "Forwarding a peeked large object moves it, and it is freed exactly once",
  "When a kernel peeks a large (externally stored) object and pushes that same reference to an output, the downstream kernel receives the very same object without copying; objects recycled without being forwarded are freed after the kernel's firing, forwarded ones are not, and over a whole pipeline every object is freed exactly once.",
  ["histories", "schedules"], "every per-firing pattern of peek, push of the peeked reference, push of copies, recycle over several ports, pipelines of any length",
  "allocatePopExternal checks one pattern (always forward) and accepts copies.",
  [HEAP, "src/schedule.cpp", "src/simpleschedule.cpp"],
  [("peek set / out set / recycle map", "src/schedule.cpp")],
  ["object addresses and construction/destruction ledger"])
p("P11", "Transfer statistics count what was transferred",
  "Between two reads of the statistics, the write counter equals the number of elements the sender released and the read counter the number of elements popped; reading them through the zeroing accessors returns and resets them, a sender that had to wait is reported as blocked, and the fraction of blocked writes is blocked over count, zero when nothing was blocked or written.",
  ["histories"], "every history of operations with statistics reads at arbitrary points; every pair of statistics records being accumulated",
  "No test reads the statistics the dynamic allocator relies on.",
  [R+"blocked.hpp", "src/blocked.cpp", R+"ringbufferheap_abstract.tcc", HEAP],
  [("Blocked counters", R+"blocked.hpp")],
  ["get_zero_write_stats", "get_zero_read_stats", "get_frac_write_blocked"])
p("P12", "Topology expressions build exactly the graph they denote",
  "Adding an expression built from >>, <= , >=, named ports and the out-of-order marker to a map creates exactly the links the expression denotes: chains link each output to the next input in order, <= links every output port of the left kernel to its own copy of the right-hand chain, >= links every copy to its own input port of the joining kernel, named ports are honoured, and the returned source and destination sets are the first and last kernels of the expression. No other port of any kernel changes.",
  ["programs"], "every well-formed expression: chain lengths, fan-outs, nested split/join shapes, named and anonymous ports, several expressions added to one map",
  "Tests build about ten fixed shapes and check only that they run to completion.",
  ["src/map.cpp", "src/mapbase.cpp", "src/kpair.cpp", R+"kpair.hpp", R+"mapbase.hpp", "src/kernel_wrapper.cpp", "src/kernel.cpp", "src/kernel_pair_t.cpp"],
  [("inline_cont/inline_split/inline_join/inline_dup_join", "src/map.cpp"), ("kpair operators", "src/kpair.cpp")],
  ["other_kernel / other_name of every port", "getSrc/getDst"])
p("P13", "Ill-formed graphs are rejected with the documented exception",
  "Linking ports of different element types, a port that does not exist, a port already linked, or an unnamed port on a kernel with several raises the corresponding exception at the point of linking; executing a map with an unconnected port raises the unconnected-port exception before any kernel runs, and duplicate port names and unsupported clones are rejected too. Well-formed graphs are never rejected.",
  ["programs", "inputs"], "every way of making one or more faults in an otherwise valid generated graph",
  "Three tests each make one fixed mistake.",
  ["src/mapbase.cpp", R+"mapbase.hpp", "src/port.cpp", R+"port.hpp", "src/map.cpp", "src/kernel.cpp"],
  [("type_index comparison in join", "src/mapbase.cpp"), ("allConnected", "src/kernel.cpp")],
  ["exception type thrown by link / += / exe / addPort"])
p("P14", "A pipeline computes the same result as its sequential meaning",
  "For every well-formed acyclic graph of deterministic kernels, running the map delivers at every sink exactly the stream obtained by evaluating the kernels one after another on complete inputs, in order, whatever the buffer sizes, element types, port API calls, allocator, or thread interleaving.",
  ["programs", "schedules", "configurations"], "generated graphs (chains, trees, diamonds, multi-source), stream lengths from zero, queue sizes, allocators and schedules",
  "Tests run fixed graphs under whatever schedule the OS gives and mostly only check termination.",
  ["src/schedule.cpp", "src/simpleschedule.cpp", "src/map.cpp", R+"map.hpp", "src/allocate.cpp", "src/dynalloc.cpp", "src/stdalloc.cpp", HEAP],
  [("kernelRun firing loop", "src/schedule.cpp"), ("allocation of one FIFO per link", "src/allocate.cpp")],
  ["values recorded by sink kernels"])
p("P15", "Execution terminates, and each kernel is fired by the documented life cycle",
  "exe() returns once all sources have stopped and every stream has been drained, for every schedule and queue size. A source is fired until it returns stop and never afterwards; any other kernel is fired only while data may be available, is not retired before it has seen everything its producers sent, and its outputs are closed when it ends so that its consumers end too. A kernel handed to the running scheduler is run to its end as well before exe() returns.",
  ["schedules", "programs", "configurations"], "generated graphs, stream lengths (including zero and one), stop points, queue sizes and schedules",
  "A lost wake-up or early retirement shows only under a specific interleaving; tests observe one run.",
  ["src/schedule.cpp", "src/simpleschedule.cpp", R+"map.hpp", R+"dynalloc.hpp", "src/dynalloc.cpp"],
  [("re-check of data after closed test", "src/schedule.cpp"), ("invalidateOutputPorts", "src/schedule.cpp"), ("thread join loop", "src/simpleschedule.cpp")],
  ["return of map::exe", "call log of every kernel's run()"])
p("P16", "Splitting and joining streams conserves the multiset of elements",
  "A split kernel hands every input element to exactly one of its outputs and a join kernel forwards every element of every input exactly once, each keeping the relative order within any one input-output pair; every element keeps its signal, and a split followed by replicas and a join therefore yields exactly the mapped multiset of the input.",
  ["inputs", "schedules", "configurations"], "stream lengths, numbers of branches, queue sizes, uneven consumer speeds, schedules",
  "The split and join tests print and never compare what came out.",
  [R+"split.tcc", R+"join.tcc", R+"splitmethod.hpp", R+"roundrobin.hpp", "src/roundrobin.cpp", R+"leastusedfirst.hpp", "src/leastusedfirst.cpp"],
  [("split::run / join::run", R+"split.tcc"), ("select_fifo", "src/roundrobin.cpp")],
  ["per-branch and joined output sequences"])
p("P17", "The map owns exactly the kernels it made",
  "Kernels created with kernel::make or cloned by the map are destroyed exactly once, when the map is destroyed and not before; kernels owned by the caller are never deleted by the map and remain usable after it is gone. This holds for graphs that were executed, rejected, or never run.",
  ["programs", "histories"], "every mix of stack-owned, made and cloned kernels in generated graphs, run or not run",
  "No test counts kernel destructions.",
  ["src/mapbase.cpp", R+"mapbase.hpp", R+"kernel.hpp", "src/kernel.cpp", R+"kernelkeeper.tcc", "src/kernel_wrapper.cpp"],
  [("internal_alloc flag and internally_created_kernels", R+"mapbase.hpp")],
  ["construction/destruction ledger of instrumented kernels"])
p("P18", "A kernel fires only when its scheduling rule allows",
  "An ordinary kernel with inputs is fired only when at least one of its input ports holds data, and an all-ports kernel only when every input port does; a kernel that is so enabled is eventually fired, and a kernel without inputs is always enabled until it stops.",
  ["schedules", "histories"], "any/all kernels with any number of ports, every arrival order across ports, every schedule",
  "One test uses kernel_all under one schedule.",
  ["src/schedule.cpp", "src/kernel_all.cpp", R+"kernel_all.hpp", R+"kernel.hpp"],
  [("kernelHasInputData", "src/schedule.cpp")],
  ["port sizes observed on entry to run()"])
p("P19", "for_each streams the caller's array in place, each element once",
  "for_each makes each element of the caller's array available exactly once, in index order and with its true index within each output port, the ports together covering the array without gap or overlap; the elements are the array's own memory (writes through them are visible to the caller), nothing outside the array is touched, and neither the array nor its objects are freed or destroyed; this holds for every length, also one smaller than the number of ports.",
  ["inputs", "configurations"], "array lengths, element types, numbers of output ports, window sizes read by consumers",
  "The foreach test prints one 1000-element array on one port.",
  [R+"foreach.tcc", R+"port.hpp", R+"bufferdata.tcc", "src/allocate.cpp"],
  [("in-place FIFO over external memory", R+"bufferdata.tcc"), ("partition of the array over ports", R+"port.hpp")],
  ["addresses, values and indices seen by consumers"])
p("P20", "Containers survive a round trip through a stream",
  "Streaming any standard sequence container through read_each and write_each appends exactly the container's elements, in order, to the destination, for any element type and any container length including zero; the source container is unchanged.",
  ["inputs", "schedules"], "container kinds, element types, lengths, queue sizes",
  "stdlibsupport copies one vector of integers.",
  [R+"readeach.tcc", R+"writeeach.tcc"],
  [("iterator-driven source/sink kernels", R+"readeach.tcc")],
  ["destination container after exe()"])
p("P21", "The file reader delivers the whole file exactly",
  "Reading a file in chunks yields chunks whose concatenation, at the recorded positions and lengths (less any requested overlap), is exactly the file content; every chunk length is within the chunk capacity, no chunk but the one of an empty file adds nothing new, chunks are numbered in file order, with a single output port exactly the last one carries the end-of-file signal, and the file is closed when the reader is gone. This holds for every file size including empty and exact multiples of the chunk size, every overlap smaller than a chunk's capacity, and every number of output ports.",
  ["inputs", "configurations"], "file contents and sizes, chunk sizes, overlaps, port counts",
  "No test that runs reads a file; boundary sizes are not tried anywhere.",
  [R+"fileio.tcc", R+"filechunk.tcc", R+"chunkiterator.tcc"],
  [("iteration count and remaining-length arithmetic", R+"fileio.tcc")],
  ["chunks received downstream"])
p("P22", "Search reports every occurrence of the term exactly once",
  "Feeding file chunks to the search kernel reports exactly the byte positions at which a non-empty term occurs in the file, each once, in order per kernel and with the right end, including occurrences straddling a chunk boundary when chunks overlap by term length minus one.",
  ["inputs", "configurations"], "texts over small alphabets with overlapping matches, terms, chunk sizes",
  "The search example is not built here and only counts matches in one text.",
  [R+"search.tcc", R+"fileio.tcc", R+"chunkiterator.tcc"],
  [("std::search over a chunk", R+"search.tcc"), ("chunk overlap", R+"fileio.tcc")],
  ["match positions received downstream"])
p("P23", "print writes every element once, in order, with its delimiter",
  "The print kernel writes exactly the elements it receives, in order, each followed by its delimiter (or nothing when there is none), to the stream it was given, for every element type and every number of input ports, where each port's elements keep their order; a copy of the kernel has the same ports and writes to the same stream.",
  ["inputs", "schedules"], "element types, delimiters, values, port counts",
  "Print tests never compare the output.",
  [R+"print.tcc"], [("print::run", R+"print.tcc")], ["bytes written to the ostream"])
p("P24", "Requested buffer sizes are honoured",
  "A link given an explicit buffer size gets a queue of exactly that capacity and keeps it for the whole execution, however the traffic behaves; links without one get the allocator's default and may only grow, and only under the dynamic allocator, which doubles a queue when its sender has been held up for at least four fifths of its writes at four of the monitor's looks since it was last grown, and which gives a queue the capacity its sender asks for when that is more slots at once (allocate_range) than the queue has; it grows at no other time, its contents unchanged and whatever the other links of the map do.",
  ["configurations", "schedules"], "buffer sizes, graphs, traffic patterns, allocators",
  "fixedAllocate passes a size and never looks at the capacity.",
  ["src/allocate.cpp", "src/dynalloc.cpp", "src/stdalloc.cpp", R+"mapbase.hpp", "src/port_info.cpp"],
  [("fixed_buffer_size / start_nitems", R+"port_info.hpp"), ("dynalloc::run growth rule", "src/dynalloc.cpp")],
  ["capacity() observed inside run()"])
p("P25", "Graph traversal visits every kernel and link exactly once",
  "Breadth-first traversal from the sources visits each reachable kernel once and each link once, for every graph shape including diamonds and shared sinks, and the generated dot file contains one node per kernel and one edge per link, joining the right kernels. exe() writes it, complete and before any kernel runs, to the file GEN_DOT names, and ends the process there if GEN_DOT_EXIT is 1.",
  ["programs"], "generated directed acyclic graphs, connected or not, one or many sources",
  "No test examines traversal or dot output.",
  ["src/graphtools.cpp", R+"graphtools.hpp", "src/makedot.cpp", R+"makedot.hpp"],
  [("BFS queue with visited set", "src/graphtools.cpp")],
  ["callback invocations", "dot text"])
p("P26", "Port containers name, count, type and iterate ports faithfully",
  "A kernel's port container holds exactly the ports added to it: count, presence, name lookup, element type and iteration agree with the additions in every order, each name maps to its own stream, adding a name twice or looking up a missing one raises the documented exception, and iteration visits each port once.",
  ["histories", "inputs"], "every set and order of port additions of mixed element types, lookups of present and absent names",
  "Tests use at most three ports with fixed names.",
  ["src/port.cpp", R+"port.hpp", "src/portiterator.cpp", R+"portiterator.hpp", R+"portmap_t.hpp", "src/port_info.cpp"],
  [("portmap lookup and PortIterator", R+"portiterator.hpp")],
  ["Port API results"])
p("P27", "Lambda kernels and stream arithmetic apply their function to every element",
  "A lambda kernel has exactly the declared ports and runs the given function, state included, on every firing, returning its status; the sum and product helpers return the arithmetic sum or product of the head elements of the given inputs and consume exactly one element from each; a random variate generator emits exactly the requested number of values, all within the distribution's range, and a copy of it emits that number again whatever the original has sent.",
  ["inputs", "schedules"], "operand values and types, numbers of ports, firing counts, generator parameters",
  "Tests use one lambda and one pair of operand types.",
  [R+"lambdak.tcc", R+"raftmath.tcc", R+"random.tcc"],
  [("lambdak::run", R+"lambdak.tcc"), ("raft::sum / raft::mult", R+"raftmath.tcc")],
  ["output streams", "port names"])
p("P28", "Port selection reports a port that really has data",
  "select::in over any set of named input ports returns a port holding data together with how much whenever at least one of them has data, and otherwise reports zero; it never consumes or alters data and never returns a port that was not asked for.",
  ["histories", "inputs"], "every combination of fill levels over every subset and order of ports",
  "One test polls three ports fed by identical generators.",
  [R+"select.tcc"], [("recursive select", R+"select.tcc")], ["returned pair, port sizes"])
p("P29", "Kernel sets and placement directives keep exactly what they were given",
  "A kernel set holds exactly the kernels put into it, in order; binding placement parameters to kernels changes exactly those kernels and no others, each getting the stated device and affinity group; the basic partitioner assigns every kernel of the map a core the machine has, no core more than one kernel more than another, the dummy one assigns nothing, and neither changes affinity groups.",
  ["inputs", "programs"], "sets of any size, repeated and nested binds over generated kernels and groups",
  "ksettest and poolThreadRaftManip use three kernels and print.",
  [R+"kset.tcc", R+"raftmanip.hpp", R+"kernelmanip.tcc", "src/partition_basic.cpp", R+"partition_basic.hpp", "src/partition_dummy.cpp", R+"kernel.hpp"],
  [("kset recursion", R+"kset.tcc"), ("manip::bind", R+"raftmanip.hpp")],
  ["set iteration, affinity group, core assignment"])
p("P30", "Every element type gets the storage class its size and kind call for",
  "Arithmetic types and arrays no larger than a cache line are stored inline as plain data, class types no larger than a cache line inline as objects, and everything larger externally; the storage classes are mutually exclusive and every arithmetic, array or class type has one, with the boundary exactly at the cache-line size (64 bytes in this build), and a queue stores its elements accordingly.",
  ["inputs"], "element types generated over kind (scalar, enum, pointer, array, trivial and non-trivial class, nested) and size around the boundary",
  "Seven compile-time tests check one type per class.",
  [R+"alloc_traits.tcc", R+"defs.hpp", R+"internaldefs.hpp"],
  [("sizeof comparison in traits", R+"alloc_traits.tcc")],
  ["trait values; storage behaviour of a queue of that type"])
p("P31", "Ring positions advance modulo capacity and count every wrap",
  "A ring position built for capacity c starts at zero, moves by one or by any step up to c and always reads (steps taken) mod c, its wrap indicator increasing by exactly one each time the end is passed; single and bulk advances of the same total are equivalent, and transferring a position to a larger ring keeps its value.",
  ["histories", "inputs"], "capacities, step sequences, transfers",
  "No test exercises the position type directly.",
  ["src/pointer.cpp", R+"pointer.hpp"],
  [("inc / incBy / wrapIndicator", "src/pointer.cpp")],
  ["val and wrapIndicator after each step"])
p("P32", "Signal and counter values convert, compare and accumulate faithfully",
  "Any value stored in a stream signal, system or user-defined, is read back unchanged through conversion, assignment, copy and comparison, together with its index; accumulating one blocked-counter record into another adds its transfer count and nothing else when the added record was not blocked, and changes nothing when it was.",
  ["inputs", "histories"], "all signal values, sequences of assignments and copies, all counter pairs",
  "No test compares signals other than eof with eof.",
  ["src/signal.cpp", R+"signal.hpp", R+"signalvars.hpp", "src/signaldata.cpp", R+"signaldata.hpp", "src/blocked.cpp", R+"blocked.hpp"],
  [("Buffer::Signal operators", "src/signal.cpp"), ("Blocked::operator+=", "src/blocked.cpp")],
  ["operator results"])
p("P33", "A system signal reaches exactly the handler registered for it",
  "Calling the handler table for a signal runs the handler registered last for exactly that signal, with the stream, kernel, signal and data given, and returns its status; a signal without a handler raises the no-handler exception and runs nothing, and a copied table behaves as the one it was copied from did, independently of later changes to either.",
  ["histories"], "sequences of registrations, inheritances and calls over all signals",
  "No test registers a handler.",
  ["src/systemsignalhandler.cpp", R+"systemsignalhandler.hpp"],
  [("handler map", "src/systemsignalhandler.cpp")],
  ["handler invocations and returned status"])
p("P34", "Numeric utilities match their mathematical definition",
  "The streaming mean and standard deviation of any non-empty sequence equal its arithmetic mean and population standard deviation within floating-point tolerance, also after a reset, and a generated range contains exactly the values from start towards end, inclusive, in steps of the given increment, ascending or descending, with no memory outside the result touched.",
  ["inputs"], "value sequences, types, ranges ascending and descending, increments",
  "No test covers them.",
  [R+"streamingstat.tcc", R+"utility.hpp"],
  [("incremental update", R+"streamingstat.tcc"), ("range loop", R+"utility.hpp")],
  ["returned statistics and ranges"])
p("P35", "A placed kernel runs on the core it was placed on",
  "Every firing of a kernel that has been assigned a core, by the caller or by a partitioner, happens on a thread that has asked to be bound to exactly that core before the kernel's first firing; a kernel without a core runs on a thread that is bound to none. This holds however the threads of the scheduler interleave.",
  ["inputs", "schedules"], "graphs, assignments by the caller and by partitioners, interleavings of the starting threads",
  "Where a thread is bound depends on whether it reads its assignment before or after it has been stored; no test places a kernel.",
  ["src/simpleschedule.cpp", R+"simpleschedule.hpp", "src/partition_basic.cpp", R+"kernel.hpp"],
  [("thread_info_t / simple_run", "src/simpleschedule.cpp")],
  ["calls that bind a thread, compared on entry to run()"])
p("P36", "The graph partitioner is given the map's graph and its answer is followed",
  "With no more kernels than cores the Scotch partitioner gives every kernel a core of its own. Otherwise the graph it hands to the partitioning library has exactly one vertex per kernel, an edge in both directions, of the same weight, for every link of the map and no others, and each kernel is assigned exactly the part computed for its vertex; affinity groups are unchanged.",
  ["inputs"], "graphs, numbers of cores, answers of the library",
  "No test uses the partitioner; whether vertices and kernels correspond depends on the addresses and the shape of the graph.",
  ["src/partition_scotch.cpp", R+"partition_scotch.hpp", R+"graph.tcc"],
  [("numbering and tables", "src/partition_scotch.cpp"), ("CSR tables", R+"graph.tcc")],
  ["arguments of the library's calls; core of every kernel"])
p("P37", "Maps executed side by side do not affect one another",
  "Executing several maps of one process at the same time, each from a thread of its own, or building and executing them one after another gives every map exactly the result it has when executed alone, and each exe() returns when its own map is done; all kernels of the process have different numbers. Kernels are made by one thread.",
  ["inputs", "schedules"], "pairs and triples of graphs, allocators and partitioners, interleavings of all their threads",
  "State shared between maps shows only when their threads meet at certain points; every test runs one map.",
  [R+"map.hpp", "src/kernel.cpp", "src/schedule.cpp", "src/allocate.cpp", "src/basicparallel.cpp"],
  [("process-wide state", "src/kernel.cpp")],
  ["streams at the sinks of every map"])
p("P38", "A refused operation says what it was refused for",
  "The message of every exception about ports and links names what is at fault: for link ends of different types both kernels, both ports and both types; for a missing or repeated port its name; for a port linked already or a third name given to a kernel the port and the kernel; for an ambiguous or absent port the kernel; for an incomplete map an unconnected port and its kernel; for a signal without handler its number. The message stays readable after the map and kernels are gone.",
  ["inputs"], "kernels of several classes with ports of several types, any refused operation on them",
  "No test provokes and reads an error.",
  ["src/mapbase.cpp", "src/port.cpp", R+"port.hpp", "src/kernel.cpp", "src/graphtools.cpp", "src/raftexception.cpp", "src/systemsignalhandler.cpp", R+"mapbase.hpp", R+"common.hpp", "src/common.cpp"],
  [("composition of messages", "src/mapbase.cpp"), ("message ownership", "src/raftexception.cpp")],
  ["what() of the exception"])
