"""Which harness sources make up each group, and which groups decide each property."""

# switch points at every load and store, no call inlined away
MEM = ['-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores', '-fno-inline']

GROUPS = {
    'misc': [('props/misc.cpp', []), ('props/misc_kset.cpp', [])],
    'fifo_conc': [('props/fifo_conc.cpp', MEM)] + [('REPO/src/%s.cpp' % f, MEM) for f in ('pointer', 'signal', 'blocked', 'fifo')],
    'fifo_fwd': [('props/fifo_fwd.cpp', [])],
    'pipe': [('props/pipe.cpp', MEM)] + [('REPO/src/%s.cpp' % f, MEM) for f in ('pointer', 'signal', 'blocked', 'fifo', 'schedule', 'simpleschedule', 'allocate', 'dynalloc', 'stdalloc', 'graphtools', 'map', 'mapbase', 'port', 'portiterator', 'kernel', 'kernel_all')],
    'pool': [('props/pool.cpp', MEM + ['-DUSEQTHREADS']), ('REPO/src/poolschedule.cpp', MEM + ['-DUSEQTHREADS'])] + [('REPO/src/%s.cpp' % f, MEM) for f in ('pointer', 'signal', 'blocked', 'fifo', 'schedule', 'simpleschedule', 'allocate', 'dynalloc', 'stdalloc', 'graphtools', 'map', 'mapbase', 'port', 'portiterator', 'kernel', 'kernel_all')],
    'split': [('props/split.cpp', MEM)] + [('REPO/src/%s.cpp' % f, MEM) for f in ('pointer', 'signal', 'blocked', 'fifo', 'schedule', 'simpleschedule', 'roundrobin', 'portiterator', 'dynalloc')],
    'io': [('props/io.cpp', MEM)] + [('REPO/src/%s.cpp' % f, MEM) for f in ('pointer', 'signal', 'blocked', 'fifo', 'schedule', 'simpleschedule', 'portiterator')],
    'graph': [('props/graph.cpp', []), ('props/graph_faults.cpp', []), ('props/graph_own.cpp', []), ('props/graph_walk.cpp', []), ('props/graph_says.cpp', [])],
    'scotch': [('props/scotch.cpp', ['-DUSE_PARTITION']), ('REPO/src/partition_scotch.cpp', ['-DUSE_PARTITION'])],
    'fifo_seq': [('props/fifo_types.cpp', ['-DPART=%d' % k]) for k in range(7)] + [('props/fifo_seq.cpp', [])],
}

_SEQ = ('Random histories over the real ring buffer, one thread, compared step by step with a list model; a sampled search, so '
        'absence of a violation is not a proof. Trusts the harness model and AddressSanitizer. ')
_GR = ('Random graphs and expressions over generated kernels compared with an independent model of the topology; a sampled search. ')
_U = 'Random inputs and call sequences against a direct model; a sampled search. '
_PI = ('Generated graphs under generated interleavings of all threads of the library (sequentially consistent, switches at every memory access); a sampled search. '
       'Termination means within 600000 switches of a fair schedule. pool_schedule runs over a stand-in for qthreads in which each is a thread. ')
PROPS = {
    'P01': {'groups': ['fifo_seq'], 'note': _SEQ + '18 element types, capacities 1..40.'},
    'P02': {'groups': ['fifo_seq'], 'note': _SEQ + 'Signal values: none, the system signals and arbitrary user values.'},
    'P03': {'groups': ['fifo_seq'], 'note': _SEQ},
    'P04': {'groups': ['fifo_seq'], 'note': _SEQ + 'peek_range is undefined for externally stored types and not used there.'},
    'P05': {'groups': ['fifo_seq'], 'note': _SEQ + 'allocate_range is documented as unavailable for object types and not used there.'},
    'P06': {'groups': ['fifo_seq'], 'note': _SEQ},
    'P07': {'groups': ['fifo_seq'], 'note': _SEQ + 'Object lifetimes are recorded by address; leaks are measured from the allocator. Elements never consumed are outside the property.'},
    'P08': {'groups': ['fifo_seq'], 'note': _SEQ},
    'P10': {'groups': ['fifo_fwd', 'pipe', 'pool'], 'note': 'Random histories of several kernels\' firings interleaved call by call over the real queues with the collector of the scheduler, compared with a model of which objects exist and where; a sampled search. '
            'Forwarding one object to two ports, and using a reference after it was forwarded, are misuse and not generated.'},
    'P11': {'groups': ['fifo_seq'], 'note': _SEQ + 'Elements removed by recycle may or may not be counted as read.'},
    'P09': {'groups': ['fifo_conc'], 'technique': 'property-based testing with generated thread schedules: all threads serialised, switches at every memory access chosen by the generator',
            'note': 'Sampled sequentially consistent interleavings of generated call scripts; weak-memory reorderings are not explored. Trusts the scheduler in src/sched.cpp.'},
    'P12': {'groups': ['graph'], 'note': _GR + 'Returned source/destination sets, every port of every kernel and the kernel lists of the map are compared. Joins whose port count differs from the group they join, and a second duplicating join, are undefined in the library and not generated.'},
    'P14': {'groups': ['pipe', 'pool'], 'note': _PI},
    'P15': {'groups': ['pipe', 'pool'], 'note': _PI + 'Kernels that leave input unread are outside the property.'},
    'P16': {'groups': ['split'], 'note': _PI + 'split uses peek_range, which is undefined for externally stored types.'},
    'P19': {'groups': ['io'], 'note': _PI},
    'P20': {'groups': ['io'], 'note': _PI},
    'P21': {'groups': ['io'], 'note': _PI},
    'P22': {'groups': ['io'], 'note': _PI},
    'P23': {'groups': ['io'], 'note': _PI},
    'P18': {'groups': ['pipe', 'pool'], 'note': _PI},
    'P35': {'groups': ['pipe'], 'note': _PI + 'The binding call itself is recorded, not carried out: the affinity submodule is absent.'},
    'P37': {'groups': ['pipe'], 'note': _PI},
    'P36': {'groups': ['scotch'], 'note': _GR + 'The Scotch library is played by the harness, which records the graph and answers with a part per vertex; what Scotch itself computes is not looked at.'},
    'P17': {'groups': ['graph'], 'note': _GR + 'Constructions and destructions recorded per kernel object; runs, rejected maps and maps never run. Memory of the expression objects themselves is not counted when linking throws.'},
    'P24': {'groups': ['graph', 'pipe'], 'note': _GR + 'Capacities under all allocators, before and while the map runs; the rule by which the dynamic allocator grows a queue is modelled look by look, with its monitor called on the thread of the case.'},
    'P25': {'groups': ['graph'], 'note': _GR + 'Start lists without duplicates; the dot text is parsed and matched against the links.'},
    'P38': {'groups': ['graph'], 'note': _GR + 'Kernels, ports and element types with names of their own; each must be named by the message of what is refused because of it.'},
    'P26': {'groups': ['graph'], 'note': _GR + 'Random sequences of port additions and lookups against a map model, ports over existing memory included.'},
    'P13': {'groups': ['graph'], 'note': _GR + 'One or more faults put into otherwise valid programs; the kind of exception and the state left behind are compared.'},
    'P27': {'groups': ['misc'], 'note': _U + 'Kernels are fired directly on queues the harness fills; lambda kernels have no clone and are excluded from copying. Values of variates are only checked against the range of the distribution.'},
    'P28': {'groups': ['misc'], 'note': _U + 'The choice among ports with data is random inside the library; every query is repeated four times.'},
    'P29': {'groups': ['misc'], 'note': _U + 'Kernel sets only in the variant of the header that compiles (TEST_WO_RAFT).'},
    'P30': {'groups': ['misc'], 'note': _U + 'About 1100 types generated at compile time around the boundary; enumerations, pointers and unions have no storage class.'},
    'P31': {'groups': ['misc'], 'note': _U + 'Steps up to the capacity, capacities up to 2^40.'},
    'P32': {'groups': ['misc'], 'note': _U},
    'P33': {'groups': ['misc'], 'note': _U},
    'P34': {'groups': ['misc'], 'note': _U + 'Bounds and step representable in the common type; floating-point ranges have dyadic steps; integer statistics without overflow.'},
}
NOT_APPLICABLE = {}
