"""Writes /verif/properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    e = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
             anchors=dict(files=['core/' + f for f in files.split()],
                          mechanism=[dict(name=n, where='core/' + w) for n, w in mech]))
    if state:
        e['anchors']['state'] = [dict(name=n, meaning=m, where='core/' + w) for n, m, w in state]
    if observe:
        e['anchors']['observe_at'] = observe
    e['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(e)


I = 'include/vecmem/'
S = 'src/memory/'
D = 'src/memory/details/'

# ------------------------------------------------------------------ memory resources
p('M01', 'Contiguous resource hands out aligned, in-bounds, non-overlapping blocks',
  'A contiguous resource takes exactly one block of the configured size from its upstream and '
  'returns exactly that block when it is destroyed. Every successful non-empty allocation is '
  'aligned as requested, lies inside that block, and never overlaps any earlier allocation; an '
  'empty request gives a null pointer and consumes nothing. It fails with bad_alloc exactly when '
  'the aligned request no longer fits, leaves its state unchanged then, and de-allocation never '
  'touches the upstream.',
  'inputs histories', 'every block size, every amount already consumed, every request size and '
  'power-of-two alignment, every upstream block address',
  'Tests allocate a few vectors from one buffer; they do not cover arbitrary base addresses, '
  'sizes near the end of the block, or huge sizes and alignments.',
  D + 'contiguous_memory_resource_impl.cpp ' + S + 'contiguous_memory_resource.cpp ' + D +
  'memory_resource_impl.hpp',
  [('bump pointer advanced with std::align', D + 'contiguous_memory_resource_impl.cpp:allocate'),
   ('one upstream block owned for the lifetime', D + 'contiguous_memory_resource_impl.cpp')],
  [('next pointer', 'first byte not handed out yet', D + 'contiguous_memory_resource_impl.hpp')])

p('M02', 'Host and terminal resources: real aligned memory, and never any memory',
  'The host resource either gives a non-null block aligned as requested with at least the '
  'requested number of bytes, or fails with bad_alloc; its blocks are released through the '
  'matching system call, and an empty request gives a null pointer. The terminal resource always '
  'fails with bad_alloc and never asks anybody for memory. Two host resources are '
  'interchangeable, and so are two terminal ones.',
  'inputs', 'every request size (up to the full range of the size type) and every power-of-two '
  'alignment',
  'Tests ask for a handful of small sizes and natural alignments; sizes where the rounding to '
  'the alignment matters or wraps around are never tried.',
  S + 'host_memory_resource.cpp ' + S + 'terminal_memory_resource.cpp',
  [('size rounded up to the alignment', S + 'host_memory_resource.cpp:do_allocate'),
   ('unconditional bad_alloc', S + 'terminal_memory_resource.cpp')])

p('M03', 'Identity and conditional resources forward exactly the admitted requests',
  'The identity resource passes every non-empty request and release to its upstream with '
  'unchanged size, alignment and address, returns the upstream answer unchanged, and passes its '
  'failures through. The conditional resource does the same exactly for requests its predicate '
  'admits and fails with bad_alloc without contacting the upstream for all others; every release '
  'is passed on.',
  'inputs', 'every request size, alignment, predicate answer and upstream behaviour including '
  'failure', 'Tests use one fixed predicate and a few sizes, and no failing upstream.',
  S + 'identity_memory_resource.cpp ' + D + 'conditional_memory_resource_impl.cpp ' + S +
  'conditional_memory_resource.cpp',
  [('delegation', S + 'identity_memory_resource.cpp'),
   ('predicate checked before delegation', D + 'conditional_memory_resource_impl.cpp')])

p('M04', 'Choice resource returns every block to the resource that was chosen for it',
  'For every non-empty request the decision function is asked with the request size and '
  'alignment, and the request is served by exactly the resource it names, with unchanged size '
  'and alignment. Every block is given back to the resource it came from, with the caller\'s '
  'address, size and alignment, even if the decision function would answer differently later. If '
  'the chosen resource fails, the failure reaches the caller and nothing is recorded.',
  'inputs histories', 'every history of interleaved allocations and releases, every sequence of '
  'decisions, every upstream address including reused ones',
  'Tests run short fixed sequences with a decision that only depends on the size.',
  D + 'choice_memory_resource_impl.cpp ' + S + 'choice_memory_resource.cpp',
  [('ownership record per address', D + 'choice_memory_resource_impl.cpp')],
  [('owner map', 'which upstream owns each live block', D + 'choice_memory_resource_impl.hpp')])

p('M05', 'Coalescing resource tries upstreams in order and returns blocks to their owner',
  'A non-empty request is offered to the upstream resources in their given order with unchanged '
  'size and alignment until one succeeds, later ones are not contacted, and bad_alloc is thrown '
  'only after all of them have failed with bad_alloc. Every block is given back, with the '
  'caller\'s address, size and alignment, to the upstream that supplied it. An empty request '
  'contacts nobody.',
  'inputs histories fault_sequences', 'every number of upstreams, every pattern of upstream '
  'failures, every history of allocations and releases',
  'Tests combine two or three upstreams with fixed capacity and short sequences.',
  D + 'coalescing_memory_resource_impl.cpp ' + S + 'coalescing_memory_resource.cpp',
  [('ordered fall-through on bad_alloc', D + 'coalescing_memory_resource_impl.cpp:allocate'),
   ('ownership record per address', D + 'coalescing_memory_resource_impl.cpp')])

p('M06', 'Debug resource accepts exactly the legal uses and reports the illegal ones',
  'A legal allocation or release goes to the upstream unchanged and its result is returned '
  'unchanged. An upstream block overlapping a live one, the release of an unknown or already '
  'released block, and a release with a different size or alignment than the allocation are '
  'reported with an exception, and an illegal release never reaches the upstream.',
  'inputs histories', 'every history of allocations and releases, every address, size and '
  'alignment, every misbehaviour of the upstream',
  'Tests provoke each error once with one fixed block.',
  D + 'debug_memory_resource_impl.cpp ' + S + 'debug_memory_resource.cpp',
  [('record of live blocks', D + 'debug_memory_resource_impl.cpp')])

p('M07', 'Instrumenting resource is transparent and reports every request once',
  'Requests and releases reach the upstream unchanged, results and failures reach the caller '
  'unchanged. Every non-empty request and every release adds exactly one event with the right '
  'kind, size, alignment, address and (for failed requests) no address, in order, and every '
  'registered hook is called exactly once with the same data before or after the upstream call '
  'as documented.',
  'inputs histories fault_sequences', 'every size, alignment and address, every number of hooks, '
  'every pattern of upstream failures',
  'Tests look at a few fixed sizes and counters and never at failing upstream requests with '
  'hooks.',
  D + 'instrumenting_memory_resource_impl.cpp ' + S + 'instrumenting_memory_resource.cpp',
  [('event list and hook lists', D + 'instrumenting_memory_resource_impl.cpp')])

p('M08', 'Memory monitor totals equal the history of allocations and releases',
  'The reported total is the sum of all successful request sizes, the outstanding amount is that '
  'sum minus everything released, the peak is the largest outstanding amount ever reached, and '
  'the average is the total divided by the number of requests. Failed requests do not count.',
  'inputs histories', 'every reachable statistic and every next request or release size',
  'Tests replay one fixed sequence.',
  'src/utils/memory_monitor.cpp ' + I + 'utils/memory_monitor.hpp',
  [('post-allocate and pre-deallocate hooks', 'src/utils/memory_monitor.cpp')])

p('M09', 'Synchronized resource runs every upstream operation under its lock',
  'Every request and release is passed to the upstream exactly once, unchanged, while the lock '
  'of the resource is held, and the lock is free again afterwards, whether the upstream returns '
  'or throws. Results and failures are passed through unchanged.',
  'inputs schedules fault_sequences', 'every thread interleaving (by mutual exclusion), every '
  'request and every upstream failure',
  'Tests run a few threads for a short time; a missing or leaked lock shows up only under rare '
  'interleavings or failures.',
  S + 'synchronized_memory_resource.cpp',
  [('scoped lock around the delegation', S + 'synchronized_memory_resource.cpp')])

p('M10', 'Pool resource never hands out overlapping, misaligned or too small blocks',
  'Blocks that are live at the same time never overlap, each is aligned as requested, has the '
  'requested size, and lies inside memory the upstream supplied and has not taken back. '
  'Everything obtained from the upstream is given back exactly once, with its original size and '
  'alignment, at the latest when the resource is destroyed. Requests larger than the largest '
  'pooled block go to the upstream.',
  'inputs histories', 'every legal option set, every history of requests and releases, every '
  'upstream address',
  'Tests run fixed and pseudo-random traces with the default options on one real upstream.',
  D + 'pool_memory_resource_impl.cpp ' + S + 'pool_memory_resource.cpp',
  [('power-of-two size classes with free lists', D + 'pool_memory_resource_impl.cpp')])

p('M11', 'Binary page resource never hands out overlapping or too small blocks',
  'Blocks that are live at the same time never overlap, each has the requested size and lies '
  'inside memory the upstream supplied and has not taken back. A released block becomes '
  'available again, and everything obtained from the upstream is given back exactly once with '
  'its original size when the resource is destroyed.',
  'inputs histories', 'every history of requests and releases of any size, every upstream '
  'address',
  'Tests run fixed and pseudo-random traces; page-splitting patterns that go wrong need '
  'particular sequences.',
  D + 'binary_page_memory_resource_impl.cpp ' + S + 'binary_page_memory_resource.cpp',
  [('binary tree of pages per super-page', D + 'binary_page_memory_resource_impl.cpp')])

p('M12', 'Arena resource never hands out overlapping or too small blocks',
  'Blocks that are live at the same time never overlap, each has the requested size and lies '
  'inside memory the upstream supplied and has not taken back. Released space becomes available '
  'again, and everything obtained from the upstream is given back exactly once with its original '
  'size when the resource is destroyed.',
  'inputs histories', 'every initial and maximal size, every history of requests and releases, '
  'every upstream address',
  'Tests use a few sizes on one real upstream whose blocks are far apart.',
  D + 'arena_memory_resource_impl.cpp ' + S + 'arena_memory_resource.cpp',
  [('ordered set of free blocks with coalescing', D + 'arena_memory_resource_impl.cpp')])

p('M13', 'Size and alignment arithmetic is exact over the whole integer range',
  'Rounding up to a power of two gives the smallest power of two not below the argument, the '
  'integer logarithms and the power-of-two test are mathematically exact, and the alignment '
  'predicate and the round-up helper return the exact answer, the next multiple of the '
  'alignment, for every argument whose result is representable.',
  'inputs', 'every 64-bit argument for which the result is representable',
  'Tests reach these helpers only indirectly with small sizes.',
  'src/utils/integer_math.hpp ' + D + 'is_aligned.cpp',
  [('bit arithmetic', 'src/utils/integer_math.hpp')])

p('M14', 'Memory from the typed allocation helpers is sized, aligned and released exactly',
  'The typed allocator and the smart-pointer helpers request exactly the bytes of the requested '
  'objects from the resource and release every block exactly once with the same resource, '
  'address and size. Objects made by the constructing helpers are constructed exactly once and '
  'destroyed exactly once before their memory is released, in every copy, move, reset or '
  'release of the handle.',
  'inputs histories', 'every element count, every resource answer, every sequence of moves and '
  'resets of the handle',
  'Tests use a few counts and do not compare every release with its request.',
  I + 'memory/unique_ptr.hpp ' + I + 'memory/details/unique_alloc_deleter.hpp ' + I +
  'memory/details/unique_obj_deleter.hpp ' + I + 'memory/impl/allocator.ipp ' + S +
  'allocator.cpp',
  [('deleters remember resource, size and alignment',
    I + 'memory/details/unique_alloc_deleter.hpp')])

p('M15', 'Multi-array placement gives aligned, disjoint arrays inside one allocation',
  'When several arrays are placed into one allocation, each array is aligned for its type, has '
  'room for its full element count, and no two arrays overlap or reach outside the single block '
  'that was requested. The block is released exactly once.',
  'inputs', 'every combination of element counts, every element size and alignment sampled by '
  'type, every block address',
  'Tests use small fixed counts with malloc-aligned blocks.',
  I + 'containers/impl/aligned_multiple_placement.ipp ' + I +
  'containers/details/aligned_multiple_placement.hpp',
  [('std::align over the remaining space', I + 'containers/impl/aligned_multiple_placement.ipp')])

# ------------------------------------------------------------------ containers
p('C01', 'Views describe the same memory as their source and compare accordingly',
  'A view made from a pointer and sizes, or from another view, reports exactly that pointer, '
  'size and capacity; a resizable view reports the size currently stored in memory and a fixed '
  'one its capacity. Copying, assigning and converting to a view of constant elements keep all '
  'of it, and two views are equal exactly if they describe the same memory and size variable.',
  'inputs', 'every pointer, size, capacity and size variable content',
  'Tests use small real arrays only.',
  I + 'containers/data/vector_view.hpp ' + I + 'containers/impl/vector_view.ipp',
  [('pointer, size pointer and capacity', I + 'containers/impl/vector_view.ipp')])

p('C02', 'Device vector is a faithful fixed-capacity sequence over its view',
  'Without concurrent access every operation of a device vector has exactly the effect of the '
  'corresponding operation on a mathematical sequence stored in the viewed memory: element '
  'access, iteration, growing, shrinking, resizing, clearing and assigning. Elements that an '
  'operation does not concern keep their value, nothing outside the viewed memory is touched, '
  'and the stored size never exceeds the capacity.',
  'inputs', 'every capacity, size, index, value and memory content, for trivial and non-trivial '
  'element types',
  'Tests check a few sizes and values.',
  I + 'containers/device_vector.hpp ' + I + 'containers/impl/device_vector.ipp',
  [('size variable in the viewed memory', I + 'containers/impl/device_vector.ipp')])

p('C03', 'Concurrent appends to a device vector get distinct, consecutive slots',
  'When any number of threads append to one resizable device vector at the same time, within '
  'the capacity, every append obtains a slot no other append obtains, writes only to that slot, '
  'and the final size is the initial size plus the number of appends. The same holds for bulk '
  'appends, which obtain consecutive slots, and for concurrent removals, which claim distinct '
  'last elements.',
  'schedules inputs', 'every interleaving of any number of threads, every size and capacity',
  'Host tests are single-threaded; a lost update needs a particular interleaving.',
  I + 'containers/impl/device_vector.ipp ' + I + 'memory/impl/posix_device_atomic_ref.ipp',
  [('one atomic read-modify-write on the size', I + 'containers/impl/device_vector.ipp')])

p('C04', 'Static vector behaves as a sequence bounded by its compile-time capacity',
  'Every operation of a static vector has exactly the effect of the corresponding operation on a '
  'mathematical sequence, elements it does not concern keep their values and order, and its size '
  'never exceeds the capacity. Objects are constructed and destroyed exactly once.',
  'inputs', 'every size, position, count and value, for trivial and non-trivial element types',
  'Tests check a few positions and values.',
  I + 'containers/static_vector.hpp ' + I + 'containers/impl/static_vector.ipp',
  [('in-object storage and size', I + 'containers/impl/static_vector.ipp')])

p('C05', 'Fixed-size arrays and tuples store and compare element by element',
  'Construction, element access, iteration, filling, copying and comparing of the fixed-size '
  'array types and of the tuple have exactly the effect of the corresponding operation on the '
  'mathematical tuple of their elements; checked access outside the range is reported with an '
  'exception, and views of an array describe exactly its elements.',
  'inputs', 'every element value and index, every resource answer for the run-time array',
  'Tests use a few values, and compare only some positions.',
  I + 'containers/impl/static_array.ipp ' + I + 'containers/impl/device_array.ipp ' + I +
  'containers/impl/array.ipp ' + I + 'utils/tuple.hpp ' + I + 'utils/impl/tuple.ipp',
  [('element-wise operations', I + 'containers/impl/static_array.ipp')])

p('C06', 'Jagged device vectors and their iterators visit exactly the described rows',
  'A jagged device vector gives access to exactly the rows its view describes, row i being the '
  'i-th described vector, and reports their number. Its iterators behave as random-access '
  'iterators over these rows: position arithmetic, comparison, dereference and reverse iteration '
  'agree with indexing.',
  'inputs', 'every number of rows, every row, every iterator position and offset',
  'Tests iterate over small fixed jagged vectors.',
  I + 'containers/impl/jagged_device_vector.ipp ' + I +
  'containers/impl/jagged_device_vector_iterator.ipp ' + I +
  'containers/impl/jagged_vector_view.ipp ' + I + 'containers/details/reverse_iterator.hpp ' + I +
  'containers/impl/reverse_iterator.ipp',
  [('pointer arithmetic on the row descriptors',
    I + 'containers/impl/jagged_device_vector_iterator.ipp')])

p('C07', 'Vector buffers own one allocation that exactly fits their elements',
  'A vector buffer of any capacity makes at most one allocation from its resource, large enough '
  'and aligned for its elements and, if resizable, a separate properly aligned size variable; '
  'the description it gives lies inside that allocation without overlap. The allocation is '
  'released exactly once, also across moves, and an empty buffer owns nothing it does not need.',
  'inputs', 'every capacity, both buffer kinds, every block address',
  'Tests use a few capacities with real memory.',
  I + 'containers/impl/vector_buffer.ipp ' + I + 'containers/data/vector_buffer.hpp ' + I +
  'containers/impl/aligned_multiple_placement.ipp',
  [('one placement of size and payload', I + 'containers/impl/vector_buffer.ipp')])

p('C08', 'Jagged buffers give every row its own in-bounds, disjoint storage',
  'A jagged buffer (capacities within the size type of its views) describes exactly as many rows as capacities were given, each with its '
  'capacity, and the storage of all rows and size variables is aligned, pairwise disjoint and '
  'inside the memory requested from its resources. All memory is released exactly once to the '
  'resource it came from, and the host-accessible description equals the one meant for the '
  'device.',
  'inputs', 'every number of rows and every capacity, fixed and resizable, with and without a '
  'separate host resource',
  'Tests use a few small capacity lists.',
  I + 'containers/impl/jagged_vector_buffer.ipp ' + I +
  'containers/data/jagged_vector_buffer.hpp',
  [('row descriptors computed from running offsets',
    I + 'containers/impl/jagged_vector_buffer.ipp')])

p('C09', 'Data extracted from host containers describes exactly their elements',
  'The description obtained from a host vector, array or jagged vector names exactly its '
  'elements in order: row i of the description is row i of the container with its address and '
  'size. The memory of the description itself comes from the given resource and is released '
  'exactly once.',
  'inputs', 'every number and size of rows, every resource answer',
  'Tests use small fixed containers.',
  I + 'containers/impl/jagged_vector_data.ipp ' + I + 'containers/impl/jagged_vector.ipp ' + I +
  'containers/impl/vector.ipp',
  [('one descriptor per row', I + 'containers/impl/jagged_vector.ipp')])

p('C10', 'Atomic references perform single indivisible operations on the named object',
  'Each operation of the atomic reference performs exactly one atomic access of the requested '
  'kind on the referenced object, with at least the requested memory ordering, stores exactly '
  'the specified new value and returns the previous value (or, for exchanges that compare, '
  'whether it matched, updating the expected value only on a mismatch).',
  'schedules inputs', 'every value, operand and requested ordering, every interference of other '
  'threads between the accesses',
  'Tests are mostly single-threaded, where a non-atomic or too weakly ordered access gives the '
  'same result.',
  I + 'memory/impl/posix_device_atomic_ref.ipp ' + I +
  'memory/impl/dummy_device_atomic_ref.ipp ' + I + 'memory/device_atomic_ref.hpp',
  [('compiler atomic builtins', I + 'memory/impl/posix_device_atomic_ref.ipp')])

# ------------------------------------------------------------------ copies
p('P01', 'Vector copies transfer exactly the source elements',
  'Copying a vector makes the first elements of the target equal to all elements of the source, '
  'sets the size of a resizable target to the size of the source, and changes nothing else. A '
  'copy that does not fit is refused with an exception before anything is changed.',
  'inputs', 'every size and capacity, fixed and resizable source and target, every content and '
  'every copy direction',
  'Tests copy a few small vectors.',
  I + 'utils/impl/copy.ipp ' + I + 'utils/copy.hpp src/utils/copy.cpp',
  [('size check, size transfer and payload transfer', I + 'utils/impl/copy.ipp:copy_view_impl')])

p('P02', 'Jagged copies transfer every row exactly, however rows are laid out',
  'Copying a jagged vector makes every row of the target equal to the corresponding row of the '
  'source (the elements within its size; what lies beyond the size but within the capacity of a '
  'target row may change), whether or not rows are adjacent in memory on either side, sets the '
  'sizes of a resizable target, and touches nothing else. A copy that does not fit is refused '
  'with an exception before anything is written: one between different non-zero numbers of rows, '
  'to rows that are too small, or to a target only some rows of which are resizable.',
  'inputs', 'every number and size of rows, every memory layout of the rows on both sides',
  'Tests copy a few small jagged vectors with the layouts the library itself creates.',
  I + 'utils/impl/copy.ipp',
  [('contiguity detection and per-row transfer', I + 'utils/impl/copy.ipp')])

p('P03', 'Buffer setup, memory filling and size queries are exact',
  'Setting up a buffer of non-zero capacity makes a resizable one empty (every row, for jagged ones) and its '
  'description usable, filling writes exactly the given byte to exactly the elements described, '
  'and size queries report exactly the sizes stored; nothing else is modified.',
  'inputs', 'every capacity and content, fixed and resizable, 1D and jagged',
  'Tests use a few small buffers.',
  I + 'utils/impl/copy.ipp',
  [('setup, memset and get_sizes', I + 'utils/impl/copy.ipp')])

# ------------------------------------------------------------------ EDM
p('E01', 'Structure-of-arrays containers keep their columns in step',
  'Every operation on a host or device structure-of-arrays container applies to all vector '
  'columns alike: sizes always agree, element access through a column or through an object proxy '
  'names the same storage, and growing a device container concurrently reserves one slot common '
  'to all columns. Scalars are unaffected.',
  'inputs schedules', 'every size, capacity, index and value of the tested column types',
  'Tests use one or two layouts with a few elements.',
  I + 'edm/impl/host.ipp ' + I + 'edm/impl/device.ipp ' + I + 'edm/details/device_traits.hpp ' +
  I + 'edm/details/host_traits.hpp',
  [('operation folded over all columns', I + 'edm/impl/device.ipp')])

p('E02', 'Structure-of-arrays buffers give every column disjoint storage in one block',
  'A structure-of-arrays buffer makes one allocation of the memory it reports, every column and '
  'size variable described by it is aligned, has the full capacity, lies inside that allocation '
  'and overlaps no other, and all memory is released exactly once.',
  'inputs', 'every capacity (and list of row capacities), fixed and resizable, every block '
  'address', 'Tests use a few capacities.',
  I + 'edm/impl/buffer.ipp ' + I + 'edm/details/buffer_traits.hpp ' + I +
  'containers/impl/aligned_multiple_placement.ipp',
  [('one placement for all columns', I + 'edm/impl/buffer.ipp')])

p('E03', 'Structure-of-arrays copies reproduce every column',
  'Copying between structure-of-arrays containers makes every column of the target equal to that '
  'of the source, sets the sizes of resizable targets, and touches nothing else.',
  'inputs', 'every size and content of the tested layouts, resizable and fixed',
  'Tests copy a few small containers.',
  I + 'utils/impl/copy.ipp ' + I + 'edm/impl/view.ipp',
  [('whole-payload or per-column transfer', I + 'utils/impl/copy.ipp')])

p('G01', 'GPU back ends give the same guarantees as the host code',
  'The CUDA, HIP and SYCL memory resources and copies give the guarantees of the corresponding '
  'host components on the devices they serve.',
  'inputs configurations', 'every device, size, and stream',
  'No device or SDK is available where the tests run.',
  '', [])
P[-1]['anchors'] = dict(files=['cuda/src', 'hip/src', 'sycl/src'],
                        mechanism=[dict(name='vendor runtime calls', where='cuda/src')],
                        hook_needed=None)

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       'properties.jsonl')
    with open(out, 'w') as f:
        for e in P:
            n = e['statement'].replace('e.g.', '').count('. ') + 1
            if n > 3:
                print('too long', e['id'], n)
            f.write(json.dumps(e) + '\n')
    print(len(P))
