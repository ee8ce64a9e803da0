#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the specifications present, and the notes below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the LLVM IR of the real functions (VC generation, z3/cvc5)'
NOTE = {
    'M01': 'One call in any reachable state is proved for all sizes, alignments and block positions (inductive step); whole histories through the public interface additionally up to three calls.',
    'M02': 'Proved for every size and alignment (41 powers of two) over the assumed contracts of the C allocation functions.',
    'M03': 'Proved for every request, release and predicate answer, including failures.',
    'M04': 'Inductive step with any number of live blocks over an assumed contract of std::unordered_map; bounded public histories with the real container.',
    'M05': 'Inductive step with any number of live blocks (assumed contract of std::unordered_map, two upstreams); order of up to four upstreams and histories with the real containers, bounded.',
    'M06': 'Inductive step with any number of live blocks over an assumed contract of std::unordered_map; bounded public histories with the real container.',
    'M07': 'Inductive step with any number of recorded events; requests and releases with up to two hooks of each kind (bounded) for all sizes, alignments and addresses.',
    'M08': 'Inductive step from any totals proved; the average is checked on sample totals only (bounded).',
    'M09': 'Proved for every request and release and for failing upstreams, over the assumed contract of the POSIX mutex.',
    'C01': 'Proved for views of any size, capacity and address, for 32-bit and larger size types.',
    'C02': 'Proved for any size, capacity and contents (trivial elements and elements with constructors and destructors).',
    'C03': 'Proved thread-modularly (rely: other threads change the size arbitrarily between two atomic accesses; guarantee: one indivisible step), for any number of threads and calls; sequentially consistent per object.',
    'C04': 'Proved for any size and contents at capacity 1000 (trivial elements); construction, destruction and order of elements with identity at capacities 3 and 4, exhaustively over positions and sizes.',
    'C05': 'array proved for every run-time size; the compile-time sized types for the sizes 1, 3 and 7 (elements arbitrary).',
    'C06': 'Proved for any number of rows, any position and offset.',
    'C07': 'Proved for every capacity and element alignment used, including moves and failing upstreams.',
    'C08': 'Proved for any number of rows (up to 2^22) and any capacities, through prefix sums with their inductive lemmas; elements of four sizes and alignments.',
    'C09': 'Proved for any number of rows (up to 2^22), row addresses and sizes.',
    'C10': 'Proved for every value, operand and permitted ordering and any interference between accesses, for integral types of 1 to 8 bytes; the non-atomic fallbacks (documented as such) for one thread.',
    'M13': 'Proved for every 64-bit argument with a representable result; addresses up to 2^57; with and without the bit-counting built-in.',
    'M14': 'Scalar helpers and the array helpers with trivial elements proved for every count; arrays of objects with constructors and destructors for small counts (bounded), with a constructor that throws at any position.',
    'M15': 'Proved for every combination of counts for two to four arrays of different alignments.',
    'P01': 'Proved for every size, capacity and content and every direction, for elements of 1, 3, 4 and 8 bytes, over host memory; asynchronous back ends are outside.',
    'P02': 'Every helper of the jagged copy (is_contiguous, get_sizes_impl, set_sizes, copy_views_impl, copy_views_contiguous_impl) and copy_view_impl/operator() proved function by function for any number of rows (to 2^22), any sizes, capacities and row placement, fixed and resizable; copy_view_impl is proved against the contracts of its helpers. Copies to host vectors and to new buffers only in the native trials used for replays.',
    'P03': 'setup, memset and get_size of vectors and setup, memset and get_sizes of jagged vectors, any number of rows (to 2^22), any capacities, sizes and placement, proved function by function (memset against the contract of is_contiguous, itself proved here).',
    'M10': 'By induction over the state of the pool: any legal options with blocks to 2^40 bytes, any number (to 2^22) of free, cached and live blocks and chunks, each operation proved to keep a ghost block that stands for all others untouched; construction, destruction and the wrapper included. log2 by its contract; std::vector::push_back and std::lower_bound trusted; std::find_if verified as the equivalent loop.',
    'E02': 'Schemas of up to four scalar, vector and jagged columns with elements of 1 to 64 bytes: any capacity for flat ones; any number of rows (to 2^22), any row capacities, one or two descriptions for jagged ones (prefix sums); an arbitrary pair of rows stands for all. The place of a column in the payload is proved to depend on the capacities only. Descriptions and sizes below 4 GiB.',
    'E03': 'Flat schemas end to end on the real containers (separate arrays, buffers, host containers), any capacities, sizes and directions, following an arbitrary byte of an arbitrary element of every column; jagged schemas against the contracts of the one-column operations (P02, P03) and of the layout of buffers (E02). Copies of jagged schemas into host containers only in the native trials used for replays.',
    'E01': 'Device containers, proxies and concurrent growth for any capacity, size, index and row description (two flat schemas and one with rows); the host containers of the flat schemas for any sizes. Host containers with jagged vectors only for up to three rows (bounded). Interference of other threads is that of C03: any atomic steps that together respect the capacity.',
    'M12': 'One operation on any reachable state of the arena (any number of superblocks, free and live blocks satisfying the representation invariant), so by induction every history; std::set and std::find_if are replaced by their contracts, exceptions of the host heap are not considered. The maximum size and the alignment of requests are not enforced by the resource and are not part of the property.',
    'M11': 'One operation on any reachable page states (by induction every history) of a resource with at most one superpage: taking a page of every size, with a first superpage created or in one of any size; every page of a superpage of 2^21 bytes released and joined, and the first, second and last page of each depth for superpages of 2^16 to 2^46 bytes; the place of every page and disjointness by lemma. Several superpages at once, and a new superpage beside a full one, are not covered by the proof; a superpage is proved to give its memory back once. round_up and clzl by their contracts (M13).',
}
NA = {
    'G01': 'CUDA, HIP and SYCL compilers, headers and run times are not installed, so the sources cannot be parsed, built or run here; a contract proof of the real code needs them.',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOTE:
        lvl, note = NOTE[i] if isinstance(NOTE[i], tuple) else ('proof', NOTE[i])
        checks.append(dict(property=i, quick_cmd='./check ' + i,
                           thorough_cmd='VERIF_TIER=thorough ./check ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH, level=lvl, level_note=note + ' Trusted: clang front end, '
                           'the condition generator in vcg/, the solvers, and the assumptions listed in the evidence.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check is built for this property (yet).')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='See DESIGN.md. No hooks in /repo: the specifications read the sources as they are '
               '(private members through -fno-access-control).')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
