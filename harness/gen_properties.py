#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the file is always
well-formed).  Run:  python3 harness/gen_properties.py > properties.jsonl"""
import json

ST, SL, GB = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))


prop('C01', 'Every format reads back exactly what it was built from',
     "Building a Buffer, Strided, COO, FlatCOO, CSR or DM array from a nested sequence (any shape of at least one axis, any values, any unspecified marker, a nested sequence of arrays included, for DM any dimension order, partitioning and inner format) gives an array with the shape of the sequence, in which reading any element by its index, negative indices included, returns the input value, and the unspecified marker where the input is None or equals the marker. A Strided array constructed over a buffer with explicit strides and offset reads buffer position offset + sum(index*stride), and a COO/FlatCOO/CSR array constructed from explicit index and value buffers reads the value stored for an index and the marker elsewhere.",
     ['inputs', 'configurations'],
     'all nested sequences (shapes incl. empty and unit axes, 1 to 6 dimensions), value patterns, unspecified markers, formats, DM parameters, strides/offsets',
     'The tests read back four 2x3 literals and 5-D samples of one shape family with every element specified; the property ranges over all shapes, sparsity patterns and mappings.',
     [ST],
     [('fromobject of each format', ST), ('get_value/get_shape/get_unspecified', ST), ('binary searches get_coo_position, get_flatcoo_position, get_csr_position', ST), ('get_position', ST)],
     ['array[index] for every index', 'array.shape', 'array.unspecified'])

prop('C02', 'Slicing Strided, COO, FlatCOO and CSR arrays follows list slicing',
     "For any index expression made of integers (negative allowed), None, and slices with any start, stop and step (also out of range, negative, or selecting nothing), possibly shorter than the number of axes, indexing a Strided, COO, FlatCOO or CSR array yields an array whose shape and elements, unspecified ones included, are those obtained by applying the same index to the nested lists axis by axis. The result keeps the unspecified marker, and the same holds again for every slice of a slice to any depth, including slices that are empty.",
     ['inputs', 'histories'],
     'all arrays, all index expressions, all chains of slices',
     'The tests slice one full 2x3 array per format with about 20 literal indices, never slice a slice, and never slice a sparse array that has unspecified elements.',
     [ST, SL],
     [('Storage.__getitem__', ST), ('normalize_index, reduced, index_strided, solve_index', SL), ('get_slice of each format', ST), ('slice_indices_and_data_position', ST)],
     ['array[index]', 'array[index1][index2]...', 'shape of the result'])

prop('C03', 'Slicing DM arrays commutes with dimensions mapping',
     "For every DM array (any shape, dimension order, partitioning, and inner format, including another DM array) and any index expression, the indexed DM array has the shape and elements, unspecified ones included, that the same indexing gives on the nested lists of the unreduced array. This also holds for every further slice of the sliced DM array.",
     ['inputs', 'configurations', 'histories'],
     'all DM parameters (permutation, partitioning, inner format, nesting), index expressions and chains of slices',
     'The tests slice 2-, 3- and 5-dimensional fully specified DM samples once, on at most two axes; chains of slices, sparse content, nested DM and other shapes are never tried.',
     [ST, SL],
     [('DM.__getitem__', ST), ('reduce_index', ST), ('index_strided', SL)],
     ['dm[index]', 'dm[index1][index2]', 'dm.shape'],
     [('rdimensions/rstrides/roffset/rshapes', 'affine map from array index to storage index', ST)])

prop('C04', 'Assignment changes exactly the addressed elements',
     "Assigning through an element index or a slice stores each given value in the element it addresses (value position k of the assigned sequence or array goes to element k of the slice), provided that element is specified; every other element of the array keeps its value, unspecified elements stay unspecified, and the shape and the set of specified elements never change. This holds for every format (for Buffer: element assignment), for arrays that are themselves slices, conversions or copies, and in any sequence of assignments.",
     ['inputs', 'histories'],
     'all formats, index expressions, values (sequences or other arrays not sharing storage with the target), and sequences of assignments through any handle',
     'The tests assign a few elements and rows of one full 2x3 array and mostly read back only the assigned element (assigning one element of a COO array used to overwrite all of them unnoticed).',
     [ST, SL],
     [('Storage.__setitem__', ST), ('Buffer.__setitem__', ST), ('slice_indices_and_data_position', ST), ('solve_index', SL)],
     ['all elements of all live arrays before and after'])

prop('C05', 'Views share elements, everything else is independent',
     "Slices of a Strided array, slices of a Buffer, and slices of a DM array that fix no storage dimension or whose storage is dense are views: an assignment through the view or through the original is seen through both, to any depth of slicing. Slices of COO, FlatCOO and CSR arrays, and conversions to another format are independent of their source: no assignment on one side is ever seen on the other.",
     ['histories', 'configurations'],
     'all histories of creating, slicing, converting and assigning over any number of live arrays',
     'No test assigns through a slice and reads the original or the other way round; sharing is a property of histories over several objects.',
     [ST],
     [('Strided.get_slice and Buffer.__getitem__ share the data list', ST), ('DM.__getitem__ keeps the storage', ST), ('get_slice of sparse formats', ST), ('fromobject', ST)],
     ['all elements of every live array after every assignment'],
     [('Buffer.data', 'the list of values shared by views', ST)])

prop('C06', 'Converting between formats preserves the array',
     "as_Buffer, as_Strided, as_COO, as_FlatCOO, as_CSR and as_DM return an array of the requested format with the same shape (as_Buffer: flattened row-major), the same unspecified marker, and the same value at every index as the source, whatever the source's format, shape, sparsity (including no or all elements specified), slicing history or DM parameters. Consequently any chain of conversions preserves the array.",
     ['inputs', 'histories', 'configurations'],
     'all source arrays (fresh, sliced, copied, assigned to), all targets, all conversion chains',
     'test_conversion converts three 2x3 arrays; 1-D, N-D, empty, all-unspecified, sliced and DM sources are not converted.',
     [ST],
     [('as_* methods and fromobject incl. the COO<->FlatCOO and COO->CSR shortcuts', ST), ('compress_indices', ST), ('get_position/solve_index', SL)],
     ['shape, type, unspecified and all elements of the result'])

prop('C07', 'Changing the unspecified marker replaces exactly the marked elements',
     "When an array is built, converted or copied with an explicit unspecified marker, the result reports that marker, each element that equalled the source's marker reads as the new marker, and every other element keeps its value; for sparse results no element equal to the marker is stored after building or converting with an explicit marker. The source keeps its own marker and elements.",
     ['inputs', 'configurations'],
     'all formats, values (falsy values included), and pairs of old and new markers',
     'The tests use only the markers None and 0 on one array; the interaction of old marker, new marker and values that happen to equal either is not explored.',
     [ST],
     [('unspecified argument of fromobject and copy', ST), ('get_unspecified', ST), ('Buffer.copy', ST)],
     ['array.unspecified', 'array[index]', 'stored values'])

prop('C08', 'Sparse arrays are always in canonical form',
     "Every COO, FlatCOO and CSR array produced by the library (built, sliced, converted, copied, or inside a DM array) stores each specified index exactly once, inside the shape and in row-major order, with as many values as indices: COO index columns strictly increase lexicographically, FlatCOO flat indices strictly increase, CSR row pointers start at 0, never decrease, end at the number of values, and column indices strictly increase within each row. The stored indices are exactly those enumerated by elements().",
     ['inputs', 'histories'],
     'all inputs and all histories of operations producing sparse arrays',
     'Lookups silently return the marker when the order is broken, and the tests compare stored indices for two literals only.',
     [ST],
     [('itertools.product order in fromobject', ST), ('sorted(...) in get_slice', ST), ('compress_indices', ST)],
     ['indices, findices, crow_indices, col_indices, data of every sparse array produced'])

prop('C09', 'Dimensions mapping is the documented one-to-one mapping',
     "A DM array over shape S with dimension order and partitioning has a storage array whose k-th dimension is the product of the sizes of the axes in part k, and the element with index i is stored at the storage index whose k-th entry is the row-major position of i restricted to the axes of part k, in their permuted order; this is one-to-one, and promoting a reduced index gives back the original index. After slicing, every element is still found at the storage index given by the array's reduction dimensions, strides and offsets.",
     ['inputs', 'configurations', 'histories'],
     'all shapes, permutations, partitionings and inner formats, all indices, all slices',
     'The tests compare whole arrays for one shape family and a sample of permutations but never where elements are stored (the documented layout).',
     [ST],
     [('make_reduction, reduce_index, promote_index', ST), ('DM.fromobject/DM.__getitem__', ST)],
     ['dm.data, dm.rdimensions, dm.rstrides, dm.roffset', 'reduce_index/promote_index/make_reduction results'])

prop('C10', 'Slice reduction equals Python slicing',
     "For any slice and any axis size (0 included), the reduced slice selects the same items in the same order as the original slice does on a list of that size, its item count is exactly the number of selected items, and the selected positions are start mod size + i*step for i from 0 to count-1, all within the axis.",
     ['inputs'],
     'all sizes, starts, stops, non-zero steps of either sign, and None for each',
     'test_reduced enumerates sizes 1..9 with bounds up to size+10; other sizes, size 0 and bounds or steps far outside are not covered.',
     [SL],
     [('reduced', SL), ('nitems', SL)],
     ['reduced(s, size), nitems(s, size), nitems(reduced, size, reduce=False)'])

prop('C11', 'Index arithmetic addresses the selected elements',
     "For any shape, strides and index expression, the (shape, strides, offset) computed for the indexed array (by index_strided after normalize_index, and by apply_slices directly) is such that offset plus the strided position of result index k is the strided position of the element selected by k, with result shape as in list slicing; normalizing an index does not change what it selects, and shape_strided agrees with the result shape.",
     ['inputs'],
     'all shapes (0 sizes included), strides of any sign, offsets and index expressions',
     'Exercised only through row-major strides of a few shapes; apply_slices, shape_strided and start offsets are not tested at all.',
     [SL],
     [('index_strided, apply_slices, shape_strided, normalize_index', SL)],
     ['results of these functions'])

prop('C12', 'Position lookup inverts strided positions',
     "For a row-major layout of any shape and any slice of it (negative and non-unit steps, fixed axes, empty slices), looking up a position returns the index of the slice element at that position, and None for every position that no element of the slice occupies, whether or not precomputed solver data is passed. get_slice_index, get_index_slice and get_index agree with this inverse.",
     ['inputs'],
     'all row-major layouts and slices of them, all positions inside and outside the slice',
     'test_solve_index tries five slices per axis of seven shapes and only positions that have a solution.',
     [SL, ST],
     [('init_diophantine/solve_index', SL), ('get_slice_index, get_index_slice, get_index', ST)],
     ['solve_index(pos, shape, strides[, data])'])

prop('C13', 'Linear Diophantine solutions are sound and complete',
     "For any non-zero integer coefficients and right-hand side, the solver reports no solution exactly when the gcd of the coefficients does not divide the right-hand side; otherwise the returned particular solution plus any integer combination of the returned basis vectors solves the equation, and every integer solution is such a combination. extgcd returns a common divisor that is the given integer combination of its arguments and is the greatest up to sign.",
     ['inputs'],
     'all coefficient vectors of non-zero integers, right-hand sides and integer combinations',
     'test_diophantine checks soundness for nine coefficient vectors and two solvable right-hand sides; unsolvable equations and completeness are not tested.',
     [SL],
     [('extgcd, _init_diophantine, init_diophantine, diophantine', SL)],
     ['diophantine(a, c)', 'extgcd(a, b)'])

prop('C14', 'Row index compression is exact and reversible',
     "For every sorted list of row indices below the number of rows, the compressed list has rows+1 entries, starts at 0, ends at the number of indices, and consecutive entries enclose exactly the positions of the indices equal to that row; uncompressing returns the original list. Compressing an uncompressed pointer list returns that list, and the stand-alone version in gcs_basics gives the same result.",
     ['inputs'],
     'all sorted index lists and row counts, empty rows anywhere included',
     'test_compress_indices covers nine literals of gcs_basics; gcs.storage.compress_indices is only used on three matrices and uncompress_indices never.',
     [ST, GB],
     [('compress_indices, uncompress_indices', ST), ('compress_indices', GB)],
     ['results of these functions'])

prop('C15', 'elements() enumerates each specified element exactly once',
     "For every array, elements() yields pairs of an index tuple within the shape and the value that reading that index returns, each index at most once; Buffer, Strided and DM arrays enumerate every index in row-major order, COO, FlatCOO and CSR arrays exactly their specified elements in row-major order, and every index not enumerated reads as the unspecified marker. This remains so after any slicing, conversion, copying and assignment.",
     ['inputs', 'histories'],
     'all arrays of all formats and all histories',
     'test_elements enumerates one full 2x3 array; sparse, sliced, 1-D and empty arrays are not enumerated.',
     [ST],
     [('indices_and_data_position of each format', ST), ('elements', ST)],
     ['list(array.elements())', 'array[index]'])

prop('C16', 'Equality reflects array content',
     "a.equal(b) is true exactly when a and b enumerate the same (index, value) pairs, whatever their formats (b may also be a nested sequence), so arrays with every element specified are equal exactly when shape and all elements agree. a == b between arrays of one format implies same shape, same marker and same elements, is true for two built, converted or copied arrays of one format (for DM: one mapping) with the same content, and != is always its negation; comparing changes neither operand.",
     ['inputs', 'histories'],
     'all pairs of arrays, equal or differing in one element, shape or marker, in any formats and from any histories',
     'The tests use equality as their oracle but hardly test that it can be false (reversed slices with the same last element compared equal).',
     [ST],
     [('Storage.equal, __eq__, __ne__', ST), ('Buffer.__eq__, Strided.__eq__', ST), ('_get_object_data', ST)],
     ['a.equal(b), a == b, a != b'])

prop('C17', 'Copies have the same content and share nothing',
     "copy() of any array, including slices, views and DM arrays, returns an array of the same format, shape, marker and elements that compares equal element-wise to its source, and no later assignment to either side, or to any view of either side, is visible on the other side.",
     ['inputs', 'histories'],
     'all arrays and all later histories of assignments',
     'Only Strided.copy of one fresh array is tested, and nothing is assigned after copying.',
     [ST],
     [('Storage.copy, Buffer.copy, Strided.copy', ST)],
     ['elements of copy and source after every later assignment'])

prop('C18', 'Size and fullness report the specified elements',
     "len(a) is the first axis size; the size of a Buffer or Strided array is its number of elements, and of a COO, FlatCOO or CSR array its number of specified elements; is_full() is true exactly when every element of the array is specified (Buffer and Strided arrays, and DM arrays over dense storage, always are). This holds for built, sliced, converted and copied arrays, DM slices included.",
     ['inputs', 'histories'],
     'all arrays from all histories',
     'The tests call is_full on fresh 2x3 arrays only; slices of DM arrays reported the fullness of the whole storage.',
     [ST],
     [('is_full', ST), ('size attribute set by constructors', ST), ('__len__', ST)],
     ['a.size, a.is_full(), len(a), a.shape'])

prop('C19', 'Buffer slices are windows into one shared sequence',
     "A Buffer of size n at offset o over a sequence reads sequence item o+i at index i, where i may go beyond the window in either direction as long as o+i is in the sequence; slicing with start and stop (each taken relative to o, default the window's ends) and step 1 gives the window from o+start to o+stop over the same sequence without copying, and iteration and len cover exactly the window. Reading or assigning an index with o+i at or beyond the end of the sequence, a start outside the sequence, a stop outside 1..len(sequence), or a non-unit step on a non-empty range raises IndexError and changes nothing.",
     ['inputs', 'histories'],
     'all sequences, windows, chains of window slices, element reads and writes through any window',
     'test_Buffer covers one 6-item sequence with a dozen windows; error bounds and writes through windows are untested.',
     [ST],
     [('Buffer.__getitem__/__setitem__/__iter__', ST)],
     ['reads, writes, iteration, size/offset, errors'])

prop('C20', 'Reading, slicing, converting, copying and comparing change nothing',
     "Indexing, slicing, enumerating, converting, copying, comparing and printing arrays never change the shape, marker, specified indices or elements of any array, whether an operand of the operation or not, nor the nested sequence an array is built from or a list of index items; repeating such an operation gives the same result.",
     ['histories', 'inputs'],
     'all histories of non-assigning operations over any set of live arrays',
     'Tests discard operands after use; unintended aliasing or caching effects show only when all live arrays are observed after each operation.',
     [ST],
     [('fresh Buffers in get_slice/fromobject/copy', ST), ('strides cache', ST)],
     ['all live arrays before and after every operation', 'the source sequence'])

prop('C21', 'gcs_basics reduction and promotion are mutually inverse',
     "For every shape, permutation and partitioning, the metadata of gcs_basics describes the documented mapping (parts, their shapes, row-major strides and products), reduction maps each index to the documented reduced index, promotion(reduction(i)) is i for each index and reduction(promotion(r)) is r for each reduced index, so the mapping is one-to-one; it is the same mapping that DM arrays use.",
     ['inputs', 'configurations'],
     'all shapes, permutations, partitionings and indices',
     'The tests check one direction of the round trip for nine shapes; a consistent but wrong pair of maps, other shapes and the agreement with gcs.storage are not tested.',
     [GB, ST],
     [('create_reduction_metadata, reduction, promotion', GB), ('make_reduction, reduce_index, promote_index', ST)],
     ['results of these functions'])

prop('C22', 'Sparse position lookup finds exactly the stored indices',
     "Looking up an index in sorted COO, FlatCOO or CSR index arrays returns the position at which that index is stored if it is stored, and None otherwise, for every index within the shape, any number of dimensions, and any set of stored indices (empty, one, all, empty rows, last row).",
     ['inputs'],
     'all sets of stored indices, all looked-up indices',
     'Lookups are tested through one 3-element and full 2x3 matrices; 1-D, N-D, empty and long index lists are not probed for absent indices.',
     [ST],
     [('get_coo_position, get_flatcoo_position, get_csr_position', ST)],
     ['results of these functions', 'array[index]'])

prop('C23', 'Requests without an answer are rejected and change nothing',
     "Reading or assigning with an index that has a surplus integer or slice, an item that is neither an integer, a slice nor None, or an integer for an axis of size zero; reading or assigning a Buffer outside of its sequence, or assigning a range of it; converting an array of n axes to DM with n or fewer dimensions that are not a permutation of its axes, or with a partitioning that is not in increasing order or not inside 1..n-1, or to CSR from an array that has not two axes; constructing an array whose index arrays, strides, mapping or window do not fit its shape and values; and building one from a nested sequence in which a row is shorter than the first: each of these raises an exception. It returns no array, and afterwards every array has the elements it had, also when the request was an assignment.",
     ['inputs', 'histories'],
     'all arrays of all formats and histories, all such requests at any point of a history',
     'No test makes a request that has to fail except a dozen Buffer windows; that nothing is left half-changed needs a look at all live arrays after the exception.',
     [ST, SL],
     [('normalize_index, index_strided', SL), ('__setitem__ of Storage and Buffer', ST), ('DM.fromobject, __init__ of each format', ST), ('get_value', ST)],
     ['the exception', 'all live arrays before and after the request'])

if __name__ == '__main__':
    for p in P:
        print(json.dumps(p))
