# The property table: harness modules, entries per tier, bounds.
MINI = ('LibTorch is replaced by the mini torch of /verif/minitorch (strided tensors of exact reals); it passes the '
        "repository's own doctests that do not need autograd or dispatch")
REALS = 'tensor elements are exact reals: floating point rounding is outside the model'
HARNESS = {
    'q': dict(src=['q.cpp'], repo=['any_quantity', 'groups'], assumptions=['allocation never fails']),
    'f': dict(src=['f.cpp'], repo=['dimension_manip'], assumptions=['allocation never fails']),
    'b1': dict(src=['b1.cpp'], repo=['btensor', 'any_quantity', 'groups', 'dimension_manip'], assumptions=['allocation never fails', MINI, REALS]),
    'b2': dict(src=['b2.cpp'], repo=['btensor', 'any_quantity', 'groups', 'dimension_manip', 'tensorgdot'], assumptions=['allocation never fails', MINI, REALS]),
    'b3': dict(src=['b3.cpp'], repo=['btensor', 'any_quantity', 'groups', 'dimension_manip'], assumptions=['allocation never fails', MINI, REALS]),
    'm1': dict(src=['m1.cpp'], repo=['btensor', 'any_quantity', 'groups', 'dimension_manip', 'LinearAlgebra', 'btensor_linalg'], assumptions=['allocation never fails', MINI, REALS]),
    'm2': dict(src=['m2.cpp'], repo=['btensor', 'any_quantity', 'groups', 'dimension_manip', 'LinearAlgebra', 'btensor_linalg', 'MPT', 'dmrg', 'dmrg_logger', 'dmrg_options'], assumptions=['allocation never fails', MINI, REALS]),
    'm3': dict(src=['m3.cpp'], repo=['btensor', 'any_quantity', 'groups', 'dimension_manip', 'LinearAlgebra', 'btensor_linalg', 'MPT', 'dmrg_logger', 'dmrg_options'], assumptions=['allocation never fails', MINI, REALS]),
    'm4': dict(src=['m4.cpp'], repo=['btensor', 'any_quantity', 'groups', 'dimension_manip', 'LinearAlgebra', 'btensor_linalg', 'MPT', 'dmrg', 'dmrg_logger', 'dmrg_options'], assumptions=['allocation never fails', MINI, REALS]),
}
PROPS = {}


def prop(pid, harness, quick, thorough=(), **kw):
    PROPS[pid] = dict(harness=harness, quick=list(quick), thorough=list(thorough), **kw)


prop('Q01', 'q', ['q01_cyclic:%d' % i for i in range(22)] + ['q01_residue:%d' % i for i in range(22)] +
     ['q01_order:%d' % i for i in range(4)] + ['q01_integers'],
     bounds='22 moduli from 1 to 65535 instantiated as C<N>; all 16 bit operand values as solver variables; pairs and triples of values',
     outside='moduli not instantiated; integer quantities near the overflow of their 16 bit representation')
prop('Q02', 'q', ['q02_composite:0', 'q02_composite:1', 'q02_erased:0', 'q02_erased:1', 'q02_order:0', 'q02_order:1',
                  'q02_distance:0,0', 'q02_distance:0,1', 'q02_distance:0,2', 'q02_distance:0,3',
                  'q02_distance:1,0', 'q02_distance:1,1', 'q02_distance:1,2', 'q02_distance:1,3'],
     bounds='composites of two components (two concrete types), component values as 16 bit solver variables (distance: narrower ranges)',
     outside='composites of more than three components')
prop('Q03', 'q', ['q03_mixing:%d' % i for i in range(4)] + ['q03_assign:%d' % i for i in range(3)] + ['q03_vectors:0', 'q03_vectors:1'],
     bounds='pairs of distinct concrete types out of those instantiated, all component values; collections up to 3 elements',
     outside='other concrete types, longer collections')
prop('Q04', 'q', ['q04_quantity:0', 'q04_quantity:1', 'q04_vector'],
     bounds='all component values, collections of length 0 to 3 and default constructed ones', outside='longer collections')
prop('Q05', 'q', ['q05_sequence:3,2', 'q05_permute:3', 'q05_sort:3', 'q05_sort:4'],
     ['q05_sequence:3,3', 'q05_permute:4', 'q05_sort:5'],
     bounds='sequences of 2 (thorough 3) arbitrary operations on collections of up to 3 elements; all permutations of 3 (4)',
     outside='longer operation sequences and collections')
def grid(name, *ranges):
    """entries name:i,j,.. over the product of the ranges"""
    import itertools
    return [name + ':' + ','.join(map(str, t)) for t in itertools.product(*ranges)]


prop('F01', 'f', grid('f01_construct', range(4), range(5)) + ['f01_large:20,0', 'f01_large:20,1', 'f01_sequence:0,2', 'f01_sequence:2,1', 'f01_sequence:3,1',
                                                            'f01_sequence:1,2'],
     grid('f01_construct', [4], range(5)) + ['f01_sequence:2,2', 'f01_sequence:4,1', 'f01_sequence:0,3'],
     bounds='maps of up to 3 (thorough 4) entries with arbitrary 16 bit keys, 1 or 2 (3) further operations out of 15 kinds with arbitrary key, value and hint; one list of 20 entries with one arbitrary key',
     outside='longer histories; keys of another type than int; erasing while iterating; insert_or_assign/try_emplace (never instantiated in the repository, do not compile)')
prop('F02', 'f', grid('f02_merge', range(3), range(3), range(10)) + grid('f02_merge', [3], [3], [0, 2, 6, 9]) + ['f01_large:20,1'],
     grid('f02_merge', [3], [3, 4], [0, 1, 2, 3, 4, 5, 6, 7, 8]) + grid('f02_merge', [4], [3, 4], [0]),
     bounds='destination and added list of up to 3 (thorough 4) entries with arbitrary 16 bit keys and real values, all interleavings and collisions; each merge form',
     outside='longer lists')
prop('D01', 'f', grid('d01_lists', range(5)) + grid('d01_prod', range(5)) + grid('d01_concat', range(4), range(4), range(3)),
     ['d01_lists:7', 'd01_prod:6'],
     bounds='lists of up to 4 (thorough 7) arbitrary 64 bit dimensions; products of dimensions from 0 to 20', outside='longer lists')
prop('B01', 'b1', grid('b01_block', [0, 1, 9], [0, 1]) + ['b01_block:2,0', 'b01_block:8,2', 'b01_rule:2,1', 'b01_rule:3,0', 'b01_rule:4,2', 'b01_rule:5,0',
                   'b01_check:1,0', 'b01_check:2,1', 'b01_check:8,2'],
     ['b01_block:2,1', 'b01_block:3,0', 'b01_block:4,2', 'b01_check:3,0', 'b01_check:5,1', 'b01_rule:6,1', 'b01_rule:7,2'],
     bounds='layouts of rank 0 to 3 (thorough 4) with up to 3 sections of size 0 to 3 per dimension; every label and selection rule of Z (16 bit), C<2>xZ and C<5> a solver variable; each allowed block present or not; every block index from one below to one past the range, and of rank one more or less',
     outside='higher rank, more sections; validity of the result of each other operation is asserted by the checks of those operations')
prop('B02', 'b1', ['b02_coordinates:1,0', 'b02_coordinates:2,0', 'b02_coordinates:2,1', 'b02_coordinates:8,2', 'b02_coordinates:4,0', 'b02_coordinates:1,2,1',
                   'b02_coordinates:2,0,1', 'b02_ranges:0,0', 'b02_ranges:1,1', 'b02_ranges:2,0', 'b02_ranges:4,0', 'b02_ranges:3,2'],
     ['b02_coordinates:3,0', 'b02_coordinates:5,1', 'b02_coordinates:6,0', 'b02_coordinates:4,0,1', 'b02_ranges:5,0', 'b02_ranges:6,1', 'b02_ranges:10,0'],
     bounds='up to rank 2 (thorough 4) and 3 sections per dimension; section sizes up to 1000, labels and the element position as solver variables; pairs of positions for injectivity',
     outside='section sizes above 1000; more sections')
prop('B03', 'b1', grid('b03_to_dense', [0, 1, 9, 10], [0], [0, 1], [0]) + ['b03_to_dense:2,1,1,1', 'b03_to_dense:3,0,0,1', 'b03_to_dense:9,2,0,0', 'b03_from_dense:0,0,0,0', 'b03_from_dense:1,0,0,0',
                   'b03_from_dense:2,1,1,1', 'b03_from_dense:2,0,0,0', 'b03_from_dense:3,2,0,1', 'b03_from_dense:10,0,0,0', 'b03_rule:8,0', 'b03_rule:9,1'],
     ['b03_rule:2,0', 'b03_to_dense:4,0,0,0', 'b03_to_dense:5,1,1,0', 'b03_from_dense:4,0,1,0', 'b03_from_dense:5,2,0,1'],
     bounds='layouts of rank 0 to 3 with up to 3 sections; labels, rule and every element (exact real) solver variables; each allowed block present or not; contiguous and transposed blocks; the two cutoffs used; for the selection rule search every zero pattern of a matrix',
     outside='the magnitude of the default cutoff: blocks below 1e-15 may be dropped; floating point rounding')
prop('B10', 'b1', ['b10_product:1,1,0', 'b10_product:0,1,0', 'b10_product:2,1,1', 'b10_extract:1,0,0', 'b10_extract:2,0,0', 'b10_extract:1,1,1', 'b10_extract:0,0,0', 'b10_extract:9,1,1',
                   'b10_labels:0,0,0', 'b10_labels:0,0,1', 'b10_labels:1,0,0', 'b10_labels:1,0,1', 'b10_labels:1,1,1', 'b10_labels:2,0,0', 'b10_labels:2,0,1', 'b10_labels:3,2,0',
                   'b10_copy:0,0', 'b10_copy:1,0', 'b10_copy:2,1'],
     ['b10_extract:3,0,0', 'b10_extract:2,1,1', 'b10_product:3,2,0', 'b10_product:2,2,2', 'b10_labels:3,0,1', 'b10_labels:4,1,1', 'b10_copy:3,2', 'b10_copy:4,0'],
     bounds='layouts of rank 0 to 3 with up to 3 sections; labels, rule, shift and elements solver variables; each allowed block present or not; each dimension',
     outside='higher rank')
prop('B14', 'b1', ['b14_filled:0,0', 'b14_filled:1,1', 'b14_filled:2,0', 'b14_filled:9,2', 'b14_filled:10,0', 'b14_randint:1,0', 'b14_randint:2,1', 'b14_eye:1,0,0', 'b14_eye:1,0,1', 'b14_eye:1,1,2', 'b14_eye:1,2,0'],
     ['b14_filled:3,2', 'b14_filled:4,0', 'b14_randint:3,0', 'b14_randint:0,0', 'b14_eye:4,0,0', 'b14_eye:4,1,1', 'b14_eye:4,0,2'],
     bounds='layouts of rank 0 to 3 with up to 3 sections; labels, rule, fill value and every random draw solver variables',
     outside='the distribution of the random values')
prop('B04', 'b2', ['b04_permute:0,0,1,0', 'b04_permute:2,0,1,0', 'b04_permute:3,0,1,0', 'b04_permute:2,1,1,1', 'b04_permute:9,2,0,1', 'b04_permute:3,2,1,1', 'b04_transpose:2,1,1', 'b04_transpose:3,0,0',
                   'b04_transpose:9,0,0'],
     ['b04_permute:5,0,1,0', 'b04_permute:4,1,1,0', 'b04_permute:6,2,0,1', 'b04_transpose:4,1,1', 'b04_permute:8,0,1,1', 'b04_permute:10,0,1,0'],
     bounds='layouts of rank 0 to 3 (thorough 4) with up to 3 sections; every permutation, with negative positions too; labels, rule and elements solver variables; each allowed block present or not',
     outside='higher rank')
prop('B05', 'b2', ['b05_tensordot:1,1,11,0', 'b05_tensordot:1,2,11,0', 'b05_tensordot:2,2,11,0', 'b05_tensordot:2,2,1,1', 'b05_tensordot:2,1,0,0', 'b05_tensordot:3,2,1,2', 'b05_tensordot:0,2,0,2', 'b05_tensordot:2,0,0,0',
                   'b05_tensordot:2,2,12,0', 'b05_compat:2,2,0', 'b05_compat:1,2,1', 'b05_compat:1,1,2'],
     ['b05_tensordot:2,3,2,0', 'b05_tensordot:3,3,2,0', 'b05_tensordot:3,2,1,1', 'b05_tensordot:4,2,1,0', 'b05_tensordot:10,2,1,0', 'b05_compat:2,3,2'],
     bounds='operands of rank 0 to 3 with 2 sections per dimension of size 0 to 2; every choice and order of the contracted dimensions; labels, rules and elements (exact reals) solver variables; each allowed block present or not (filled where noted); for rejection every change of one label, of the sizes or the whole dimension',
     outside='higher rank; floating point rounding')
prop('B07', 'b2', ['b07_join:0,0,0', 'b07_join:3,0,0', 'b07_join:5,0,0', 'b07_join:4,1,1', 'b07_join:2,2,1', 'b07_regroup:3,0', 'b07_regroup:2,1', 'b07_regroup:9,2', 'b07_template:2,1,0,0', 'b07_template:3,2,0,1'],
     ['b07_regroup:5,0', 'b07_template:2,0,1,1', 'b07_join:6,0,1', 'b07_join:10,0,0', 'b07_regroup:6,2', 'b07_template:9,0,0,0'],
     bounds='layouts of rank 1 to 3 (thorough 4) with up to 3 sections; every grouping of neighbouring dimensions; templates with arbitrary labels and rule; labels, rule and elements solver variables; each allowed block present or not',
     outside='empty groups; higher rank')
prop('B09', 'b2', ['b09_slice:2,0,0', 'b09_slice:2,0,1', 'b09_slice:2,0,2', 'b09_slice:3,2,0', 'b09_slice:9,1,3', 'b09_slice:9,0,2', 'b09_slice:1,0,2', 'b09_slice:1,0,3', 'b09_reject:3,0', 'b09_reject:2,1'],
     ['b09_slice:2,0,3', 'b09_slice:5,0,0', 'b09_slice:5,2,2', 'b09_slice:3,0,2', 'b09_reject:5,1', 'b09_slice:10,0,2', 'b09_slice:4,1,1'],
     bounds='layouts of rank 1 to 3 with up to 3 sections; every combination of positions from two below zero to one past the range, or the whole dimension; labels, rule and elements (of the tensor and of the assigned one) solver variables; each allowed block present or not',
     outside='higher rank')
prop('T01', 'b2', ['t01_accumulate:2,2,1,0', 't01_accumulate:2,2,1,1', 't01_accumulate:3,2,1,1', 't01_accumulate:3,3,2,0', 't01_accumulate:2,3,2,1', 't01_accumulate:1,1,1,0', 't01_accumulate:2,2,0,0', 't01_accumulate:2,2,2,1',
                   't01_accumulate:1,3,1,1', 't01_reject:0'],
     ['t01_accumulate:4,3,2,1', 't01_accumulate:4,4,3,0', 't01_accumulate:3,3,1,1', 't01_accumulate:4,3,1,1'],
     bounds='dense operands of rank 1 to 3 (thorough 4) with sizes 1 to 3; every choice and order of the contracted dimensions; contiguous and transposed memory layouts; elements and both factors solver variables',
     outside='higher rank; libtorch kernels themselves (matrix product and reshape are the model in minitorch); floating point rounding')
prop('B06', 'b3', ['b06_add:1,0,1', 'b06_add:2,0,0', 'b06_add:9,1,1', 'b06_add:0,2,1', 'b06_add:3,2,0', 'b06_add_scalar:1,0', 'b06_add_scalar:9,1', 'b06_add_reject:2,0', 'b06_add_reject:1,2', 'b06_scalar:1,0',
                   'b06_scalar:9,2', 'b06_scalar:2,0'] + grid('b06_broadcast', range(18), [0], [0], [0]) + ['b06_broadcast:2,1,1,0', 'b06_broadcast:0,0,1,0', 'b06_broadcast:5,2,1,0', 'b06_broadcast:15,0,1,0', 'b06_broadcast:2,0,1,1',
                   'b06_broadcast:3,0,0,1', 'b06_broadcast:13,0,0,1', 'b06_broadcast:1,0,0,2', 'b06_broadcast:2,0,0,2', 'b06_broadcast:7,0,0,1'],
     ['b06_add:2,0,1', 'b06_add:5,0,0', 'b06_add_scalar:2,0', 'b06_broadcast:1,0,1,0', 'b06_broadcast:3,0,1,0', 'b06_broadcast:16,0,1,0', 'b06_broadcast:17,0,1,0', 'b06_broadcast:1,0,1,1', 'b06_broadcast:16,0,1,1'],
     bounds='layouts of rank 0 to 3 with up to 3 sections; 18 pairs of layouts for broadcasting (equal ranks, lower rank on either side, size one dimensions on either or both sides, sizes that do not fit); labels, rules, elements, factors solver variables; each allowed block present or not (or all present); every operator and in place form',
     outside='quotient and power where the right operand has no block (dense answer is not a number); non integer powers; element types other than floating point; floating point rounding')
prop('B08', 'b3', ['b08_operations:2,0,0', 'b08_operations:9,1,1', 'b08_operations:1,0,1', 'b08_operations:0,0,1', 'b08_operations:3,2,0', 'b08_observers:2,0,0', 'b08_observers:0,0,1', 'b08_observers:3,2,0', 'b08_observers:1,1,1'],
     ['b08_operations:2,0,1', 'b08_operations:5,0,0', 'b08_operations:4,2,0', 'b08_observers:2,1,1', 'b08_observers:5,0,0'],
     bounds='27 operations on block tensors of rank 0 to 3 with up to 3 sections; operands that share memory with a copy; labels, rule and elements solver variables; the other checks assert the same of the operands of the operation they cover',
     outside='autograd versions of the in place operations; higher rank')
prop('B11', 'b3', ['b11_bmm:1,0,50,0', 'b11_bmm:1,0,20,0', 'b11_bmm:1,0,51,0', 'b11_bmm:2,0,50,0', 'b11_bmm:4,0,70,0', 'b11_bmm:1,0,72,1', 'b11_bmm:0,0,0,1', 'b11_bmm:0,0,51,1', 'b11_bmm:1,0,52,1', 'b11_bmm:0,0,1,0',
                   'b11_bmm:2,2,61,0', 'b11_bmm:0,0,0,0', 'b11_bmm:3,1,50,0', 'b11_bmm:5,2,0,0', 'b11_rank:0,2', 'b11_rank:0,0'],
     ['b11_bmm:1,0,10,0', 'b11_bmm:1,0,10,1', 'b11_bmm:1,0,40,0', 'b11_bmm:3,1,0,0', 'b11_bmm:0,0,1,1', 'b11_bmm:4,0,71,0', 'b11_bmm:1,0,21,0'],
     bounds='rank 2 to 4: no batch dimension, one or two with up to two sections each; matrix dimensions of one or two sections of size 1 and 2; labels, rules and elements solver variables; each allowed block present or not (or all present); every single change of a label, size or section count that makes the shapes differ',
     outside='higher rank, more sections; floating point rounding')
prop('B13', 'b3', ['b13_sum:2,0', 'b13_sum:0,0', 'b13_sum:3,1', 'b13_sum:10,0', 'b13_compare:1,0', 'b13_compare:9,1', 'b13_compare:0,0', 'b13_compare2:1,0', 'b13_compare2:9,1', 'b13_allclose:1,0', 'b13_allclose:9,1', 'b13_allclose:0,0',
                   'b13_squeeze:0,0,0', 'b13_squeeze:1,1,0', 'b13_squeeze:2,0,1', 'b13_squeeze:3,2,1', 'b13_squeeze:4,0,1', 'b13_squeeze:5,0,0', 'b13_squeeze:6,0,0', 'b13_power:1,0', 'b13_power:9,0,1'],
     ['b13_compare:2,0', 'b13_compare2:2,0', 'b13_power:2,0', 'b13_allclose:2,0', 'b13_sum:5,0', 'b13_squeeze:3,0,0'],
     bounds='layouts of rank 0 to 3 with up to 3 sections; labels, rule, elements and bounds solver variables; each allowed block present or not; comparisons judged at the elements of present blocks',
     outside='NaN and infinities (elements are reals); comparisons where no block is present; other powers than 1, 2, 3 and 1/2')
prop('L01', 'm1', grid('l01_index', range(4), [1, 2], [0, 2]) + grid('l01_truncate', range(4), [1, 2]) + ['l01_eigh:1,1', 'l01_eigh:2,1', 'l01_eigh:3,2'],
     grid('l01_index', [4], [1, 2], [0, 2]) + grid('l01_index', [2, 3], [1, 2], [3]) + ['l01_truncate:4,1', 'l01_truncate:4,2', 'l01_index:5,1,0', 'l01_eigh:3,1', 'l01_eigh:4,1'],
     bounds='0 to 3 (thorough 5) values, up to two (thorough 3) batched spectra; powers 1 and 2; values, tolerance and elements of the factors exact reals; minimum and maximum every integer up to one above the number of values, and no maximum',
     outside='floating point rounding of the accumulated weight; other powers')
prop('L02', 'm4', grid('l02_dense_svd', range(5), [1], [0, 1]) + ['l02_dense_svd:3,2,0', 'l02_dense_svd:4,2,1', 'l02_dense_svd:5,1,0', 'l02_dense_svd:6,2,1', 'l02_dense_svd:7,1,1'] + grid('l02_dense_eigh', [0, 1, 2, 8], [0], [0, 1]) +
     ['l02_svd:0,0,1,1', 'l02_svd:1,1,1,0', 'l02_svd:2,0,1,1', 'l02_svd:3,2,1,1', 'l02_svd:4,0,1,0', 'l02_svd:4,2,2,1', 'l02_svd:5,0,2,0', 'l02_svd:6,2,1,1', 'l02_svd:7,2,2,0', 'l02_svd:9,2,1,0', 'l02_svd:9,0,2,0'] +
     ['l02_eigh:0,0,1', 'l02_eigh:0,1,0', 'l02_eigh:2,0,0', 'l02_eigh:2,2,0', 'l02_eigh:3,2,0', 'l02_eigh:4,0,1', 'l02_eigh:4,2,1', 'l02_eigh:5,0,1', 'l02_eigh:7,0,0'] +
     ['l02_batch:0,0,0,1', 'l02_batch:1,2,0,0', 'l02_batch:2,0,0,1', 'l02_batch:3,2,0,0', 'l02_batch:0,2,1,1', 'l02_batch:2,0,1,0', 'l02_type:0', 'l02_type:1', 'l02_type:2', 'l02_null:0,0,1', 'l02_null:1,1,1', 'l02_null:4,0,2', 'l02_null:2,2,1'],
     ['l02_svd:4,0,1,1', 'l02_svd:8,2,1,1', 'l02_svd:8,0,1,0', 'l02_svd:7,0,1,0', 'l02_svd:7,2,3,0', 'l02_batch:1,0,0,1', 'l02_eigh:4,0,0', 'l02_eigh:6,2,0', 'l02_eigh:5,2,1'],
     bounds='dense tensors of rank 2 to 4 with up to 6 rows or columns, split after the first or second dimension, contiguous or transposed; block tensors of rank 2 to 4 with up to 3 sections per dimension of size 1 and 2, split anywhere, batched too, each allowed block present or not (or all); symmetric block matrices and rank 4 tensors; labels, selection rule and elements solver variables (exact reals). The dense kernel is any that obeys its contract: the factors multiply to the matrix given and are isometric',
     outside='eigenproblem with one only of a pair of transposed blocks; full singular value decomposition (some=false); complex elements; floating point rounding; the dense kernel itself (N02)')
prop('M02', 'm4', ['m02_dense:0,0,0'] + ['m02_dense:%d,%d,%d,%d' % (c, f, 1 - f, s) for c in (1, 2, 4, 9) for f, s in ((0, 0), (1, 1))] + ['m02_dense:5,0,1', 'm02_dense:5,1,2,1', 'm02_dense:5,2,1,1', 'm02_dense:5,1,0', 'm02_dense:5,1,1'] +
     ['m02_dense:6,%d,%d' % (f, t) for f in range(3) for t in range(3)] + ['m02_dense:8,0,3', 'm02_dense:8,3,0', 'm02_dense:8,1,3', 'm02_dense:8,2,0'] +
     ['m02_block:0,0,0,1', 'm02_block:1,1,0', 'm02_block:1,10,1', 'm02_block:2,1,0', 'm02_block:2,10,2', 'm02_block:3,1,2', 'm02_block:3,10,0,1', 'm02_block:4,1,2', 'm02_block:4,10,0', 'm02_block:7,1,0', 'm02_block:7,10,2', 'm02_block:9,1,2', 'm02_block:9,10,0', 'm02_block:5,1,2', 'm02_block:5,21,2'] +
     ['m02_block:6,%d%d,%d,%d' % (f, t, 0 if f < t else 2, f != t) for f in range(3) for t in range(3)] + ['m02_block:8,3,2', 'm02_block:8,30,2'] +
     grid('m02_refuse', [0, 1], [0], [0]) + grid('m02_refuse', [0, 1], [1], [0]) + grid('m02_refuse', [0, 1], [3], [0, 2]),
     ['m02_block:2,1,0,1', 'm02_block:4,10,0,1', 'm02_block:5,12,2', 'm02_block:5,10,2', 'm02_block:7,1,2,1'],
     bounds='one step in either direction: dense chains of 2 and 3 sites with bonds of up to 2, block chains of 2 and 3 sites with bonds of up to two sections of size 1 or one of size 2, each allowed block present or not; several steps: chains of 3 and 4 sites with bonds of 1, every pair of centres for 3; elements, labels and selection rules solver variables (exact reals); every 32 bit integer outside the chain',
     outside='several steps at once over wider bonds (each step is covered alone); complex elements; floating point rounding; the dense kernel itself (N02)')
prop('L03', 'm1', ['l03_svd:0,0,1,2', 'l03_svd:3,0,1,2', 'l03_svd:1,0,1,2', 'l03_svd:5,1,2,2', 'l03_svd:4,0,1,0', 'l03_svd:0,2,2,2', 'l03_eigh:0,0,1,2', 'l03_eigh:3,0,1,2', 'l03_eigh:1,1,2,2',
                   'l03_full:0,0,1,0', 'l03_full:1,0,2,0', 'l03_full:0,0,1,1', 'l03_full:2,1,1,1'],
     ['l03_svd:2,0,1,2', 'l03_svd:0,0,1,0', 'l03_svd:0,1,1,1', 'l03_eigh:0,1,1,0', 'l03_eigh:2,0,1,2', 'l03_full:2,0,2,0'],
     bounds='bonds of up to 3 sections with up to 3 values in total (also none); labels, rules, values, tolerance, elements of the factors solver variables (exact reals); minimum and maximum every integer up to one above the number of values, and no maximum; the dense kernels give arbitrary values and factors',
     outside='distinct values closer than one part in a thousand (which of them count as equal is decided at working precision); values above 1e300; floating point rounding; values of a tensor without any block (its decomposition is covered by L02)')
prop('M01', 'm2', ['m01_dense:0,0,0,0', 'm01_dense:0,2,1,0', 'm01_dense:1,1,0,0', 'm01_dense:1,0,1,0', 'm01_dense:2,0,0,0', 'm01_dense:2,2,0,0', 'm01_dense:2,1,1,0', 'm01_dense:2,3,1,0', 'm01_dense:2,3,0,0', 'm01_dense:2,2,1,0', 'm01_dense:3,1,0,0', 'm01_dense:3,0,1,0',
                   'm01_block:0,0,0,0', 'm01_block:0,2,1,0', 'm01_block:1,1,0,0', 'm01_block:1,3,1,1', 'm01_block:2,0,0,0', 'm01_block:2,0,1,10', 'm01_block:2,1,0,12', 'm01_block:2,2,0,10', 'm01_block:2,3,0,11', 'm01_block:2,2,1,10', 'm01_block:2,3,1,10', 'm01_block:2,1,1,10', 'm01_block:3,2,1,10', 'm01_block:3,0,0,10',
                   'm01_fill:0,0', 'm01_fill:0,1', 'm01_fill:1,0,0', 'm01_fill:1,1,0', 'm01_fill:1,0,1', 'm01_other:0', 'm01_operations:0', 'm01_operations:1', 'm01_operations:2', 'm01_operations:3'],
     ['m01_block:2,0,0,1', 'm01_block:2,0,1,1', 'm01_block:2,0,1,0', 'm01_block:2,1,0,2', 'm01_block:2,2,0,0', 'm01_block:2,3,0,0', 'm01_block:2,2,1,0', 'm01_block:2,3,1,0', 'm01_block:2,1,1,0', 'm01_dense:3,0,0,0', 'm01_dense:3,2,0,0', 'm01_dense:3,3,1,0', 'm01_fill:1,1,1'],
     bounds='chains of 0 to 3 dense and block tensors (three block tensors: a reduced set of shapes) built in each of the four ways (list, vector, generic network, moved generic network), filled chains of 0 to 3; ranks one below, equal and one above; bonds of size 1 or 2, block bonds of one section of 1 or 2 or two sections; labels solver variables; centre every 64 bit integer; one sequence of every container operation with symbolic contents',
     outside='longer chains; tensors never initialised')
prop('M03', 'm2', ['m03_dense:1,0,0,0', 'm03_dense:1,1,1,1', 'm03_dense:2,11,0,0', 'm03_dense:2,12,1,0', 'm03_dense:2,12,2,0', 'm03_dense:2,33,3,1', 'm03_dense:2,33,0,0', 'm03_dense:2,33,0,1', 'm03_dense:2,33,3,0', 'm03_dense:3,12,2,1', 'm03_dense:3,12,0,0',
                   'm03_block:0,0,0,0', 'm03_block:0,0,0,1', 'm03_block:0,0,1,0', 'm03_block:0,0,1,1', 'm03_block:0,1,0,1', 'm03_block:1,0,0,0', 'm03_block:1,0,1,0', 'm03_block:1,1,0,1', 'm03_block:2,0,0,0', 'm03_block:2,0,0,1', 'm03_block:2,0,1,0',
                   'm03_block:3,0,0,0', 'm03_block:3,0,0,1', 'm03_block:4,0,1,0', 'm03_block:6,0,0,0', 'm03_block:6,0,1,2', 'm03_block:5,0,0,2'],
     ['m03_dense:4,12,2,0', 'm03_dense:4,11,3,1', 'm03_block:2,0,1,1', 'm03_block:0,1,1,2', 'm03_block:0,1,0,0', 'm03_block:5,0,0,0', 'm03_block:5,0,1,0', 'm03_block:6,0,1,0', 'm03_block:1,2,1,0'],
     bounds='dense chains of 1 to 3 (thorough 4) sites, bonds of 1 to 2, physical sizes 1 and 2; block chains of 1 to 3 sites, bonds of up to 2 sections; every tensor element, label and selection rule a solver variable; given edges arbitrary, default edges for outer bonds of one element (any label) or with the same labels in both states',
     outside='complex elements; longer chains; floating point rounding')
prop('R01', 'm3', ['r01_dense:2,0,0,0', 'r01_dense:2,3,3,1', 'r01_dense:3,1,2,1', 'r01_dense:3,0,1,2', 'r01_dense:4,2,2,1', 'r01_dense:4,1,1,3', 'r01_dense:3,3,1,0',
                   'r01_block:0,0,0', 'r01_block:1,0,1', 'r01_block:2,0,0', 'r01_block:2,2,1', 'r01_block:4,0,0', 'r01_block:5,2,1', 'r01_block:5,0,2', 'r01_block:6,0,1', 'r01_block:6,2,0'],
     ['r01_dense:4,3,3,2', 'r01_dense:5,1,1,2', 'r01_dense:5,0,2,4', 'r01_dense:4,3,1,0', 'r01_block:1,1,0', 'r01_block:2,1,1', 'r01_block:6,1,1', 'r01_block:5,1,0'],
     bounds='dense chains of 2 to 4 (thorough 5) sites, bonds of 1 to 2 (dense outer ones too), physical sizes 1 and 2; block chains of 1 to 3 sites, bonds of up to 2 sections; every element, label and selection rule a solver variable; every centre among the entries',
     outside='complex elements; longer chains; floating point rounding')
prop('R02', 'm3', ['r02_dense:%d,0' % i for i in range(8)] + ['r02_dense:0,1', 'r02_dense:4,1'] + ['r02_block:%d,0,0,0' % i for i in range(8)] + ['r02_block:%d,0,1,1' % i for i in range(7)] + ['r02_block:4,1,2,1'] +
     ['r02_update:0,2,0', 'r02_update:0,2,1', 'r02_update:1,2,1', 'r02_update:2,2,0', 'r02_update:3,2,0', 'r02_update:4,2,0', 'r02_update:1,3,0', 'r02_update:3,3,1', 'r02_update:4,3,2', 'r02_update:0,2,-1'] +
     ['r02_update_block:0,%d,%d' % (m, s) for m in (0, 1, 2, 4, 7, 8, 15) for s in (0, 1)] + ['r02_update_block:2,5,0', 'r02_update_block:2,11,1', 'r02_update_block:1,15,2'],
     ['r02_update:1,3,-1', 'r02_update_block:2,3,2', 'r02_update_block:0,6,2', 'r02_update_block:0,7,2', 'r02_update_block:1,7,0'],
     bounds='two-level problems: every real a0, a1, b, each of them zero or (block) absent too; updates: every symmetric effective operator of 2 or 3 states on the left site, the right site, both, or an edge; block: two sites with two labelled states each (labels and elements solver variables), every combination of absent and present blocks; the states are basis states, of which every other normalised state is a rotation; real arithmetic',
     outside='complex elements; larger effective operators; all three numbers of a block two-level problem absent (the update never asks for it); floating point rounding')
prop('R03', 'm3', ['r03_dense:%d,%d,%d,%d' % (n, c, i, m) for n in (2, 3, 4, 5) for c in range(n) for i, m in ((1, 0), (2, 1))] + ['r03_dense:2,0,0,0', 'r03_dense:3,2,0,1', 'r03_dense:3,1,3,0', 'r03_dense:4,0,3,1', 'r03_dense:4,3,1,2', 'r03_dense:5,1,1,3'] +
     ['r03_block:%d,%d,%d,%d' % (n, c, i, m) for n in (2, 3, 4) for c in range(n) for i, m in ((1, 0), (2, 4))] + ['r03_block:4,3,1,5', 'r03_block:5,2,2,0', 'r03_block:5,2,2,2', 'r03_block:5,4,1,3', 'r03_block:3,2,0,0'] +
     ['r03_eigenstate:2,0,1,0', 'r03_eigenstate:2,1,2,1', 'r03_eigenstate:3,1,2,1', 'r03_eigenstate:4,3,3,1', 'r03_eigenstate:5,2,2,0', 'r03_eigenstate_block:2,0,1,0', 'r03_eigenstate_block:3,1,1,1', 'r03_eigenstate_block:3,2,2,2', 'r03_eigenstate_block:4,2,3,2'] +
     ['r03_single:%d,%d' % (b, i) for b in (0, 1) for i in (0, 1)],
     ['r03_dense:%d,%d,3,%d' % (n, c, m) for n in (2, 3, 4, 5) for c in range(n) for m in (0, 1, 2, 3)] + ['r03_block:5,%d,%d,%d' % (c, i, m) for c in range(5) for i in (1, 2, 3) for m in (0, 2, 3, 5, 7)] +
     ['r03_eigenstate_block:5,2,3,0', 'r03_eigenstate_block:5,0,1,2', 'r03_eigenstate:5,4,3,1'],
     bounds='chains of 1 to 5 sites, every start, 0 to 3 iterations, any convergence criterion, bonds of at most 1 or 2. Sweeps: the operator is zero as a whole while its environments are arbitrary; the factors of every decomposition are solver variables constrained only to be isometric, with a fixed spectrum. Eigenstates: basis states, chains of arbitrary 2x2 matrices acting on them, through the public function',
     outside='the random initial state of the form without a state; convergence (N01); decompositions truncated by the cutoff; complex elements; floating point rounding')
NOT_APPLICABLE = {
    'N01': 'convergence of the iterative ground state search is a statement about the limit of unboundedly many floating point sweeps; no finite symbolic unrolling decides it (the per-step parts are R01-R03)',
    'N02': 'the dense SVD and eigenvalue kernels are LAPACK routines inside the prebuilt libtorch binary: no source or bitcode to encode, and the claim is about floating point rounding of iterative algorithms',
    'N03': 'automatic differentiation is done by the prebuilt libtorch autograd engine, which cannot be encoded; QuantiT only forwards to it',
    'N04': 'the Python module is glue generated by pybind11 templates against the CPython and libtorch runtimes, neither of which can be encoded symbolically here',
}
