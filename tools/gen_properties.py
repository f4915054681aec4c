#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))

Q="include/Conserved/quantity.h"; QI="include/Conserved/Composite/quantity_impl.h"
CQ="include/Conserved/Composite/cquantity.h"; QV="include/Conserved/Composite/quantity_vector.h"
QVI="include/Conserved/Composite/quantity_vector_impl.h"; AQ="sources/any_quantity.cpp"
FM="include/blockTensor/flat_map.h"; BT="sources/btensor.cpp"; BH="include/blockTensor/btensor.h"
BL="sources/btensor_linalg.cpp"; LA="sources/LinearAlgebra.cpp"; TG="sources/tensorgdot.cpp"
MP="sources/MPT.cpp"; MH="include/MPT.h"; DM="sources/dmrg.cpp"; MO="sources/models.cpp"; OP="sources/operators.cpp"

prop("Q01","Conserved quantities form an abelian group in canonical form",
 "For every modulus and every pair or triple of values, cyclic and integer conserved quantities are closed under their composition, which is associative and commutative, has the neutral element as identity and gives the neutral element for a value composed with its inverse. Two integers congruent modulo the order always construct equal cyclic quantities, equality is an equivalence, and the ordering is a strict total order consistent with equality.",
 ["inputs"],"every value of the integer argument (16 bit) and every pair/triple of values, for a spread of moduli from 1 up to the largest documented order",
 "Tests compare a handful of hand written values of a few moduli; wrap-around, negative multiples of the modulus and near-limit orders are never sampled.",
 [Q,"include/Conserved/quantity_utils.h","sources/groups.cpp"],[("modular reduction on construction and composition",Q),("16 bit storage of the representative",Q)],
 observe=["group operation results","equality and ordering"])
prop("Q02","Composite quantities behave componentwise, erased or not",
 "A composite conserved quantity composes, inverts, compares for equality and resets to neutral componentwise, and the type-erased quantity gives exactly the same answers as the concrete one. Its ordering is a strict total order consistent with equality, and the squared distance between two values is the sum of the squared differences of the components, symmetric, non negative and zero exactly for equal values.",
 ["inputs"],"all component values of one, two and three component quantities mixing cyclic and integer groups",
 "Unit tests multiply two or three fixed composites; laws over all values (especially ordering used to sort blocks) cannot be settled by samples.",
 [QI,CQ,AQ,Q],[("tuple folding of component operations",QI),("virtual dispatch through the type-erased interface",CQ)],observe=["operator results"])
prop("Q03","Mixing quantities of different symmetry groups is rejected without damage",
 "Combining or comparing in order two type-erased quantities (or collections) of different concrete symmetry types either raises an error or reports them as different, and never silently yields a value. The operands keep their values when the operation is rejected; assigning a quantity of another type replaces type and value.",
 ["inputs","histories"],"all values of two different composite types and each combining operation",
 "Tests only use matching types, apart from one or two throws checks.",
 [CQ,QI,QVI,AQ],[("dynamic type check before combining",QI),("clone on assignment",CQ)],observe=["exceptions","values after failure"])
prop("Q04","Type-erased quantities and collections are value types",
 "Copying, moving, assigning or swapping a type-erased quantity or a collection of them yields an object equal to the source, independent of later changes to the source, for every value, length and emptiness including default constructed objects. References into a collection read and write exactly the element they designate.",
 ["inputs","histories"],"all values, lengths 0..3, all pairs of (copy, move, assign, swap, mutate) operations",
 "Sharing, slicing or use-after-move bugs only show for particular orders of operations; tests exercise single copies.",
 [CQ,QV,QVI,AQ],[("virtual clone",CQ),("owning pointer semantics",QV)],observe=["element values after operations"])
prop("Q05","A quantity collection behaves as a sequence",
 "Inserting, erasing, appending, resizing, permuting, sorting and iterating a collection of conserved quantities has the same outcome as the same operation on a plain sequence of the values. Permuting by a permutation and by its inverse restores the collection.",
 ["inputs","histories"],"all values, lengths up to 4, every position/range and every permutation",
 "Tests check single hand written permutations; positions and lengths are quantified.",
 [QV,QVI],[("type-erased iterator arithmetic",QV),("in-place permutation",QVI)],observe=["sequence content"])
prop("F01","The block list is a sorted map with unique keys",
 "After any sequence of insertions, hinted insertions, assignments, lookups and removals the block list holds each key at most once, in key order, with the value an ordinary map would hold, and every lookup (find, contains, bounds, access) agrees with that map. Removing an absent key changes nothing.",
 ["inputs","histories"],"all keys and values, any starting map of up to 3 entries, any operation and hint position, and operation sequences",
 "Tests insert a fixed increasing key list; which keys collide, hint positions and absent keys are the quantified part.",
 [FM],[("binary search with hint",FM),("sorted contiguous storage",FM)],observe=["iteration order and content"])
prop("F02","Merging block lists applies each combination rule exactly once",
 "Merging a range of entries into a block list gives the sorted union of keys; entries present on both sides are combined with the collision rule exactly once, entries only in the added range get the no-collision rule exactly once, and entries only in the original keep their value.",
 ["inputs"],"all key patterns and values, both sides holding up to 3 entries",
 "One fixed overlap pattern is tested; interleavings of keys (all before, all after, nested, equal) are quantified and select different code paths.",
 [FM],[("in-place backward merge",FM)],observe=["merged content"])
prop("D01","Dimension list helpers compute what they name",
 "Concatenating, multiplying, reversing and slicing lists of dimensions give exactly the sequence (or product) those words mean, for every list length including empty lists.",
 ["inputs"],"all dimension values, list lengths 0..4",
 "A few constant lists are tested.",
 ["sources/dimension_manip.cpp","include/dimension_manip.h"],[("initializer/array concatenation",  "sources/dimension_manip.cpp")],observe=["returned list"])
prop("B01","Blocks exist only where the conservation law allows",
 "In a block tensor a block can be created or accessed exactly at the block positions whose conserved values, composed over all dimensions, equal the tensor's selection rule; any other position (or an index of wrong rank or out of range) is rejected with an error and leaves the tensor unchanged. The validity test accepts exactly the tensors whose blocks obey the law and whose block sizes match the section sizes.",
 ["inputs"],"all conserved values on every section and all selection rules, all block indices, ranks 1..3, up to 2 sections per dimension",
 "Tests use single hand-built tensors with known-good blocks; the rule has to hold for every labelling.",
 [BT,BH],[("selection rule test per block index",BT),("tensor validation",BT)],[("block list","allowed blocks and their values",BH),("section conserved values","labels per section",BH)],observe=["exceptions","content of the block list"])
prop("B02","Global, section and block coordinates are consistent",
 "For every section layout, mapping a global element position to its section and offset is a bijection onto the (section, offset) pairs within range, the reported total sizes are the sums of the section sizes, and the reported conserved value, section size and section count of an element, section or block are those of the layout the tensor was built with. Out of range positions are rejected.",
 ["inputs"],"all section sizes (bounded), labels and element positions, ranks 1..3",
 "Tests read a few positions of one tensor.",
 [BT,BH],[("cumulative section scan",BT),("flattened per-dimension section arrays",BH)],observe=["accessor results"])
prop("B03","Dense conversion round-trips",
 "Converting a dense tensor to block form and back returns the same tensor when every element above the cutoff is allowed by the conservation law, the block form only contains allowed blocks, and converting any valid block tensor to dense puts each element at the position its sections dictate, zero elsewhere.",
 ["inputs"],"all labels, section sizes up to 2, all element values, ranks 1..3",
 "Round trips are tested on one shape with random values.",
 [BT],[("block slicing of the dense tensor",BT)],observe=["dense tensor"])
prop("B04","Reordering dimensions matches the dense reordering",
 "Permuting or transposing the dimensions of a block tensor gives the block tensor of the permuted dense tensor, with labels and section sizes permuted alike and the conservation law kept; applying the inverse permutation restores the original. In-place and copying variants agree.",
 ["inputs"],"all labels, section layouts, values and permutations up to rank 3",
 "One permutation of one tensor is tested.",
 [BT],[("block index permutation",BT)],observe=["dense image","labels"])
prop("B05","Contractions match dense contractions and conserve",
 "Contracting two compatible block tensors over any matching dimension lists equals contracting their dense forms, and the result is a valid tensor whose selection rule is the composition of the two. Dimensions that do not match (different sizes or labels that are not inverses) are rejected.",
 ["inputs"],"all labels, selection rules, values and section layouts, ranks 1..3, every choice of contracted dimensions (0..2 dimensions)",
 "Tests contract a few fixed tensors; whether blocks are paired, ordered and accumulated correctly depends on the labels.",
 [BT],[("block pairing sorted on contracted indices",BT),("compatibility test",BT)],observe=["dense image","selection rule","exceptions"])
prop("B06","Element-wise arithmetic matches dense arithmetic with broadcasting",
 "Adding, subtracting (with scale factors), multiplying and dividing block tensors and scalars equals the dense operation, including broadcasting over size-one dimensions, when the result respects conservation; results are valid tensors, and operands with incompatible shapes or laws are rejected.",
 ["inputs"],"all labels, presence patterns of blocks on either side, values and scale factors, ranks 1..2 (3 for aligned shapes)",
 "Tests use fully populated operands; missing blocks on one side, the interleaving of block lists and scale factors are quantified.",
 [BT,FM],[("block list merge with combination rules",FM),("broadcast shape computation",BT)],observe=["dense image","exceptions"])
prop("B07","Regrouping dimensions preserves every element",
 "Joining neighbouring dimensions of a block tensor and splitting them back, or reshaping onto a given template, moves every element to the position determined by its coordinates, keeps the conservation law, and joining then splitting returns the original tensor.",
 ["inputs"],"all labels, values, section layouts up to rank 3 and every grouping",
 "Only one shape is joined and split in tests.",
 [BT],[("block index regrouping and shape template",BT)],observe=["dense image after round trip"])
prop("B08","Operations do not modify their operands",
 "No out-of-place operation on block tensors, tensor networks or dense tensors changes the value, shape or labels of its inputs, and each in-place operation leaves the object equal to the result of its out-of-place counterpart.",
 ["inputs","histories"],"all labels, values and presence patterns, each operation pair of the arithmetic, shape and label families",
 "Aliasing shows only for some presence patterns (for instance when blocks of one operand are adopted by the result) and is never asserted in tests.",
 [BT,FM],[("shallow block handles copied on construction",BT)],observe=["operands after the operation"])
prop("B09","Slicing and slice assignment match dense slicing",
 "Taking a view at fixed element positions of some dimensions gives the dense slice, with the fixed labels moved to the selection rule; assigning to such a view changes exactly the designated elements and leaves the tensor valid. Positions out of range are rejected.",
 ["inputs"],"all labels, values, section layouts, fixed dimension subsets and positions, ranks 1..3",
 "A handful of positions of one tensor are tested.",
 [BT],[("block filtering per fixed index",BT)],observe=["dense image of view and of the modified tensor"])
prop("B10","Shapes compose and decompose",
 "Combining shapes (tensor product of shapes, extracting a sub-shape, neutralising, shifting or inverting labels) gives the labels and section sizes of the corresponding dimensions in order, with the selection rule following the group law; inverting twice and shifting there and back restore the original. Label operations that keep elements keep all of them and keep the law satisfied.",
 ["inputs"],"all labels, section layouts, ranks 1..3",
 "Only single examples are tested.",
 [BT,BH],[("concatenation of per-dimension label arrays",BT)],observe=["labels, sizes, selection rule, validity"])
prop("B11","Batched matrix products match dense ones",
 "The batched matrix product of two block tensors (and the plain matrix product) equals the dense batched product and is a valid tensor; mismatched shapes are rejected.",
 ["inputs"],"all labels, values, section layouts, rank 2 and 3",
 "One fixed product is tested.",[BT],[("block pairing by batch and inner index",BT)],observe=["dense image"])
prop("B13","Reductions and comparisons agree with the dense tensor",
 "Summing all elements, testing for any true element, comparing for closeness, removing size-one dimensions, taking powers and norms of block tensors give the answer of the dense tensor.",
 ["inputs"],"all labels, values and presence patterns of blocks, ranks 1..3",
 "Tests use one populated tensor per reduction.",[BT],[("fold over blocks",BT)],observe=["scalar results"])
prop("B14","Constructors fill exactly the allowed elements",
 "Filled constructors (zeros, ones, full, identity, random, and their -like forms) produce a tensor with every allowed block and no other, each of the section sizes, holding the requested value; the identity is one exactly on the diagonal.",
 ["inputs"],"all labels, selection rules, section sizes, rank 1..3",
 "Checked for one shape by tests.",[BT],[("enumeration of allowed block indices",BT)],observe=["dense image, block list"])
prop("T01","Dense accumulating contraction equals its definition",
 "The dense accumulating contraction returns beta times the added tensor plus alpha times the contraction of the two others for every choice of contracted dimensions, memory layout of the operands and scale factors; the in-place form writes the result in the given tensor, the output form into the output tensor, and the other operands keep their values. Operands whose contracted sizes or result sizes do not match are rejected.",
 ["inputs"],"all values and factors, ranks up to 3, all dimension choices, permuted (non contiguous) operands",
 "One shape with default factors is tested.",[TG],[("permute/reshape/addmm",TG)],observe=["result tensor"])
prop("L01","Truncation keeps what the tolerance and bounds require",
 "Given the values of a decomposition, truncation keeps the fewest of the largest ones (by magnitude) for which the discarded weight, the sum of the requested power of their magnitudes, does not exceed the same power of the tolerance; never less than the minimum (or all, if there are fewer), and never more than the maximum. With a batch of spectra, the weight of every one of them is within the tolerance. The same number of values is found from an ascending list. The unitary factors are cut to the same columns; the arguments keep their values.",
 ["inputs"],"all spectra of up to 4 values (two batched spectra included), all tolerances, minimum from none to more than there are, maximum from none to more than there are",
 "Tests truncate one random matrix with one tolerance.",[LA],[("backward accumulation of discarded weight",LA)],observe=["sizes and content of the truncated factors"])
prop("L02","Decompositions rebuild the tensor and respect conservation",
 "Given a correct dense matrix kernel, the singular value and eigenvalue decompositions of dense and block tensors (split at any position, and the batched form of the singular value decomposition) multiply back to the original tensor; their factors are isometric over the whole tensor, have the labels of the original one, are valid block tensors of its element type; the operand is left as it was. A block tensor without any block has a decomposition too.",
 ["inputs"],"all labels and values; rank 2..4; up to 3 sections per dimension; every split; each block present or not",
 "Tests decompose one or two fixed layouts; which sections share a label determines how blocks are compacted.",
 [BL,LA],[("grouping of blocks by label and compaction to dense",BL),("reshape around the dense kernel",LA)],observe=["product of factors, orthonormality, labels, element type, validity"])
prop("L03","Block truncation treats all factors alike and keeps the largest values",
 "Truncating a block decomposition (singular values or eigenvalues) keeps the largest values over all blocks within the requested bounds and tolerance, taken as one spectrum as in L01, except that equal values are kept together; keeps in every factor exactly the columns of the kept values and no block of a section left empty, and leaves valid tensors with the labels they had.",
 ["inputs"],"all spectra over up to 3 sections, bounds and tolerance, all labels",
 "Only loose error bounds on one tensor are tested.",[BL],[("global threshold over all blocks",BL),("removal of emptied blocks",BL)],observe=["factor shapes and blocks"])
prop("M01","Tensor network containers accept exactly well-formed chains",
 "Building a state or operator network succeeds exactly when every tensor has the right rank and neighbouring bonds agree (size and label), and the orthogonality centre lies inside the chain; otherwise an error is raised. Copies, conversions and container operations preserve the tensors and the centre.",
 ["inputs","histories"],"all bond and physical sizes and labels, lengths 1..3, all centre positions",
 "A few bad shapes are tried.",[MP,MH],[("rank and bond checks",MP)],observe=["exceptions, stored tensors"])
prop("M02","Moving the orthogonality centre keeps the state",
 "Given a correct dense matrix kernel, moving the orthogonality centre to any site leaves the represented state unchanged, makes the tensors passed isometric towards the centre, leaves the other tensors and copies of the state alone, keeps the labels of physical and outer dimensions and the total charge, records the new position, and refuses positions outside the chain.",
 ["inputs"],"all tensor values and target positions for chains of 2..3 sites, dense and block",
 "One 2-site random state is moved once.",[MP],[("decompose and absorb into the neighbour",MP)],observe=["contraction of the network, centre"])
prop("M03","Network contraction equals the dense expectation value",
 "Contracting two states, with or without an operator in between and with given edges or the default ones (outer bonds of one element, or with the same labels in both states), equals the dense inner product, for dense and for block networks; the networks and edges given are left as they were.",
 ["inputs"],"all tensor values for 1..3 sites with small bonds, labels symbolic for block networks",
 "Checked on one random 2-site network.",[MP],[("left-to-right edge contraction",MP)],observe=["scalar result"])
prop("M04","Random states obey the requested conservation law",
 "For every outcome of the random generator, a generated random block state has well-formed tensors, every site conserves, and the total charge is the requested one; unreachable requests are refused.",
 ["inputs"],"every random draw, all physical labels and requested totals for chains of up to 3 sites",
 "Tests draw one random sample.",[MP],[("random string corrected towards the constraint",MP)],observe=["labels of generated state"])
prop("H01","Model Hamiltonians equal their definition for all couplings",
 "The matrix product operators built for the Hubbard and Heisenberg chains, contracted over their bonds, equal the Hamiltonian written directly from spin/fermion operators, for every coupling and chain length; the conserving versions equal the plain ones for every admissible labelling.",
 ["inputs"],"all couplings; chain lengths 2..4",
 "Tests compare one coupling at one length with a hand written matrix (Hubbard not at all).",
 [MO,OP],[("bond-indexed operator table",MO)],observe=["contracted operator"])
prop("R01","The two-site optimisation step uses the exact effective problem",
 "The left and right environments, the product of neighbouring operators and the two-site effective operator used by the ground state search equal the dense projections of the Hamiltonian, for every state and operator; the state and the operator are left as they were.",
 ["inputs"],"all tensor values, small dims, chains of 2..4 sites; dense and block",
 "Checked on one random Ising state.",[DM],[("environment recursion",DM)],observe=["effective operator applied to state"])
prop("R02","A local update never raises the energy",
 "The two-level problem solved in each update returns its lowest eigenvalue with a normalised eigenvector (including degenerate and uncoupled cases). A local update of a normalised state returns a normalised combination of the state and of the effective operator applied to it, whose expectation value is the energy returned and does not exceed the one before; an eigenstate is returned as it is, with its eigenvalue.",
 ["inputs"],"all real matrix elements of two-level problems and of small symmetric effective operators; dense and block",
 "One random matrix is tested.",[DM],[("closed-form 2x2 eigenproblem",DM)],observe=["eigenvalue and vector"])
prop("R03","The sweep visits every bond and leaves the centre in range",
 "For every chain length, start position, and iteration limit, the ground state search stays inside the chain, updates every bond in each full sweep with environments of the current state, stops after at most the requested number of iterations (before, once the energy has settled) within the bounds on the bonds, and leaves the orthogonality centre where it says it is: the sites on either side are isometric. It returns the last energy; an eigenstate keeps its value. A single site, which has no pair to update, is refused.",
 ["inputs","histories"],"chain lengths 1..5, all start positions, 0..3 iterations; dense and block",
 "Tests run 5 sites from site 0.",[DM],[("direction reversal at the edges",DM)],observe=["sequence of visited bonds, final centre"])
prop("N01","Ground state search converges to the true ground state",
 "For gapped Hamiltonians the ground state search converges to the exact ground-state energy within the requested criterion.",
 ["inputs","configurations"],"all Hamiltonians and initial states",
 "Only selected models are compared.",[DM],[("iterated local optimisation",DM)])
prop("N02","Dense decomposition kernels are numerically accurate",
 "Singular value and eigenvalue decompositions of dense matrices reproduce the input within rounding error.",
 ["inputs"],"all finite matrices","Random samples only.",[LA],[("delegation to the tensor library",LA)])
prop("N03","Gradients propagate through tensor network operations",
 "Automatic differentiation through block tensor operations yields the derivative of the dense computation.",
 ["inputs"],"all differentiable programs built from the operations","No gradient test exists.",[BT,DM],[("delegation to the tensor library's autograd",BT)])
prop("N04","Python bindings expose the same behaviour",
 "Every operation available from the Python module gives the result of the native operation.",
 ["inputs"],"all bound functions and arguments","The bindings are not built by the test build.",["python_binding"],[("binding layer","python_binding")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
