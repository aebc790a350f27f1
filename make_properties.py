#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
T='src/CTL/tensor/'; C=T+'contract/'; F='src/CTL/funcs/'; N='src/CTL/tensornetwork/'; M='src/CTL/models/Ising.py'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("P01","Contracting two tensors sums over exactly the linked index pairs",
"Contracting two ordinary tensors yields a tensor whose value at every assignment of the remaining indices is the sum, over all values of the linked index pairs, of the product of the two operands' elements; with no linked pair it is the outer product. The result carries every remaining leg once with its own name, dimension and outstanding links, keeps complex data complex, and does not depend on the order of the operands, the storage order of their legs, the direction in which links were made, or whether the links are passed explicitly or discovered.",
["inputs","configurations"],"every element value; every rank, leg order, dimension pattern, set of links, link direction, label pattern and element type within the bounds",
"Tests contract a few tensors holding fixed or random numbers and compare shapes or one norm; a wrong axis order or dropped imaginary part agrees with them whenever dimensions coincide or data are symmetric.",
[C+'contract.py',T+'tensor.py',C+'link.py',T+'bond.py'],
[("contractTwoTensors",C+'contract.py'),("shareBonds",C+'contract.py'),("Tensor.toMatrix",T+'tensor.py')],
["elements, labels and shape of the returned tensor"])

prop("P02","Diagonal tensors give the same contraction results as their dense form",
"Replacing any diagonal tensor by the ordinary tensor that stores the same elements explicitly (the diagonal values on the diagonal, zero elsewhere) never changes the mathematical result of a contraction or outer product: elements, index names and dimensions agree. This holds for diagonal with dense, diagonal with diagonal, scalar diagonal tensors, real and complex data, and any number of shared links; expanding a diagonal tensor to a full array or matrix gives those same elements.",
["inputs","configurations"],"every element value; every rank, leg order, dimension, set of links and element type within the bounds, for both kinds of partner",
"Tests compare a few diagonal contractions with hand-built dense ones; leg orders, outer products of two diagonals, complex data and scalar results are combinations they never reach.",
[T+'diagonalTensor.py',C+'contract.py',F+'funcs.py'],
[("contractTwoTensors, diagonal branches",C+'contract.py'),("DiagonalTensor",T+'diagonalTensor.py'),("diagonalNDTensor",F+'funcs.py')],
["elements, labels and shape of the contraction result"])

prop("P03","A network contracts to one value, whatever strategy or order is used",
"Contracting a list of linked tensors gives the same tensor (same index names, same element at every index assignment, equal to the sum over all internal links of the product of all elements) for the default, exhaustive and greedy orders and for every valid order supplied by the user, including networks with several disconnected parts. Unless contraction in place was requested, the tensors in the list keep their data, legs and links, so contracting them again gives the same answer.",
["inputs","configurations","histories"],"every element value; every network topology, tensor kind (dense or diagonal), leg order and contraction order within the bounds; repeated contraction of the same list",
"Tests compare the norms of two orders on two or three fixed networks; agreement for every topology and order, and freedom from side effects on the inputs, is beyond any sample of networks.",
[C+'optimalContract.py',C+'contract.py',C+'tensorGraph.py'],
[("contractAndCostWithSequence",C+'optimalContract.py'),("copyTensorList",C+'optimalContract.py'),("TensorGraph.optimalContractSequence",C+'tensorGraph.py')],
["the contracted tensor","the caller's tensors after the call"])

prop("P04","The optimal contraction order is valid and of minimal cost",
"For every connected network of tensors with legs, the order returned by the default search and by the exhaustive search is a valid sequence of pairwise contractions covering all tensors, and its total cost is the minimum over all possible sequences, where one pairwise contraction costs the product of the dimensions of all distinct indices involved (for a diagonal and an ordinary tensor only the indices left unlinked count, and for two linked diagonal tensors a single dimension); when a typical dimension is given, every dimension counts as that number. The optimal cost the search reports is that minimum, also when it is asked for before the search was run explicitly; greedy search returns a valid sequence as well.",
["inputs","configurations"],"every assignment of positive dimensions to the links, every topology, and both kinds of tensors, within the bounds",
"Tests pin the order for two dimension assignments of one network; minimality is a claim about all weights and all competing orders.",
[C+'tensorGraph.py',C+'optimalContract.py',F+'graph.py'],
[("optimalContractSequence (capping, bruteForce, greedySearch)",C+'tensorGraph.py'),("makeTensorGraph",C+'optimalContract.py')],
["returned sequence","reported optimal cost"])

prop("P05","Tensor construction is consistent or refused, and owns its data",
"Constructing an ordinary or diagonal tensor from any combination of shape, labels, data and legs either raises an error or yields a tensor whose shape, number of legs, leg dimensions, labels and stored elements all agree with each other and with everything that was given, with elements kept in row-major order when a shape regroups the data. Whenever the given pieces are mutually compatible construction succeeds, a missing shape, label or data item gets its documented default, and later changes to the caller's array never change the tensor.",
["inputs","configurations"],"every element value and every combination of present/absent, compatible/incompatible shape, labels, data and legs within the bounds",
"Tests try some thirty combinations; the deduction has dozens of interacting cases per kind of tensor and each wrong acceptance yields a tensor whose later contraction is silently wrong.",
[T+'tensor.py',T+'diagonalTensor.py'],
[("Tensor.deduction",T+'tensor.py'),("DiagonalTensor.deduction",T+'diagonalTensor.py')],
["shape, labels, leg dimensions, elements of the new tensor, or the error"])

prop("P06","Data-less tensors mirror the shapes and legs of real tensors",
"Any sequence of supported operations (contraction, outer product, fusing of legs and links, relabelling, reordering, tagging, summing out, copying) applied to tensors without data gives tensors with the same leg names, leg dimensions, rank and kind as the same operations applied to tensors with data. A tensor without data never carries data, refuses operations that need data, and its dimensions may be arbitrary positive integers.",
["inputs","configurations","histories"],"every positive dimension assignment; every rank, link set and operation sequence within the bounds",
"Tests check a few shapes of data-less contraction; shape bookkeeping must hold for all dimensions, which only a symbolic treatment of dimensions covers.",
[T+'tensor.py',T+'diagonalTensor.py',C+'contract.py'],
[("tensorLikeFlag branches",T+'tensor.py'),("tensorLikeContract branches",C+'contract.py')],
["labels, shape and kind of the result"])

prop("P07","Copies equal their originals and are independent of them",
"A copy of a tensor has the same kind, labels, dimensions, elements, element type, name and degree-of-freedom tag as the original and no links; a data-less copy has the same except for the elements; a copy of a list of tensors reproduces exactly the links among the listed tensors. No later operation on a copy changes the original or another copy, and vice versa.",
["inputs","histories"],"every element value; ordinary, diagonal, scalar and data-less tensors; every link set and every mutating operation within the bounds",
"Tests copy only a couple of small tensors; aliasing shows only when a particular later operation mutates shared data, legs or links.",
[T+'tensor.py',T+'diagonalTensor.py',C+'optimalContract.py'],
[("copy / toTensorLike / copyN",T+'tensor.py'),("copyTensorList",C+'optimalContract.py')],
["the original after mutating the copy, and the reverse"])

prop("P08","Reordering, renaming and flattening never change what an index means",
"Moving legs or labels to the front, rearranging to a given label order, renaming labels, adding and removing name tags, and looking legs up keep the value stored at each assignment of named indices unchanged, and leave the legs in exactly the order asked for with the others in their previous order. Flattening to a matrix or vector places the element of each index assignment at the row-major position of the requested row and column legs; with repeated labels, looking legs up or moving them to the front matches occurrences in order, and backward look-ups match from the end.",
["inputs","histories"],"every element value; every rank, dimension pattern, label pattern (repeats included), permutation and sequence of two or three such operations within the bounds",
"Tests use three or four fixed tensors and mostly compare shapes; a swapped axis is invisible when dimensions are equal or when only a norm is compared.",
[T+'tensor.py',T+'diagonalTensor.py',F+'funcs.py'],
[("moveLegsToFront / moveLabelsToFront / reArrange",T+'tensor.py'),("toMatrix",T+'tensor.py'),("generateIndices",F+'funcs.py')],
["elements by named index","leg order"])

prop("P09","Traces, norms and summing out legs equal their defining sums",
"The trace of a tensor over paired row and column legs is the sum of its elements at which the flattened row and column positions coincide; the norm is the square root of the sum of squared magnitudes of all elements; the single value of a rank-zero tensor is its element. Summing out one or several legs, optionally weighting index values, removes exactly those legs and leaves the (weighted) sum over their indices, for ordinary and diagonal tensors alike, with the summed diagonal tensor equal to the sum of its dense form whenever the result is representable as documented.",
["inputs"],"every element value and weight, real and complex; every rank, leg choice, dimension pattern and order of summation within the bounds",
"Tests evaluate a handful of constants; wrong axes, lost weights or lost imaginary parts are data-dependent.",
[T+'tensor.py',T+'diagonalTensor.py',F+'funcs.py'],
[("trace / norm / single / sumOutLeg / sumOutLegByLabel",T+'tensor.py'),("sumOnAxis",F+'funcs.py')],
["returned number","tensor after the call"])

prop("P10","Fusing legs and links preserves every contraction they take part in",
"Fusing several legs of a tensor into one places each element at the row-major position of the fused indices in the order given, and merging all parallel links between two tensors into a single one leaves their contraction, and their remaining legs, unchanged. Only unlinked legs or whole links can be fused, and merging that involves a diagonal tensor is refused without changing either tensor. Merging with a bond-dimension limit yields one link whose dimension is at most the limit, the number of non-negligible singular values (but at least one) and the matrix dimensions; when nothing needs to be discarded the contraction is unchanged.",
["inputs","configurations"],"every element value; every rank, fused subset and order, number of parallel links, leg order, names and limit within the bounds",
"Tests merge two fixed pairs and check shapes; equality of the contraction depends on both sides fusing in the same order for every leg order.",
[T+'tensor.py',C+'link.py',C+'contract.py'],
[("outProduct",T+'tensor.py'),("mergeLink",C+'link.py'),("merge",C+'contract.py')],
["contraction before and after","labels and dimension of the fused link"])

prop("P11","Matrix and tensor decompositions reconstruct what they decompose",
"Splitting a matrix or a tensor by singular values gives factors with orthonormal columns or rows, non-negative ordered weights and the requested labels, whose product equals the input exactly when the allowed dimension is not smaller than the number of singular values. Otherwise exactly the largest weights are kept and the reported error is the discarded weight divided by the total. The eigenvectors selected for an environment are those of its largest eigenvalues above the threshold, at most as many as the limit, as orthonormal columns ordered by eigenvalue, with the error the discarded part of the trace (zero when the limit exceeds the number of eigenvalues above the threshold); isometry checks accept exactly matrices with orthonormal rows.",
["inputs"],"every real or complex matrix within the size bounds and every truncation, given that the numerical library's factorisations satisfy their contracts",
"Tests never vary the truncation against an independent oracle; which weights are dropped and how the error is normalised depend on the spectrum.",
[F+'decompose.py',T+'tensorFunc.py',F+'linalg.py',F+'funcs.py'],
[("SVDDecomposition",F+'decompose.py'),("tensorSVDDecomposition / isIsometry",T+'tensorFunc.py'),("solveEnv",F+'linalg.py')],
["product of the factors","reported error"])

prop("P12","A reusable finite network always contracts what it describes",
"Contracting a finite network description with a set of named tensors gives the sum over all declared links of the product of the tensors' elements, after the declared renamings and fusings, with the documented labels; the supplied tensors are left untouched, even when one tensor is supplied under several names. This holds on every use of the same description: repeated, with tensors of other dimensions or kinds, after unlocking and editing tensors, links or renamings; a locked description refuses edits, mismatching names are refused, and separate descriptions never influence each other. Links are declared between different tensors; a tensor is removed only after its links; results with equal labels can be told apart by their tags when the description is not told to drop them.",
["inputs","configurations","histories"],"every element value; every small description, every sequence of build, contract, unlock and edit steps, and dimension changes within the bounds",
"Tests contract two fixed networks twice; a stale cached order or shared default list only shows after particular histories of edits.",
[N+'tensornetwork.py',N+'tensordict.py'],
[("FiniteTensorNetwork.contract",N+'tensornetwork.py'),("loadBondDims / optimalSeq caching",N+'tensornetwork.py')],
["the contracted tensor","supplied tensors afterwards"],
[("optimalSeq","cached contraction order",N+'tensornetwork.py'),("bondDims","dimensions seen at the last contraction",N+'tensornetwork.py')])

prop("P13","The ready-made network recipes compute their documented diagrams",
"Each ready-made recipe (contracting a triangle or square block, extending and building corner-transfer edges and corners, even and odd corner partition functions, horizontal and vertical block contractions, coarse-graining projections, environments, traces and self-overlaps) equals the explicit sum over the internal lines of its diagram, with outer lines grouped and labelled as documented.",
["inputs"],"every element value of every tensor in each recipe, with dimension patterns that tell the lines apart, within the bounds",
"Tests run some recipes inside physical algorithms on highly symmetric tensors for which swapping two lines changes nothing.",
[C+'contractExp.py',N+'tensornetwork.py'],
[("recipe constructors",C+'contractExp.py')],
["elements and labels of each recipe's result"])

prop("P14","Ising networks evaluate to the exact partition function",
"For every graph without self-loops and every non-negative coupling, contracting the network built from the graph gives the exact partition function, i.e. the sum over all spin assignments of the exponential of the sum of couplings times spin products, including graphs with parallel edges and isolated vertices; the direct enumeration gives the same sum and the weight of one assignment is its term. The square-lattice, plaquette and site tensors have the elements their Hamiltonian prescribes for every coupling, field and observable.",
["inputs","configurations"],"all real coupling values (non-negative where a square root is taken) and all graphs within the bounds",
"Tests compare three lattices at a few couplings with a tolerance; the claim is an algebraic identity in the couplings.",
[M,F+'graph.py',F+'graphFuncs.py'],
[("IsingTNFromUndirectedGraph / IsingSiteTensor / IsingEdgeMatrix",M),("exactZFromGraphIsing / getIsingWeight",M),("squareIsingTensor / plaquetteIsingTensor",M)],
["contracted value","tensor elements"])

prop("P15","Graphs and lattice builders contain exactly the intended edges",
"An undirected graph lists every edge added so far exactly once, at both of its ends, with its weight, at any moment of its construction, and navigating an edge from one end gives the other. The square lattices with periodic or free boundaries, the doubled lattice and the complete graph contain exactly the edges of their definition with the weight of their direction, for every size.",
["inputs","histories"],"every size and weight, and every interleaving of adding and listing edges, within the bounds",
"Tests build a few fixed sizes and count degrees; stale listings depend on the interleaving of additions and queries.",
[F+'graph.py',F+'graphFuncs.py',C+'tensorGraph.py'],
[("UndirectedGraph.getEdges",F+'graph.py'),("lattice builders",F+'graphFuncs.py'),("TensorGraph.addFreeEdge / addEdgeIndex",C+'tensorGraph.py')],
["edge list, vertex edge lists, weights"],
[("edges / updated","cached edge list",F+'graph.py')])

prop("P16","Links stay symmetric and name exactly two legs of equal dimension",
"After any sequence of linking, relinking, contracting, fusing and copying, every linked leg's partner is linked back to it through the same link, the two legs have equal dimension, each leg belongs to the tensor that lists it, and no leg is listed by two tensors. Linking a leg that is already linked frees its former partner. Linking legs of different dimension, or merging links of a diagonal tensor, is refused and changes nothing.",
["inputs","histories"],"every sequence of operations and every dimension assignment within the bounds",
"Tests link fresh legs once; the invariant is about all histories, and a broken link only shows up in a later contraction.",
[T+'bond.py',T+'leg.py',C+'link.py',C+'contract.py'],
[("Bond",T+'bond.py'),("makeLink / mergeLink",C+'link.py')],
["leg and link objects of all tensors"],
[("leg.bond / bond.legs","mutual references",T+'bond.py')])

prop("P17","A network described by text is the network that text denotes",
"A textual description in which each upper-case letter starts a tensor with at least one leg and each lower-case label (one letter, or several letters and digits in braces), with its optional dimension (one digit, or several in braces, without leading zero), adds a leg gives tensors with exactly those names, labels and dimensions in that order, linked wherever two tensors share a label, a missing dimension being taken from the partner. Labels used more than twice, links whose two given dimensions differ, and texts that do not start with an upper-case letter are refused.",
["inputs"],"every text over the grammar within the length bounds, with symbolic digits and letters",
"Tests parse two texts; the parser is a hand-written state machine over all strings.",
[C+'tensorGraph.py',C+'optimalContract.py'],
[("decodeSubText / createTensorListFromText",C+'tensorGraph.py')],
["tensor names, labels, shapes, links"])

prop("P18","Index arithmetic and list helpers obey their defining equations",
"Base and bit expansions, mixed-radix index decoding, modular wrap-around, multinomial counting and enumeration of partitions, list difference, common elements and multiset comparison, duplicate-aware position look-up, pairing, diagonal scaling and identity arrays, tolerance comparisons, relative errors and distances, bisection, opposite directions, unique-name generation and partial inverses return exactly what their definitions prescribe, for every argument in their domain, and leave their arguments unchanged.",
["inputs"],"every integer or real argument within the bounds, all list contents up to equality pattern",
"Tests touch two of these helpers with one argument each; they sit under every larger computation.",
[F+'funcs.py'],
[("helpers",F+'funcs.py')],
["returned values"])

prop("P19","Contraction cost accounting equals the work the index sizes imply",
"The cost and rank reported for a pairwise contraction are the product of the dimensions and the number of all distinct indices involved (counting only unlinked indices when exactly one operand is diagonal, and one dimension when two diagonal tensors are linked), for every pair and independently of operand order. The total reported for a network contraction is the sum of these costs along the sequence actually used, so that, with the true dimensions, the order found by the default search never reports a higher total than any other order.",
["inputs","configurations"],"every positive dimension assignment, rank, link set, kind of tensors and sequence within the bounds",
"Tests pin three costs; accounting errors for other ranks, link counts or kinds do not change contraction results and go unnoticed.",
[C+'optimalContract.py',C+'tensorGraph.py'],
[("contractCost / contractAndCostWithSequence",C+'optimalContract.py')],
["reported cost and level"])

prop("P20","Matrix-product-state and Schmidt operations preserve the represented state",
"Canonicalising an open-boundary matrix product state, moving its centre, merging or swapping neighbouring sites, and splitting a tensor into Schmidt factors leave the represented state unchanged as long as no bond needs truncation, keep every bond within its dimension limit (which is at least the largest bond dimension at the start), and keep the chain's links and labels intact; all sites except the centre are isometries after canonicalising. Contracting two chains over their only shared link, merging their shared links, making a chain of a tensor and contracting a network through such chains give the value of the contraction they stand for.",
["inputs","histories"],"every element value of small chains and every sequence of a few operations within the bounds, given that the numerical library's factorisations satisfy their contracts",
"Tests run the operations on random tensors and compare a few norms; the claim is an identity over all tensors and centre positions.",
['src/CTL/examples/MPS.py','src/CTL/examples/Schimdt.py'],
[("FreeBoundaryMPS",'src/CTL/examples/MPS.py'),("SchimdtDecomposition / matrixSchimdtDecomposition",'src/CTL/examples/Schimdt.py')],
["contraction of the chain before and after"])
prop("P21","Coarse-graining without truncation preserves the value of the network",
"As long as nothing is truncated, one step of the square TRG, the triangular TRG or the HOTRG replaces the tensor by one whose closed network, times the recorded norms, has exactly the value of the finer lattice, and the reported error is zero; with truncation the new tensors are the specified contractions of the kept factors or projectors. A start or step records tensors of norm one together with their norms and site counts, the reported log partition function per site belongs to those, impurity steps average over all ways of spreading the impurities over the combined parts, and the corner-transfer-matrix partition functions equal the direct sums over small open lattices. Tensors given are left unchanged.",
["inputs"],"every element value of small tensors, every direction and projector, every limit within the bounds, given that the numerical library's factorisations satisfy their contracts",
"Tests compare Ising free energies at a few temperatures with loose tolerances; a wrong index pairing or weight is invisible for symmetric tensors.",
['src/CTL/examples/TRG.py','src/CTL/examples/HOTRG.py','src/CTL/examples/impurity.py','src/CTL/examples/CTMRG.py',C+'contractExp.py'],
[("SquareTRG / TriangleTRG",'src/CTL/examples/TRG.py'),("HOTRG",'src/CTL/examples/HOTRG.py'),("ImpurityTensorNetwork",'src/CTL/examples/impurity.py'),("CTMRG",'src/CTL/examples/CTMRG.py')],
["archived tensors, norms, errors and partition functions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
