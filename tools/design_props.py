#!/usr/bin/env python3
"""prints the per-property part of DESIGN.md (BOUNDS are read from the scenario modules)"""
import ast,json,re,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
info={
'P01':("contractTwoTensors/shareBonds/toMatrix run on symbolic tensors; result compared with the explicit sum. Every leg order, link set, link direction, explicit or found links, equal labels, complex.","5 s"),
'P02':("same oracle with diagonal operands expanded by the definition; also toTensor/toMatrix, diagonalNDTensor.","5 s"),
'P03':("whole networks (chains, triangles, squares, double links, disconnected parts, dense/diagonal/scalar) contracted by default, exhaustive, greedy and every user order; inputs compared with a snapshot; contracted again.","11 s"),
'P04':("all dimensions symbolic; the search runs on them (its comparisons fork); the oracle builds the symbolic cost of every competing order and z3 decides that none is cheaper. Greedy and typical-dim included.","105 s"),
'P05':("every present/absent and compatible/incompatible combination of shape, labels, data, legs; symbolic elements; the oracle states which combinations are consistent and what the tensor must hold.","5 s"),
'P06':("the same operation sequence on a data-less and a real tensor; labels, dimensions, kind compared; dimensions of data-less ones are symbolic integers.","17 s"),
'P07':("copy / toTensorLike / copyN / copyTensorList, then mutating operations on one side; the other side compared with its snapshot.","5 s"),
'P08':("every permutation, label pattern and row/column split; values by named index and row-major positions.","24 s"),
'P09':("explicit sums; square roots are atoms r with r*r = s; weights symbolic.","17 s"),
'P10':("contraction before and after fusing/merging; merge with a limit against the SVD contract.","11 s"),
'P11':("factors from the SVD/eigh contract; reconstruction, orthonormality, weights and error formula by entailment.","42 s"),
'P12':("a reference model of the description (names, links, renamings, fusings) beside the real FiniteTensorNetwork; histories of edit/contract/lock.","60 s"),
'P13':("each recipe against its diagram written as lines; each line's dimension varied so that swapped lines show.","17 s"),
'P14':("exp(J) are positive atoms: the partition function is a Laurent polynomial in them; all multigraphs in bounds; couplings symbolic.","5 s"),
'P15':("all histories of add/list; symbolic lattice sizes and weights.","9 s"),
'P16':("all histories of link/relink/contract/fuse/merge/copy within bounds beside a model of the links; invariant after each step.","36 s"),
'P17':("text with symbolic characters (letters, digits), parsed by the real parser over symbolic strings.","23 s"),
'P18':("each helper against its definition with symbolic integers, lists known only up to their equality pattern, symbolic arrays.","12 s"),
'P19':("cost formulas with symbolic dimensions, per pair and along given and searched sequences.","26 s"),
'P20':("chains with symbolic elements; state = contraction over the links by leg identity; SVD contract; histories of operations.","22 s"),
'P21':("one coarse-graining step on symbolic tensors; exact values written out as lattice sums; norms are square-root atoms, logarithms atoms with exp(log x) = x, factorisations their contracts; impurity networks over a recording stand-in.","60 s"),
}
def bounds(p):
    for n in ast.parse(open(os.path.join(H,'props',p+'.py')).read()).body:
        if isinstance(n,ast.Assign) and n.targets[0].id=='BOUNDS': return ast.literal_eval(n.value)
for l in open(os.path.join(H,'properties.jsonl')):
    d=json.loads(l)
    if d['id'] not in info: continue
    how,cost=info[d['id']]
    print('### %s %s\n\n*How:* %s  \n*Bounds:* %s  \n*Cost (quick, 8 cores):* about %s.  \n*Why tests cannot:* %s\n'%(d['id'],d['title'],how,bounds(d['id']),cost,d['why_tests_cant']))
